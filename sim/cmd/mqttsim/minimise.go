package main

import (
	"fmt"
	"time"

	"verifsim/harness"
)

var streamNames = []string{"X", "N", "S", "W"}

func copyStreams(m map[string][]uint32) map[string][]uint32 {
	out := map[string][]uint32{}
	for k, v := range m {
		out[k] = append([]uint32(nil), v...)
	}
	return out
}

// trim drops trailing zeros (an exhausted stream yields zeros).
func trim(v []uint32) []uint32 {
	for len(v) > 0 && v[len(v)-1] == 0 {
		v = v[:len(v)-1]
	}
	return v
}

func weight(m map[string][]uint32) map[string]int {
	out := map[string]int{}
	for k, v := range m {
		n := 0
		for _, x := range v {
			if x != 0 {
				n++
			}
		}
		out[k] = n
	}
	return out
}

// minimise shrinks the choices of a failing run while the same violation (property and class) remains.
func minimise(prop string, seed uint64, want harness.Violation, known map[string]bool, maxS float64) (*Replay, bool) {
	end := time.Now().Add(time.Duration(maxS * float64(time.Second)))
	fails := func(st map[string][]uint32) (*harness.Result, bool) {
		res := harness.Run(prop, harness.Choices{Seed: seed, Replay: st}, false, known)
		if res.Internal != "" {
			return res, false
		}
		for _, v := range res.Viol {
			if v.Prop == want.Prop {
				return res, v.Class == want.Class
			}
		}
		return res, false
	}
	res := harness.Run(prop, harness.Choices{Seed: seed}, false, known)
	best := copyStreams(res.Rec)
	orig := weight(best)
	_, ok := fails(best)
	if ok {
		for k := range best {
			best[k] = trim(best[k])
		}
		try := func(st map[string][]uint32) bool {
			if time.Now().After(end) {
				return false
			}
			if r, ok := fails(st); ok {
				// what was really consumed
				n := copyStreams(r.Rec)
				for k := range n {
					n[k] = trim(n[k])
				}
				best = n
				return true
			}
			return false
		}
		for round := 0; round < 8 && time.Now().Before(end); round++ {
			improved := false
			for _, k := range streamNames {
				// truncate
				for n := 0; n < len(best[k]); n = n*2 + 1 {
					c := copyStreams(best)
					c[k] = c[k][:n]
					if try(c) {
						improved = true
						break
					}
				}
				// zero, then delete, ever smaller chunks
				for size := (len(best[k]) + 1) / 2; size >= 1; size /= 2 {
					for at := 0; at < len(best[k]) && time.Now().Before(end); {
						hi := at + size
						if hi > len(best[k]) {
							hi = len(best[k])
						}
						nz := false
						for _, x := range best[k][at:hi] {
							nz = nz || x != 0
						}
						if nz {
							c := copyStreams(best)
							for i := at; i < hi; i++ {
								c[k][i] = 0
							}
							if try(c) {
								improved = true
								at += size
								continue
							}
						}
						if size <= 64 && k != "W" {
							c := copyStreams(best)
							c[k] = append(c[k][:at:at], c[k][hi:]...)
							if try(c) && len(best[k]) > 0 {
								improved = true
								continue
							}
						}
						at += size
					}
					if size == 1 {
						break
					}
				}
				// lower single values
				for i := 0; i < len(best[k]) && time.Now().Before(end); i++ {
					for i < len(best[k]) && best[k][i] > 1 {
						c := copyStreams(best)
						c[k][i] /= 2
						before := best[k][i]
						if !try(c) {
							break
						}
						improved = true
						if i < len(best[k]) && best[k][i] >= before {
							break
						}
					}
				}
			}
			if !improved {
				break
			}
		}
	}
	fin := harness.Run(prop, harness.Choices{Seed: seed, Replay: best}, true, known)
	rep := &Replay{Property: prop, Class: want.Class, Message: want.Msg, Seed: seed, Streams: best, Hash: fmt.Sprintf("%016x", fin.Hash), Steps: fin.Steps,
		SimNs: fin.SimNs, Original: orig, Minimal: weight(best), Summary: fin.Summary, Trace: fin.Trace, Known: keys(known)}
	hit := false
	for _, v := range fin.Viol {
		if v.Prop == want.Prop && v.Class == want.Class {
			rep.Message = v.Msg
			hit = true
		}
	}
	return rep, hit
}
