package simrt

import (
	"strings"
	"unsafe"
)

// Happens-before tracking (vector clocks, in the manner of FastTrack). Locks, channels, atomics, go statements and
// joins create edges; two conflicting accesses to the same tracked location that are not ordered by those edges are a
// data race in the sense of the Go memory model. Where the exact edge is debatable the runtime adds it, so a report
// is never an artefact of a missing edge.

type VC []uint32

func (v *VC) grow(n int) {
	for len(*v) < n {
		*v = append(*v, 0)
	}
}
func (v *VC) tick(id int) { v.grow(id + 1); (*v)[id]++ }
func (v *VC) join(o VC) {
	v.grow(len(o))
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}
func (v VC) at(id int) uint32 {
	if id < len(v) {
		return v[id]
	}
	return 0
}

// SyncVar is the clock of a synchronisation object.
type SyncVar struct{ vc VC }

func curTask() *Task {
	if S == nil || S.cur == nil || S.cur.dying {
		return nil
	}
	return S.cur
}

func (a *SyncVar) Acquire() {
	if t := curTask(); t != nil {
		t.vc.join(a.vc)
	}
}
func (a *SyncVar) Release() {
	if t := curTask(); t != nil {
		a.vc.join(t.vc)
		t.vc.tick(t.ID)
	}
}
func (a *SyncVar) AcqRel() { a.Acquire(); a.Release() }

// Join adds the edge from everything t has done to the current task.
func Join(t *Task) {
	if c := curTask(); c != nil {
		c.vc.join(t.vc)
	}
}

type accessRec struct {
	id   int
	clk  uint32
	what string
}

type shadow struct {
	w     accessRec
	hasW  bool
	reads []accessRec
}

func access(p unsafe.Pointer, write bool, what string) {
	Yield()
	t := curTask()
	if t == nil || S.OnRace == nil {
		return
	}
	s := S
	sh := s.shadow[p]
	if sh == nil {
		sh = &shadow{}
		s.shadow[p] = sh
	}
	clk := t.vc.at(t.ID)
	if sh.hasW && sh.w.id != t.ID && sh.w.clk > t.vc.at(sh.w.id) {
		s.race("write "+sh.w.what, desc(write, what))
	}
	if write {
		for _, r := range sh.reads {
			if r.id != t.ID && r.clk > t.vc.at(r.id) {
				s.race("read "+r.what, desc(true, what))
			}
		}
		sh.reads = sh.reads[:0]
		sh.w, sh.hasW = accessRec{t.ID, clk, what}, true
		return
	}
	for i := range sh.reads {
		if sh.reads[i].id == t.ID {
			sh.reads[i] = accessRec{t.ID, clk, what}
			return
		}
	}
	sh.reads = append(sh.reads, accessRec{t.ID, clk, what})
}

func desc(write bool, what string) string {
	if write {
		return "write " + what
	}
	return "read " + what
}

func (s *Sim) race(a, b string) {
	ka, kb := key(a), key(b)
	if ka > kb {
		ka, kb, a, b = kb, ka, b, a
	}
	s.OnRace(RaceReport{A: a, B: b, Key: ka + "|" + kb})
}

func key(d string) string { // drop the position
	if i := strings.IndexByte(d, '@'); i >= 0 {
		return strings.TrimSpace(d[:i])
	}
	return d
}
