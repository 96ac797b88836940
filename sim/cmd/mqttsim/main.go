// mqttsim runs seeded simulations for one property, minimises what it finds, and replays recorded executions.
//
//	mqttsim check  -prop C01 -tier quick -seed 1 -runs N -max-s S -known FILE -evidence FILE -replays DIR
//	mqttsim replay FILE
//	mqttsim one    -prop C01 -seed N          (trace of a single run)
//	mqttsim worker ...                        (internal)
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/harness"
	"verifsim/simrt"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mqttsim check|replay|one")
		os.Exit(2)
	}
	debug.SetMaxStack(128 << 20)
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "worker":
		os.Exit(worker(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "one":
		os.Exit(one(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
	os.Exit(2)
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property string              `json:"property"`
	Class    string              `json:"class"`
	Message  string              `json:"message"`
	Seed     uint64              `json:"seed"`
	RootSeed uint64              `json:"verif_seed"`
	Index    int                 `json:"run_index"`
	Streams  map[string][]uint32 `json:"streams"`
	Hash     string              `json:"trace_hash"`
	Steps    int                 `json:"steps"`
	SimNs    int64               `json:"simulated_ns"`
	Original map[string]int      `json:"choices_before_minimising"`
	Minimal  map[string]int      `json:"choices_after_minimising"`
	Summary  string              `json:"summary"`
	Trace    []string            `json:"trace"`
	Known    []string            `json:"known_findings_set_aside,omitempty"`
}

// Agg is what a worker found.
type Agg struct {
	Runs, Nontriv          int
	SimNs, Steps, Switches int64
	Faults, Ops, Probes    map[string]int
	RunsWith               map[string]int // runs in which each fault kind occurred
	Out, In                [16]int
	Hashes, NontrivHashes  []uint64
	Known                  map[string]int
	KnownText              map[string]string
	Other                  map[string]int // violations of other properties met on the way
	Ends                   map[string]int
	Samples                []string
	Viol                   *harness.Violation
	ViolIndex              int
	ViolSeed               uint64
	Internal               string
	InternalSeed           uint64
	TimedOut               bool
	MaxTasks               int
	WallS                  float64
}

func newAgg() *Agg {
	return &Agg{Faults: map[string]int{}, Ops: map[string]int{}, Probes: map[string]int{}, RunsWith: map[string]int{}, Known: map[string]int{},
		KnownText: map[string]string{}, Other: map[string]int{}, Ends: map[string]int{}, ViolIndex: -1}
}

func keys(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func addMap(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func (a *Agg) add(res *harness.Result) {
	a.Runs++
	if res.Nontriv {
		a.Nontriv++
	}
	a.SimNs += res.SimNs
	a.Steps += int64(res.Steps)
	a.Switches += int64(res.Switches)
	addMap(a.Faults, res.Stats.Faults)
	for k := range res.Stats.Faults {
		a.RunsWith[k]++
	}
	addMap(a.Ops, res.Stats.Ops)
	addMap(a.Probes, res.Stats.Probes)
	addMap(a.Known, res.Known)
	for i := range a.Out {
		a.Out[i] += res.Stats.Out[i]
		a.In[i] += res.Stats.In[i]
	}
	a.Hashes = append(a.Hashes, res.Hash)
	if res.Nontriv {
		a.NontrivHashes = append(a.NontrivHashes, res.Hash)
	}
	a.Ends[res.End]++
}

func runSeed(root uint64, prop string, i int) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range prop {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return simrt.Mix(simrt.Mix(root, h), uint64(i))
}

func loadKnown(file, prop string) (map[string]bool, map[string]string) {
	keys, text := map[string]bool{}, map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return keys, text
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		fs := strings.SplitN(rest, " ", 3)
		if len(fs) < 3 || !strings.HasPrefix(fs[1], "class=") {
			continue
		}
		k := fs[0] + "/" + strings.TrimPrefix(fs[1], "class=")
		keys[k] = true
		if fs[0] == prop {
			text[k] = fs[2]
		}
	}
	return keys, text
}

// ---- worker ---------------------------------------------------------------------------------------------------------

func worker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	root := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	runs := fs.Int("runs", 1000, "")
	maxS := fs.Float64("max-s", 60, "")
	known := fs.String("known", "", "")
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	a := newAgg()
	kn, _ := loadKnown(*known, *prop)
	start := time.Now()
	var mu sync.Mutex
	cur, curAt := -1, time.Now()
	go func() { // watchdog: a run that makes no progress at all
		for {
			time.Sleep(time.Second)
			mu.Lock()
			stuck := cur >= 0 && time.Since(curAt) > 120*time.Second
			i := cur
			mu.Unlock()
			if stuck {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "run %d (seed %d) does not advance\n%s\n", i, runSeed(*root, *prop, i), buf)
				os.Exit(4)
			}
		}
	}()
	for i := *from; i < *runs; i += *step {
		if time.Since(start).Seconds() > *maxS {
			a.TimedOut = true
			break
		}
		mu.Lock()
		cur, curAt = i, time.Now()
		mu.Unlock()
		seed := runSeed(*root, *prop, i)
		fmt.Fprintf(os.Stderr, "@%d\n", i)
		res := harness.Run(*prop, harness.Choices{Seed: seed}, false, kn)
		a.add(res)
		if len(a.Samples) < 2 {
			a.Samples = append(a.Samples, fmt.Sprintf("run %d seed %d: %s", i, seed, res.Summary))
		}
		if res.Internal != "" {
			a.Internal, a.InternalSeed = res.Internal, seed
			break
		}
		hit := false
		for _, v := range res.Viol {
			if v.Prop == *prop {
				vv := v
				a.Viol, a.ViolIndex, a.ViolSeed = &vv, i, seed
				hit = true
				break
			}
			a.Other[v.Key()]++
		}
		if hit {
			break
		}
	}
	a.WallS = time.Since(start).Seconds()
	json.NewEncoder(os.Stdout).Encode(a)
	return 0
}

// ---- check ----------------------------------------------------------------------------------------------------------

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	root := fs.Uint64("seed", 1, "")
	runs := fs.Int("runs", 1000, "")
	maxS := fs.Float64("max-s", 60, "")
	known := fs.String("known", "", "")
	evid := fs.String("evidence", "", "")
	reps := fs.String("replays", "", "")
	nw := fs.Int("workers", 8, "")
	minS := fs.Float64("min-s", 45, "seconds for minimising")
	fs.Parse(args)
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	aggs := make([]*Agg, *nw)
	fails := make([]string, *nw)
	deaths := map[int]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < *nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			from := k
			var out []byte
			for try := 0; ; try++ {
				cmd := exec.Command(self, "worker", "-prop", *prop, "-seed", fmt.Sprint(*root), "-from", fmt.Sprint(from), "-step", fmt.Sprint(*nw),
					"-runs", fmt.Sprint(*runs), "-max-s", fmt.Sprint(*maxS-time.Since(start).Seconds()), "-known", *known)
				var errb tail
				cmd.Stderr = &errb
				o, err := cmd.Output()
				if err == nil {
					out = o
					break
				}
				// the process died, which the simulator cannot turn into a panic of one task
				why := deathOf(errb.text())
				if why == "" || try >= 40 {
					fails[k] = fmt.Sprintf("worker %d: %v at run %d\n%s", k, err, errb.last, errb.text())
					return
				}
				mu.Lock()
				deaths[errb.last] = why
				mu.Unlock()
				if *prop == "C12" {
					out = []byte("{}")
					break
				}
				from = errb.last + *nw
			}
			a := newAgg()
			if err := json.Unmarshal(out, a); err != nil {
				fails[k] = fmt.Sprintf("worker %d: %v", k, err)
				return
			}
			aggs[k] = a
		}()
	}
	wg.Wait()
	tot := newAgg()
	var best *Agg
	hashes, nhashes := map[uint64]bool{}, map[uint64]bool{}
	for k, a := range aggs {
		if a == nil {
			continue
		}
		tot.Runs += a.Runs
		tot.Nontriv += a.Nontriv
		tot.SimNs += a.SimNs
		tot.Steps += a.Steps
		tot.Switches += a.Switches
		for _, p := range [][2]map[string]int{{tot.Faults, a.Faults}, {tot.Ops, a.Ops}, {tot.Probes, a.Probes}, {tot.RunsWith, a.RunsWith},
			{tot.Known, a.Known}, {tot.Other, a.Other}, {tot.Ends, a.Ends}} {
			addMap(p[0], p[1])
		}
		for i := range tot.Out {
			tot.Out[i] += a.Out[i]
			tot.In[i] += a.In[i]
		}
		for _, h := range a.Hashes {
			hashes[h] = true
		}
		for _, h := range a.NontrivHashes {
			nhashes[h] = true
		}
		if k < 3 {
			tot.Samples = append(tot.Samples, a.Samples...)
		}
		tot.TimedOut = tot.TimedOut || a.TimedOut
		if a.Internal != "" {
			fails[k] = fmt.Sprintf("internal failure at seed %d: %s", a.InternalSeed, a.Internal)
		}
		if a.Viol != nil && (best == nil || a.ViolIndex < best.ViolIndex) {
			best = a
		}
	}
	kn, ktext := loadKnown(*known, *prop)
	exit := 0
	var viols []any
	if best != nil {
		rep, ok := minimise(*prop, best.ViolSeed, *best.Viol, kn, *minS)
		rep.RootSeed, rep.Index = *root, best.ViolIndex
		os.MkdirAll(*reps, 0o755)
		path := filepath.Join(*reps, fmt.Sprintf("%s-%s-%d.json", *prop, *tier, best.ViolSeed))
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		// a fresh process must reproduce it
		out, _ := exec.Command(self, "replay", path).CombinedOutput()
		same := ok && strings.Contains(string(out), "REPRODUCED exactly")
		fmt.Printf("seed %d (run %d): %s: %s\n", best.ViolSeed, best.ViolIndex, rep.Class, rep.Message)
		fmt.Printf("minimised from %v to %v choices, %d steps, %.3fs simulated; last events:\n", rep.Original, rep.Minimal, rep.Steps, float64(rep.SimNs)/1e9)
		t := rep.Trace
		if len(t) > 25 {
			t = t[len(t)-25:]
		}
		for _, l := range t {
			fmt.Println("   ", cut(l, 220))
		}
		if !same {
			fmt.Println("the recorded execution was not reproduced in a fresh process:")
			fmt.Println(string(out))
			fmt.Fprintln(os.Stderr, "internal: violation not reproducible")
			return 2
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		viols = append(viols, map[string]any{"class": rep.Class, "message": cut(rep.Message, 600), "seed": fmt.Sprint(best.ViolSeed), "replay": path})
		exit = 1
	}
	if len(deaths) > 0 {
		i := -1
		for k := range deaths {
			if i < 0 || k < i {
				i = k
			}
		}
		seed := runSeed(*root, *prop, i)
		fmt.Printf("%d runs ended with the death of the process; run %d (seed %d): %s\n", len(deaths), i, seed, cut(deaths[i], 1500))
		if *prop == "C12" && exit == 0 {
			rep := &Replay{Property: *prop, Class: classDeath, Message: deaths[i], Seed: seed, RootSeed: *root, Index: i, Known: keys(kn)}
			os.MkdirAll(*reps, 0o755)
			path := filepath.Join(*reps, fmt.Sprintf("%s-%s-%d.json", *prop, *tier, seed))
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			if out, _ := exec.Command(self, "replay", path).CombinedOutput(); !strings.Contains(string(out), "REPRODUCED") {
				fmt.Fprintln(os.Stderr, "internal: the death of the process was not reproduced\n"+string(out))
				return 2
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			viols = append(viols, map[string]any{"class": classDeath, "message": cut(deaths[i], 600), "seed": fmt.Sprint(seed), "replay": path})
			exit = 1
		}
	}
	for _, f := range fails {
		if f != "" {
			fmt.Fprintln(os.Stderr, f)
			if exit == 0 {
				exit = 2
			}
		}
	}
	var ks []string
	for k := range ktext {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met %d times in %d runs)\n", *prop, ktext[k], tot.Known[k], tot.Runs)
	}
	wall := time.Since(start).Seconds()
	fmt.Printf("%s %s: %d runs, %d distinct executions, %.1f simulated hours, %.1fs wall, %.0f runs/hour, faults %s\n", *prop, *tier, tot.Runs, len(hashes),
		float64(tot.SimNs)/3.6e12, wall, float64(tot.Runs)/wall*3600, mapText(tot.Faults))
	if tot.TimedOut {
		fmt.Printf("the time limit of %.0fs ended the search before %d runs\n", *maxS, *runs)
	}
	if *evid != "" {
		writeEvidence(*evid, *prop, *tier, *root, tot, len(hashes), len(nhashes), wall, viols, kn)
	}
	if tot.Runs == 0 && exit == 0 {
		exit = 2
	}
	return exit
}

const classDeath = "process-death"

// deathOf says how the Go runtime ended a process, if it was while the code under test ran.
func deathOf(stderr string) string {
	i := strings.Index(stderr, "fatal error: ")
	if i < 0 || !strings.Contains(stderr[i:], "github.com/waj334/tinygo-mqtt/") {
		return ""
	}
	return strings.SplitN(stderr[i:], "\n", 2)[0]
}

// tail keeps the end of a worker's standard error and the last run it announced.
type tail struct {
	b    []byte
	last int
}

func (t *tail) Write(p []byte) (int, error) {
	for _, l := range strings.SplitAfter(string(p), "\n") {
		if strings.HasPrefix(l, "@") {
			fmt.Sscanf(l, "@%d", &t.last)
			t.b = t.b[:0]
		} else if len(t.b) < 1<<17 {
			t.b = append(t.b, l...)
		}
	}
	return len(p), nil
}

func (t *tail) text() string {
	var out []string
	for _, l := range strings.Split(string(t.b), "\n") {
		if !strings.HasPrefix(l, "@") {
			out = append(out, l)
		}
	}
	if len(out) > 400 {
		out = out[:400]
	}
	return strings.Join(out, "\n")
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func mapText(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return "{" + strings.Join(p, " ") + "}"
}

// ---- replay, single runs --------------------------------------------------------------------------------------------

func replay(args []string) int {
	if len(args) < 1 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	kn := map[string]bool{}
	for _, k := range r.Known {
		kn[k] = true
	}
	if r.Class == classDeath {
		self, _ := os.Executable()
		var errb tail
		cmd := exec.Command(self, "one", "-prop", r.Property, "-seed", fmt.Sprint(r.Seed), "-q")
		cmd.Stderr = &errb
		err := cmd.Run()
		if why := deathOf(errb.text()); err != nil && why != "" {
			fmt.Printf("REPRODUCED exactly: %s\nVIOLATION property=%s replay=%s\n", why, r.Property, args[0])
			return 1
		}
		fmt.Println("not reproduced on this tree")
		return 0
	}
	if r.Streams == nil {
		r.Streams = map[string][]uint32{}
	}
	res := harness.Run(r.Property, harness.Choices{Seed: r.Seed, Replay: r.Streams}, true, kn)
	for _, l := range res.Trace {
		if len(args) > 1 && args[1] == "-v" {
			fmt.Println(cut(l, 300))
		}
	}
	if res.Internal != "" {
		fmt.Println("internal:", res.Internal)
		return 2
	}
	for _, v := range res.Viol {
		if v.Prop == r.Property && v.Class == r.Class {
			if fmt.Sprintf("%016x", res.Hash) == r.Hash && v.Msg == r.Message {
				fmt.Println("REPRODUCED exactly (trace hash " + r.Hash + ")")
			} else {
				fmt.Println("reproduced, but the execution differs from the recorded one")
			}
			fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.Class, v.Msg, v.Prop, args[0])
			return 1
		}
	}
	fmt.Println("not reproduced on this tree")
	return 0
}

func one(args []string) int {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "C01", "")
	seed := fs.Uint64("seed", 1, "run seed")
	idx := fs.Int("index", -1, "run index under VERIF_SEED=1")
	quiet := fs.Bool("q", false, "")
	root := fs.Uint64("root", 1, "")
	fs.Parse(args)
	if *idx >= 0 {
		*seed = runSeed(*root, *prop, *idx)
	}
	res := harness.Run(*prop, harness.Choices{Seed: *seed}, !*quiet, nil)
	for _, l := range res.Trace {
		fmt.Println(cut(l, 400))
	}
	fmt.Println(res.Summary)
	fmt.Printf("hash %016x steps %d\n", res.Hash, res.Steps)
	for _, v := range res.Viol {
		fmt.Println("VIOL", v.Key(), v.Msg)
	}
	if res.Internal != "" {
		fmt.Println("INTERNAL", res.Internal)
		return 2
	}
	return 0
}
