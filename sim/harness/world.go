// Package harness holds the simulated world around the client under test: transport, broker, storage, applications,
// and the oracles that judge the recorded history.
package harness

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

	"verifsim/shim/rand"
	rand2 "verifsim/shim/rand2"
	"verifsim/simrt"
	"verifsim/wire"
)

const (
	ms  = int64(1_000_000)
	sec = int64(1_000_000_000)
)

// Violation is one broken property.
type Violation struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Msg   string `json:"message"`
	Step  int    `json:"step"`
	T     int64  `json:"t_ns"`
}

func (v Violation) Key() string { return v.Prop + "/" + v.Class }

type Stats struct {
	Faults map[string]int
	Ops    map[string]int
	Probes map[string]int
	Out    [16]int
	In     [16]int
}

func (s *Stats) Fault(n string) { s.Faults[n]++ }
func (s *Stats) Probe(n string) { s.Probes[n]++ }

// World is one simulated execution.
type World struct {
	sim  *simrt.Sim
	W    *simrt.Stream // workload and configuration
	N    *simrt.Stream // network latencies and fragmentation
	X    *simrt.Stream // faults
	S    *simrt.Stream // schedule
	cfg  Config
	prop string

	conns   []*Conn
	broker  *Broker
	clients []*Client
	ops     []*Op
	store   *Store

	linStore *memory.Storage
	linOps   []*linOp
	records  int

	Viol     []Violation
	seen     map[string]bool
	Known    map[string]int
	known    map[string]bool // findings that are recorded, not reported
	Stats    Stats
	phase    int
	held     []func()
	uniq     int
	ctl      *simrt.Task
	connPk   *packets.Connect // the last CONNECT of the application
	connWant *wire.Packet
	clientID string
	panics   int
}

func (w *World) log(f string, a ...any) { w.sim.Log(f, a...) }

// violate records a violation (once per class and run). A violation of the property under test ends the run.
func (w *World) violate(prop, class, f string, a ...any) {
	k := prop + "/" + class
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	msg := fmt.Sprintf(f, a...)
	if w.known[k] {
		w.Known[k]++
		w.log("known finding %s: %s", k, msg)
		return
	}
	w.log("VIOLATION %s %s: %s", prop, class, msg)
	w.Viol = append(w.Viol, Violation{prop, class, msg, w.sim.Steps, w.sim.Now()})
	if prop == w.prop && !simrt.Dying() {
		w.sim.Stop("violation")
	}
}

// lat draws a network latency.
func (w *World) lat() int64 {
	if w.phase >= 2 {
		return 200_000
	}
	return w.cfg.latMin + int64(w.N.Intn(w.cfg.latSpan))*w.cfg.latUnit
}

// hold runs f now, or only when the faults stop, as the fault stream decides.
func (w *World) hold(num, den int, kind string, f func()) {
	if w.phase < 2 && num > 0 && w.X.Chance(num, den) {
		w.Stats.Fault(kind)
		w.held = append(w.held, f)
		return
	}
	f()
}

// Result of a run.
type Result struct {
	Seed     uint64
	Viol     []Violation
	End      string
	Steps    int
	Switches int
	Hash     uint64
	SimNs    int64
	Stats    Stats
	Trace    []string
	Rec      map[string][]uint32
	Internal string // harness failure
	Summary  string
	Known    map[string]int
	Nontriv  bool
}

// Choices of a run: generated from a seed, or replayed.
type Choices struct {
	Seed   uint64
	Replay map[string][]uint32 // nil: generate
}

func (c Choices) stream(n string) *simrt.Stream {
	if c.Replay != nil {
		return simrt.NewReplay(n, c.Replay[n])
	}
	return simrt.NewStream(n, c.Seed)
}

// Run executes one simulation for a property and returns what the oracles found.
func Run(prop string, ch Choices, trace bool, known map[string]bool) (res *Result) {
	res = &Result{Seed: ch.Seed}
	w := &World{prop: prop, seen: map[string]bool{}, Known: map[string]int{}, known: known}
	w.Stats = Stats{Faults: map[string]int{}, Ops: map[string]int{}, Probes: map[string]int{}}
	w.W, w.N, w.X, w.S = ch.stream("W"), ch.stream("N"), ch.stream("X"), ch.stream("S")
	defer func() {
		simrt.S = nil
		res.Rec = map[string][]uint32{"W": w.W.Rec, "N": w.N.Rec, "X": w.X.Rec, "S": w.S.Rec}
		if r := recover(); r != nil {
			res.Internal = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	w.cfg = drawConfig(w)
	w.sim = simrt.New(w.cfg.sched, w.S)
	w.sim.KeepTrace = trace
	rand.SeedRun(int64(w.W.Intn(1 << 30)))
	rand2.SeedRun(uint64(w.W.Intn(1 << 30)))
	w.sim.OnRace = func(r simrt.RaceReport) {
		w.violate("C13", r.Key, "unsynchronised accesses: %s and %s", r.A, r.B)
	}
	w.sim.OnFatal = func(msg string) {
		w.onCrash(w.sim.Cur(), "fatal error: "+msg, "")
	}
	w.sim.OnPanic = func(t *simrt.Task) {
		if t.Data == taskHarness || !apiPanic(t.Stack) {
			panic(fmt.Sprintf("harness task %s: %v\n%s", t.Name, t.Panic, t.Stack))
		}
		w.onCrash(t, fmt.Sprint(t.Panic), t.Stack)
	}
	w.sim.OnIdle = w.onIdle
	w.sim.OnBudget = func() { w.onBudget() }
	w.log("property %s config %s", prop, w.cfg.String())
	w.start()
	res.End = w.sim.Run()
	if res.End == "budget" {
		w.Stats.Probe("run-budget-exhausted")
	}
	w.finish(res.End)
	w.report(res, trace)
	return res
}

func (w *World) report(res *Result, trace bool) {
	res.Viol = w.Viol
	if n := w.sim.Freezes; n > 0 {
		w.Stats.Faults["task-descheduled"] += n
	}
	res.Steps, res.Switches, res.Hash, res.SimNs = w.sim.Steps, w.sim.Switches, w.sim.TraceHash, w.sim.Now()
	res.Stats, res.Trace, res.Known = w.Stats, w.sim.Trace, w.Known
	okOps := 0
	for _, o := range w.ops {
		if o.Ret != 0 {
			okOps++
		}
	}
	pk := 0
	for _, c := range w.conns {
		pk += len(c.in) + len(c.outP)
	}
	res.Nontriv = okOps > 0 && pk >= 4 && w.sim.Switches >= 5 || strings.HasPrefix(w.prop, "C19") && okOps > 1 || w.cfg.codec && w.records > 1
	res.Summary = fmt.Sprintf("%s | %d ops, %d packets, %d task switches, %.3fs simulated, end=%s, faults=%s", w.cfg.String(), okOps, pk,
		w.sim.Switches, float64(w.sim.Now())/1e9, res.End, mapText(w.Stats.Faults))
}

func mapText(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, k := range ks {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%s=%d", k, m[k])
	}
	return "{" + sb.String() + "}"
}

func (w *World) onCrash(t *simrt.Task, msg, stack string) {
	w.panics++
	name := "?"
	if t != nil {
		name = t.Name
	}
	opText := ""
	if t != nil {
		if c := w.clientOf(t); c != nil && c.cur[t] != nil {
			opText = " in " + c.cur[t].text()
		}
	}
	class := "panic"
	if strings.HasPrefix(msg, "fatal error") {
		class = "fatal"
	}
	w.violate("C12", class, "the process crashed in task %s%s: %s\n%s", name, opText, msg, trimStack(stack))
	// whatever a property promises for conforming traffic, a crash breaks
	strict := w.cfg.conform
	for _, cl := range w.clients {
		strict = strict && !cl.hostile
	}
	if strict || w.prop == "C13" && class == "fatal" || w.prop == "C18" && strings.Contains(msg, "closed channel") {
		if w.prop != "C12" {
			w.violate(w.prop, class, "the process crashed in task %s%s: %s\n%s", name, opText, msg, trimStack(stack))
		}
	}
	w.sim.Stop("crash")
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/mqtt") {
			out = append(out, frame(strings.TrimSpace(l)))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "; ")
}

// frame leaves the addresses out of a line of a stack trace: they differ from process to process.
func frame(l string) string {
	if i := strings.Index(l, ".go:"); i >= 0 {
		if j := strings.IndexByte(l[i:], ' '); j >= 0 {
			l = l[:i+j]
		}
		return l
	}
	if i := strings.LastIndexByte(l, '('); i > 0 && strings.HasSuffix(l, ")") {
		l = l[:i]
	}
	return l
}

func (w *World) onBudget() {
	t := w.sim.Cur()
	if t == nil {
		return
	}
	if c := w.clientOf(t); c != nil {
		if o := c.cur[t]; o != nil && w.sim.Steps-o.invStep > w.cfg.sched.MaxSteps/2 {
			w.violate("C12", "endless-loop", "%s does not terminate (%d steps without returning)", o.text(), w.sim.Steps-o.invStep)
		}
	} else if w.cfg.codec && t != w.ctl {
		w.violate("C21", "endless-loop", "writing or reading a record does not terminate")
	}
}

// apiPanic reports whether a panic was raised by the code under test rather than by the harness: the innermost frame
// that belongs to either decides.
func apiPanic(stack string) bool {
	seen := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen {
			continue
		}
		if strings.HasPrefix(l, "verifsim/harness.") || strings.HasPrefix(l, "verifsim/wire.") {
			return false
		}
		if strings.HasPrefix(l, "github.com/waj334/tinygo-mqtt/") {
			return true
		}
	}
	return false
}

const (
	taskHarness = "harness"
	taskStore   = "store"
)

var _ = wire.CONNECT
