// Package simrt is the deterministic simulator runtime: cooperative tasks (coroutines), a virtual clock, an event
// queue, and the schedule decisions. Exactly one task runs at a time; which one proceeds at each yield point, and
// when time advances, is drawn from the schedule stream.
package simrt

import (
	"container/heap"
	"fmt"
	"iter"
	"runtime/debug"
	"unsafe"
)

type killed struct{}

type Task struct {
	ID     int
	Name   string
	Daemon bool
	Data   any // harness data (current operation)

	next  func() (struct{}, bool)
	stop  func()
	yield func(struct{}) bool

	blocked bool
	ready   func() bool
	Why     string
	done    bool
	dying   bool
	prio    int

	vc VC

	Panic any
	Stack string
}

func (t *Task) Done() bool { return t.done }

// Blocked reports whether the task is currently blocked and on what.
func (t *Task) BlockedOn() string {
	if t.done {
		return ""
	}
	if t.blocked {
		return t.Why
	}
	return "runnable"
}

// Waiting reports whether the task is blocked and what it waits for has not happened.
func (t *Task) Waiting() bool { return !t.done && t.blocked && !t.ready() }

type event struct {
	at  int64
	seq uint64
	f   func()
}
type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(*event)) }
func (h *eventHeap) Pop() any {
	o := *h
	n := len(o)
	x := o[n-1]
	o[n-1] = nil
	*h = o[:n-1]
	return x
}

// Config of the scheduler for one run.
type Config struct {
	SwitchNum, SwitchDen int // probability of preempting at a yield point
	AdvanceNum           int // probability (of SwitchDen*8) to let time advance while tasks are runnable
	FreezeNum            int // probability (of 1000) that a preempted task is descheduled for a while
	Hesitate             int // probability (of 64) that a task is descheduled right before it waits for a lock
	HesitateSelect       int // probability (of 64) that a task is descheduled right before it waits for a channel
	HesitateUnlock       int // probability (of 64) that a task is descheduled right after it released a lock
	PCT                  bool
	MaxSteps             int
	Horizon              int64 // virtual ns
}

type RaceReport struct{ A, B, Key string }

type Sim struct {
	Cfg   Config
	Sched *Stream
	now   int64
	eseq  uint64
	q     eventHeap
	Tasks []*Task
	cur   *Task
	Steps int
	Seq   uint64 // global event sequence number (history stamps)

	Switches  int
	Freezes   int
	TraceHash uint64
	Trace     []string
	KeepTrace bool

	chans  map[unsafe.Pointer]*chq
	shadow map[unsafe.Pointer]*shadow
	atoms  map[unsafe.Pointer]*SyncVar

	OnRace   func(RaceReport)
	OnPanic  func(*Task)
	OnIdle   func() // nothing will ever run again; the tasks still exist
	OnBudget func()
	OnFatal  func(msg string)
	OnStep   func()
	stopped  bool
	StopWhy  string
	over     bool
	Quiet    bool // disable preemption (end phase)
	inEvent  bool
	runBuf   []*Task
}

// maxAdvance is the longest time that passes while a task could run.
const maxAdvance = 1_000_000_000

// S is the current simulation (one per process at a time).
var S *Sim

func New(cfg Config, sched *Stream) *Sim {
	s := &Sim{Cfg: cfg, Sched: sched, chans: map[unsafe.Pointer]*chq{}, shadow: map[unsafe.Pointer]*shadow{}, atoms: map[unsafe.Pointer]*SyncVar{}, TraceHash: 14695981039346656037}
	S = s
	return s
}

func (s *Sim) Now() int64      { return s.now }
func (s *Sim) Cur() *Task      { return s.cur }
func (s *Sim) NextSeq() uint64 { s.Seq++; return s.Seq }

// Stop ends the run after the current step.
func (s *Sim) Stop(why string) {
	if !s.stopped {
		s.stopped = true
		s.StopWhy = why
	}
}
func (s *Sim) Stopped() bool { return s.stopped }

// Log appends to the event log (hash always, text when kept). It never draws choices or reads clocks.
func (s *Sim) Log(format string, args ...any) {
	if s.KeepTrace {
		who := "-"
		if s.cur != nil {
			who = s.cur.Name
		}
		s.Trace = append(s.Trace, fmt.Sprintf("t=%.6fs #%d [%s] %s", float64(s.now)/1e9, s.Steps, who, fmt.Sprintf(format, args...)))
	}
	s.hash(format)
	for _, a := range args {
		switch v := a.(type) {
		case string:
			s.hash(v)
		case int:
			s.hashInt(uint64(v))
		case int64:
			s.hashInt(uint64(v))
		case uint64:
			s.hashInt(v)
		case uint16:
			s.hashInt(uint64(v))
		case bool:
			if v {
				s.hashInt(1)
			} else {
				s.hashInt(2)
			}
		}
	}
	s.hashInt(uint64(s.now))
}

func (s *Sim) hash(x string) {
	h := s.TraceHash
	for i := 0; i < len(x); i++ {
		h = (h ^ uint64(x[i])) * 1099511628211
	}
	s.TraceHash = h
}
func (s *Sim) hashInt(x uint64) { s.TraceHash = (s.TraceHash ^ x) * 1099511628211 }

// At schedules f at absolute virtual time at.
func (s *Sim) At(at int64, f func()) {
	if at < s.now {
		at = s.now
	}
	s.eseq++
	heap.Push(&s.q, &event{at, s.eseq, f})
}
func (s *Sim) After(d int64, f func()) { s.At(s.now+d, f) }

// Spawn creates a task.
func (s *Sim) Spawn(name string, daemon bool, f func()) *Task {
	t := &Task{ID: len(s.Tasks), Name: name, Daemon: daemon}
	if s.cur != nil { // the go statement happens before the start of the new task
		t.vc.join(s.cur.vc)
		s.cur.vc.tick(s.cur.ID)
	}
	t.vc.tick(t.ID)
	s.Tasks = append(s.Tasks, t)
	if s.Cfg.PCT {
		t.prio = 1000 + s.Sched.Intn(1000)
	}
	t.next, t.stop = iter.Pull(func(y func(struct{}) bool) {
		t.yield = y
		defer func() {
			t.done = true
			if r := recover(); r != nil {
				if _, ok := r.(killed); ok {
					return
				}
				if t.dying {
					return
				}
				t.Panic = r
				t.Stack = string(debug.Stack())
			}
		}()
		f()
	})
	return t
}

// park gives control to the scheduler.
func (t *Task) park() {
	if t.dying {
		return
	}
	if !t.yield(struct{}{}) {
		t.dying = true
		panic(killed{})
	}
}

func (s *Sim) isRunnable(t *Task) bool {
	if t.done {
		return false
	}
	if t.blocked {
		return t.ready()
	}
	return true
}

func (s *Sim) runnable() []*Task {
	s.runBuf = s.runBuf[:0]
	for _, t := range s.Tasks {
		if s.isRunnable(t) {
			s.runBuf = append(s.runBuf, t)
		}
	}
	return s.runBuf
}

func (s *Sim) countStep() {
	s.Steps++
	if s.OnStep != nil && !s.over {
		s.OnStep()
	}
	if s.Steps > s.Cfg.MaxSteps && !s.stopped {
		s.stopped = true
		s.StopWhy = "budget"
		if s.OnBudget != nil {
			s.OnBudget()
		}
	}
}

// Run drives the simulation until Stop, quiescence (nothing runnable and no event), the horizon or the step budget.
// It returns the reason: "stopped", "quiescent", "horizon", "budget".
func (s *Sim) Run() string {
	defer s.killAll()
	var last *Task
	for !s.stopped {
		rs := s.runnable()
		if len(rs) == 0 {
			end := ""
			if len(s.q) == 0 {
				end = "quiescent"
			} else if s.q[0].at > s.Cfg.Horizon {
				end = "horizon"
			}
			if end != "" {
				if s.OnIdle != nil {
					s.OnIdle()
				}
				return end
			}
			s.popEvent()
			continue
		}
		if !s.Quiet && len(s.q) > 0 && s.Cfg.AdvanceNum > 0 && s.q[0].at <= s.Cfg.Horizon && s.q[0].at <= s.now+maxAdvance &&
			s.Sched.Chance(s.Cfg.AdvanceNum, 1000) {
			// time passes although tasks are runnable (slow CPU, descheduled tasks)
			s.popEvent()
			continue
		}
		var t *Task
		if s.Cfg.PCT {
			best := 0
			for i, c := range rs {
				if c.prio > rs[best].prio {
					best = i
				}
			}
			// recorded as an index so that a replay does not depend on the strategy
			t = rs[s.pickIndex(best, len(rs), last, rs)]
		} else {
			t = rs[s.Sched.Intn(len(rs))]
		}
		if t != last {
			s.Switches++
			s.hashInt(uint64(t.ID) + 77)
			last = t
		}
		s.resume(t)
	}
	if s.StopWhy == "budget" {
		return "budget"
	}
	return "stopped"
}

func (s *Sim) pickIndex(best, n int, last *Task, rs []*Task) int {
	st := s.Sched
	if n <= 1 {
		return 0
	}
	var v uint32
	if st.isRep {
		v = st.fromReplay(uint32(n))
	} else {
		v = uint32(best)
	}
	st.Rec = append(st.Rec, v)
	return int(v)
}

func (s *Sim) popEvent() {
	e := heap.Pop(&s.q).(*event)
	if e.at > s.now {
		s.now = e.at
	}
	s.countStep()
	s.inEvent = true
	e.f()
	s.inEvent = false
}

func (s *Sim) resume(t *Task) {
	s.countStep()
	t.blocked = false
	t.ready = nil
	s.cur = t
	t.next()
	s.cur = nil
	if t.done && t.Panic != nil && s.OnPanic != nil {
		s.OnPanic(t)
	}
}

func (s *Sim) killAll() {
	s.over = true
	for i := 0; i < len(s.Tasks); i++ { // tasks may not spawn while dying
		t := s.Tasks[i]
		if !t.done {
			t.dying = false
			s.cur = t
			t.stop()
			t.done = true
		}
	}
	s.cur = nil
}

// Kill ends tasks where they stand (a crashed process), all at the same instant, and then runs after. Their deferred
// functions run without effect on the simulation. The calling task must not be among them.
func (s *Sim) Kill(ts []*Task, after func()) {
	prev := s.cur
	for _, t := range ts {
		if t.done || t == prev {
			continue
		}
		s.cur = t
		t.dying = false
		t.stop()
		t.done = true
	}
	s.cur = prev
	after()
}

// Yield is a preemption point.
func Yield() {
	s := S
	if s == nil || s.cur == nil || s.cur.dying {
		return
	}
	t := s.cur
	s.countStep()
	if s.stopped {
		t.park()
		return
	}
	if s.Quiet {
		return
	}
	if !s.Sched.Chance(s.Cfg.SwitchNum, s.Cfg.SwitchDen) {
		return
	}
	if s.Cfg.FreezeNum > 0 && s.Cfg.AdvanceNum > 0 && s.Sched.Chance(s.Cfg.FreezeNum, 1000) {
		s.freeze()
		return
	}
	if s.Cfg.PCT {
		t.prio = s.lowestPrio() - 1
	}
	t.park()
}

// freeze deschedules the current task while all others go on.
func (s *Sim) freeze() {
	s.Freezes++
	at := s.now + int64(1_000_000)<<s.Sched.Intn(11)
	s.At(at, func() {})
	Block("descheduled", func() bool { return s.now >= at })
}

// Hesitate is called where a task is about to wait for others: between the decision to wait and the wait itself.
func Hesitate() {
	if s := S; s != nil {
		s.hesitate(s.Cfg.Hesitate)
	}
}

// HesitateSelect is Hesitate for a task that is about to wait for a channel.
func HesitateSelect() {
	if s := S; s != nil {
		s.hesitate(s.Cfg.HesitateSelect)
	}
}

// HesitateUnlock is called where a task has released a lock: what it learnt under the lock may no longer hold.
func HesitateUnlock() {
	if s := S; s != nil {
		s.hesitate(s.Cfg.HesitateUnlock)
	}
}

func (s *Sim) hesitate(num int) {
	if s.cur == nil || s.cur.dying || s.stopped || s.Quiet || num == 0 || s.Cfg.AdvanceNum == 0 {
		return
	}
	if s.Sched.Chance(num, 64) {
		s.freeze()
	}
}

func (s *Sim) lowestPrio() int {
	m := 1 << 30
	for _, t := range s.Tasks {
		if !t.done && t.prio < m {
			m = t.prio
		}
	}
	return m
}

// Tick bounds loops that contain no yield point.
func Tick() {
	s := S
	if s == nil || s.cur == nil || s.cur.dying {
		return
	}
	s.countStep()
	if s.stopped {
		s.cur.park()
	}
}

// Block parks the current task until ready() holds.
func Block(why string, ready func() bool) {
	s := S
	if s == nil || s.cur == nil {
		if ready() {
			return
		}
		panic("simrt: blocking operation outside a task: " + why)
	}
	t := s.cur
	if t.dying {
		return
	}
	for {
		t.blocked = true
		t.ready = ready
		t.Why = why
		t.park()
		if t.dying || ready() {
			t.blocked = false
			return
		}
	}
}

// Sleep blocks the current task for d virtual nanoseconds.
func Sleep(d int64) {
	s := S
	if s == nil || s.cur == nil || s.cur.dying {
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	at := s.now + d
	s.At(at, func() {})
	Block("sleep", func() bool { return s.now >= at })
}

// Go starts f as a new task (the instrumented form of the go statement).
func Go(f func()) {
	s := S
	if s == nil || s.over {
		return
	}
	if s.cur != nil && s.cur.dying {
		return
	}
	name := "go"
	if s.cur != nil {
		name = s.cur.Name + ".go"
	}
	t := s.Spawn(fmt.Sprintf("%s%d", name, len(s.Tasks)), true, f)
	if s.cur != nil {
		t.Data = s.cur.Data
	}
	Yield()
}

// ---- shared-memory accesses -------------------------------------------------------------------------------------

// R announces a read of *p and returns p.
func R[T any](p *T, what string) *T { access(unsafe.Pointer(p), false, what); return p }

// W announces a write of *p and returns p.
func W[T any](p *T, what string) *T { access(unsafe.Pointer(p), true, what); return p }

// Y marks a synchronising access of *p (atomics): a preemption point, and an acquire-release edge.
func Y[T any](p *T) *T {
	Yield()
	if s := S; s != nil && s.cur != nil && !s.cur.dying {
		a := s.atoms[unsafe.Pointer(p)]
		if a == nil {
			a = &SyncVar{}
			s.atoms[unsafe.Pointer(p)] = a
		}
		a.AcqRel()
	}
	return p
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR announces a read of map m, MW a write.
func MR[M ~map[K]V, K comparable, V any](m M, what string) M {
	if m != nil {
		access(mapPtr[M, K, V](m), false, what)
	}
	return m
}
func MW[M ~map[K]V, K comparable, V any](m M, what string) M {
	if m != nil {
		access(mapPtr[M, K, V](m), true, what)
	}
	return m
}

// Append and Copy announce the accesses of the slice elements that the builtins read and write in place.
func Append[S ~[]E, E any](what string, s S, e ...E) S {
	if n := len(s) + len(e); len(e) > 0 && n <= cap(s) {
		for i := range e {
			access(unsafe.Pointer(&e[i]), false, what)
		}
		for i, t := len(s), s[:n]; i < n; i++ {
			access(unsafe.Pointer(&t[i]), true, what)
		}
	}
	return append(s, e...)
}

func Copy[S ~[]E, E any](what string, dst S, src []E) int {
	for i := 0; i < len(dst) && i < len(src); i++ {
		access(unsafe.Pointer(&src[i]), false, what)
		access(unsafe.Pointer(&dst[i]), true, what)
	}
	return copy(dst, src)
}

// Entry is one step of an instrumented range over a map.
type Entry[M ~map[K]V, K comparable, V any] struct {
	m M
	k K
}

// Live reports whether the entry is still in the map (Go skips entries deleted during the iteration).
func (e Entry[M, K, V]) Live() bool { _, ok := e.m[e.k]; return ok }
func (e Entry[M, K, V]) Key() K     { return e.k }
func (e Entry[M, K, V]) Val() V     { return e.m[e.k] }

// Range returns the entries of m in an order chosen by the schedule (Go leaves the order unspecified).
func Range[M ~map[K]V, K comparable, V any](m M, what string) []Entry[M, K, V] {
	if what != "" {
		m = MR[M, K, V](m, what)
	}
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	strs := make([]string, len(ks))
	for i, k := range ks {
		strs[i] = fmt.Sprint(k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && less(strs[j], strs[j-1]); j-- {
			strs[j], strs[j-1] = strs[j-1], strs[j]
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	if S != nil && S.cur != nil && len(ks) > 1 && !S.over {
		for i := 0; i < len(ks)-1; i++ {
			j := i + S.Sched.Intn(len(ks)-i)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	es := make([]Entry[M, K, V], len(ks))
	for i, k := range ks {
		es[i] = Entry[M, K, V]{m, k}
	}
	return es
}

func less(a, b string) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	return a < b
}

// Dying reports whether the current task is being torn down at the end of a run (deferred functions still execute and
// must not touch the simulation).
func Dying() bool { return S != nil && S.cur != nil && S.cur.dying }

// FatalError is what the Go runtime would abort the process with.
type FatalError struct{ Msg string }

func (f FatalError) Error() string { return "fatal error: " + f.Msg }

// Fatal records an unrecoverable runtime error: the process is gone, the run stops.
func Fatal(msg string) {
	s := S
	if s != nil && s.OnFatal != nil {
		s.OnFatal(msg)
		s.Stop("fatal: " + msg)
		if s.cur != nil {
			s.cur.park()
		}
	}
	panic(FatalError{msg})
}

// Late turns a timer delay into the delay after which the timer is observed to fire: never early, sometimes late.
func (s *Sim) Late(d int64) int64 {
	if d < 0 {
		d = 0
	}
	if s.Quiet {
		return d
	}
	if k := s.Sched.Pick(6, 1, 1); k > 0 {
		d += int64(k) * 40_000
	}
	return d
}

// Inherit binds f to the happens-before past of the current task (time.AfterFunc and the like).
func Inherit(f func()) func() {
	c := curTask()
	if c == nil {
		return f
	}
	var sv SyncVar
	sv.Release()
	return func() { sv.Acquire(); f() }
}
