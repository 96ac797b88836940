package simrt

import "unsafe"

// Channel operations with Go's semantics (FIFO direct hand-off, panics on closed channels), decided by the scheduler.
// The native channel is the identity and the buffer; blocked parties live in the registry.

type sel struct {
	t     *Task
	done  bool
	index int
	val   any
	ok    bool
	boom  bool // sender woken by close
}

type waiter struct {
	s     *sel
	index int
	val   any // value of a blocked sender
}

type chq struct {
	recv, send []*waiter
	closed     bool
	sv         SyncVar
}

func chanPtr[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func (s *Sim) q4(p unsafe.Pointer) *chq {
	q := s.chans[p]
	if q == nil {
		q = &chq{}
		s.chans[p] = q
	}
	return q
}

func pop(l *[]*waiter) *waiter {
	for len(*l) > 0 {
		w := (*l)[0]
		*l = (*l)[1:]
		if !w.s.done && !w.s.t.done {
			return w
		}
	}
	return nil
}

func remove(l []*waiter, s *sel) []*waiter {
	out := l[:0]
	for _, w := range l {
		if w.s != s {
			out = append(out, w)
		}
	}
	return out
}

// TrySendRaw attempts a non-blocking send (also usable from events).
func TrySendRaw[T any](ch chan<- T, v T) bool {
	if ch == nil {
		return false
	}
	if S != nil {
		if q := S.chans[chanPtr(ch)]; q != nil {
			if w := pop(&q.recv); w != nil {
				w.s.done, w.s.index, w.s.val, w.s.ok = true, w.index, any(v), true
				return true
			}
		}
	}
	select {
	case ch <- v: // panics when closed
		return true
	default:
		return false
	}
}

// TryRecvRaw attempts a non-blocking receive.
func TryRecvRaw[T any](ch <-chan T) (v T, ok, done bool) {
	if ch == nil {
		return v, false, false
	}
	select {
	case v, ok = <-ch:
		done = true
	default:
	}
	if S == nil {
		return
	}
	if done && !ok {
		return
	}
	q := S.chans[chanPtr(ch)]
	if q == nil {
		return
	}
	if done { // room in the buffer: admit the first blocked sender
		if w := pop(&q.send); w != nil {
			sv, _ := w.val.(T)
			c := *(*chan T)(unsafe.Pointer(&ch))
			c <- sv
			w.s.done, w.s.index = true, w.index
		}
		return
	}
	if w := pop(&q.send); w != nil {
		v, _ = w.val.(T)
		w.s.done, w.s.index = true, w.index
		return v, true, true
	}
	return
}

// Close closes the channel and wakes the blocked parties.
func Close[T any](ch chan<- T) {
	Yield()
	CloseRaw(ch)
}

func CloseRaw[T any](ch chan<- T) {
	if S != nil && S.cur != nil && S.cur.dying {
		return
	}
	if S != nil && ch != nil {
		S.q4(chanPtr(ch)).sv.Release()
	}
	close(ch)
	if S == nil {
		return
	}
	S.q4(chanPtr(ch)).closed = true
	if q := S.chans[chanPtr(ch)]; q != nil {
		for w := pop(&q.recv); w != nil; w = pop(&q.recv) {
			w.s.done, w.s.index, w.s.val, w.s.ok = true, w.index, nil, false
		}
		for w := pop(&q.send); w != nil; w = pop(&q.send) {
			w.s.done, w.s.index, w.s.boom = true, w.index, true
		}
	}
}

type Case struct {
	ptr    unsafe.Pointer
	isSend bool
	val    any
	try    func() (any, bool, bool)
}

func RecvCase[T any](ch <-chan T) Case {
	return Case{ptr: chanPtr(ch), try: func() (any, bool, bool) {
		v, ok, done := TryRecvRaw(ch)
		return v, ok, done
	}}
}

// SendCase takes the value separately so that its type is the channel's element type.
func SendCase[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		return Case{ptr: chanPtr(ch), isSend: true, val: v, try: func() (any, bool, bool) {
			return nil, false, TrySendRaw(ch, v)
		}}
	}
}

// Val converts the value received by Select; ch only carries the type.
func Val[T any](_ <-chan T, v any) T {
	x, _ := v.(T)
	return x
}

// Select performs a select statement. It returns -1 for default.
func Select(hasDefault bool, cases ...Case) (int, any, bool) {
	s := S
	if s == nil || s.cur == nil || s.cur.dying {
		if s != nil && s.cur != nil { // dying: unwind
			panic(killed{})
		}
		for i, c := range cases {
			if v, ok, done := c.try(); done {
				return i, v, ok
			}
		}
		if hasDefault {
			return -1, nil, false
		}
		panic("simrt: blocking select outside a task")
	}
	Yield()
	if !hasDefault {
		HesitateSelect()
	}
	order := make([]int, len(cases))
	for i := range order {
		order[i] = i
	}
	// A select with several ready cases picks any of them.
	if len(cases) > 1 && !s.Quiet {
		for i := 0; i < len(order)-1; i++ {
			j := i + s.Sched.Intn(len(order)-i)
			order[i], order[j] = order[j], order[i]
		}
	}
	for _, i := range order {
		if v, ok, done := cases[i].try(); done {
			s.q4(cases[i].ptr).sv.AcqRel()
			Yield()
			return i, v, ok
		}
	}
	if hasDefault {
		return -1, nil, false
	}
	for _, c := range cases {
		if c.ptr != nil {
			s.q4(c.ptr).sv.Release()
		}
	}
	sl := &sel{t: s.cur}
	for i, c := range cases {
		if c.ptr == nil {
			continue
		}
		q := s.q4(c.ptr)
		w := &waiter{s: sl, index: i, val: c.val}
		if c.isSend {
			q.send = append(q.send, w)
		} else {
			q.recv = append(q.recv, w)
		}
	}
	why := "select"
	if len(cases) == 1 {
		why = "chan receive"
		if cases[0].isSend {
			why = "chan send"
		}
	}
	defer func() {
		for _, c := range cases {
			if c.ptr == nil {
				continue
			}
			q := s.q4(c.ptr)
			q.recv = remove(q.recv, sl)
			q.send = remove(q.send, sl)
		}
	}()
	Block(why, func() bool { return sl.done })
	if s.cur != nil && s.cur.dying {
		panic(killed{})
	}
	if sl.boom {
		panic("send on closed channel")
	}
	if p := cases[sl.index].ptr; p != nil {
		s.q4(p).sv.AcqRel()
	}
	Yield()
	return sl.index, sl.val, sl.ok
}

func Send[T any](ch chan<- T) func(T) { return func(v T) { Select(false, SendCase(ch)(v)) } }
func Recv[T any](ch <-chan T) T {
	_, v, _ := Select(false, RecvCase(ch))
	return Val(ch, v)
}
func Recv2[T any](ch <-chan T) (T, bool) {
	_, v, ok := Select(false, RecvCase(ch))
	return Val(ch, v), ok
}

// Await blocks until something can be received from the buffered channel. Nothing is received.
func Await[T any](ch <-chan T) {
	q := S.q4(chanPtr(ch))
	Block("chan receive", func() bool { return len(ch) > 0 || q.closed })
}

// BlockForever is select{}.
func BlockForever() { Block("select{}", func() bool { return false }); panic(killed{}) }
