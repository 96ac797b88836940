package harness

import (
	"errors"
	"fmt"
	"sort"

	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

	"verifsim/simrt"
)

// Concurrent use of the memory storage, judged against a map: the recorded history must be linearizable.

type linOp struct {
	task     int
	kind     int // 0 Store, 1 Get, 2 Drop
	key      uint16
	val      int // Store: value written; Get: value read (-1 none)
	ok       bool
	err      error
	inv, ret uint64
}

func (o *linOp) text() string {
	n := []string{"Store", "Get", "Drop"}[o.kind]
	return fmt.Sprintf("task%d %s(%d) val=%d -> %s [%d,%d]", o.task, n, o.key, o.val, errText(o.err), o.inv, o.ret)
}

func (w *World) linearMain() {
	st := memory.NewStorage()
	w.linStore = st
	keys := 1 + w.W.Intn(4)
	pre := w.W.Intn(5)
	base := uint16(w.W.Intn(65536))
	table := [][]uint16{{1, 65535, 0, 256}, {base, base ^ 0x100, base ^ 0x8000, base ^ 1}, {7, 263, 519, 65287}, {1, 2, 3, 4}}[w.W.Intn(4)]
	// entries that nobody touches
	crowd := []int{0, 0, 1, 3, 40, 300, 1100}[w.W.Intn(7)]
	if crowd > 3 && !w.W.Chance(1, 20) {
		crowd = 2
	}
	other := func(i int) uint16 {
		id := 20011 + uint16(i)*257
		for _, k := range table {
			if k == id {
				return 19
			}
		}
		return id
	}
	vals := 0
	do := func(task, kind int, key uint16) {
		o := &linOp{task: task, kind: kind, key: key, val: -1}
		if kind == 0 {
			vals++
			o.val = vals
		}
		w.linOps = append(w.linOps, o)
		w.Stats.Ops[[]string{"Store", "Get", "Drop"}[kind]]++
		o.inv = w.sim.NextSeq()
		switch kind {
		case 0:
			o.err = st.Store(key, o.val)
		case 1:
			var v any
			v, o.err = st.Get(key)
			if o.err == nil {
				n, ok := v.(int)
				if !ok {
					n = -2
				}
				o.val = n
			} else if v != nil {
				w.violate("C19", "value-with-error", "%s returned a value together with an error", o.text())
			}
		case 2:
			o.err = st.Drop(key)
		}
		o.ret = w.sim.NextSeq()
		o.ok = o.err == nil
		want := []error{storage.ErrDuplicateEntry, storage.ErrNoEntry, storage.ErrNoEntry}[kind]
		if o.err != nil && !errors.Is(o.err, want) {
			w.violate("C19", "wrong-error", "%s: unexpected error", o.text())
		}
		w.log("%s", o.text())
	}
	// the store is shared by every task; identifiers at the ends of the range are included
	key := func(i int) uint16 { return table[i%4] }
	first := w.W.Intn(pre + 1)
	for i := 0; i < first; i++ {
		do(0, 0, key(i))
	}
	if crowd > 3 {
		w.Stats.Probe("large-storage")
	}
	for i := 0; i < crowd; i++ {
		do(0, 0, other(i))
	}
	for i := first; i < pre; i++ {
		do(0, 0, key(i))
	}
	var ts []*simrt.Task
	for i := 0; i < w.cfg.workers; i++ {
		var plan [][2]int
		for j := 0; j < w.cfg.opsPer; j++ {
			plan = append(plan, [2]int{w.W.Pick(3, 2, 3), w.W.Intn(keys)})
		}
		t := w.sim.Spawn(fmt.Sprintf("s%d", i), false, func() {
			for _, p := range plan {
				do(i+1, p[0], key(p[1]))
				simrt.Yield()
			}
		})
		t.Data = taskStore
		ts = append(ts, t)
	}
	w.sim.Cfg.AdvanceNum = 0
	if !w.await("storage users", 10*sec, func() bool { return allDone(ts) }) && !w.sim.Stopped() {
		for _, t := range ts {
			if !t.Done() {
				w.violate("C19", "stuck", "a storage call never returns (blocked on %s)", t.BlockedOn())
			}
		}
		return
	}
	for _, t := range ts {
		simrt.Join(t)
	}
	// what is left
	for i := 0; i < crowd; i++ {
		do(0, 1, other(i))
		if crowd > 3 && i%3 == 0 {
			do(0, 2, other(i))
		}
	}
	for i := 0; i < 4; i++ {
		do(0, 1, key(i))
	}
}

func (w *World) linearCheck() {
	by := map[uint16][]*linOp{}
	var keys []int
	for _, o := range w.linOps {
		if o.ret == 0 {
			continue
		}
		if by[o.key] == nil {
			keys = append(keys, int(o.key))
		}
		by[o.key] = append(by[o.key], o)
	}
	sort.Ints(keys)
	for _, k := range keys {
		ops := by[uint16(k)]
		if len(ops) > 60 {
			w.Stats.Probe("history-too-long")
			continue
		}
		if !linearizable(ops) {
			s := ""
			for _, o := range ops {
				s += "\n  " + o.text()
			}
			w.violate("C19", "not-linearizable", "no order of the operations on identifier %d explains their results:%s", k, s)
		}
		w.Stats.Probe("history-checked")
	}
}

// linearizable searches for a legal order (Wing and Gong, with memoised states).
func linearizable(ops []*linOp) bool {
	type st struct {
		done uint64
		cur  int
	}
	seen := map[st]bool{}
	full := uint64(1)<<len(ops) - 1
	var rec func(done uint64, cur int) bool
	rec = func(done uint64, cur int) bool {
		if done == full {
			return true
		}
		k := st{done, cur}
		if seen[k] {
			return false
		}
		seen[k] = true
		first := ^uint64(0)
		for i, o := range ops {
			if done>>i&1 == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if done>>i&1 != 0 || o.inv > first {
				continue
			}
			next, legal := cur, false
			switch o.kind {
			case 0:
				legal = o.ok == (cur < 0)
				if o.ok {
					next = o.val
				}
			case 1:
				legal = o.ok && cur >= 0 && o.val == cur || !o.ok && cur < 0
			case 2:
				legal = o.ok == (cur >= 0)
				if o.ok {
					next = -1
				}
			}
			if legal && rec(done|1<<i, next) {
				return true
			}
		}
		return false
	}
	return rec(0, -1)
}
