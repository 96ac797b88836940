package harness

import (
	"fmt"
	"sort"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt"

	"verifsim/simrt"
	"verifsim/wire"
)

// The event channels of a client are judged against a small reference model: which channels exist, which are general
// (they receive every event), which are bound to topic filters (they receive the matching PUBLISH packets only), and
// which are closed. Each API call changes the model at some instant between its invocation (for Subscribe and
// Unsubscribe: the arrival of the acknowledgement) and its return; overlapping calls may take effect in any order. The
// set of model states that are possible at each instant is followed through the run, and what each channel received for
// each packet must be what at least one of the possible states prescribes.

type chState struct {
	gen    []bool
	closed []bool
	exists []bool
	owner  []int // filter -> channel, -1 none
	pos    []int // progress of each call
}

func (s *chState) key() string {
	var sb strings.Builder
	for i := range s.gen {
		b := byte('0')
		if s.gen[i] {
			b |= 1
		}
		if s.closed[i] {
			b |= 2
		}
		if s.exists[i] {
			b |= 4
		}
		sb.WriteByte(b)
	}
	for _, o := range s.owner {
		sb.WriteByte(byte(o + 1))
		sb.WriteByte(byte((o + 1) >> 8))
	}
	for _, p := range s.pos {
		sb.WriteByte(byte(p))
		sb.WriteByte(byte(p >> 8))
	}
	return sb.String()
}

func (s *chState) clone() *chState {
	return &chState{append([]bool(nil), s.gen...), append([]bool(nil), s.closed...), append([]bool(nil), s.exists...),
		append([]int(nil), s.owner...), append([]int(nil), s.pos...)}
}

type chTrans struct {
	kind int // 0 create, 1 bind, 2 unbind, 3 close
	ch   int
	f    int
}

type chCall struct {
	op       *Op
	lo, hi   uint64
	optional bool
	ts       []chTrans
}

type chModel struct {
	cl      *Client
	filters map[string]int
	names   []string
	calls   []*chCall
	front   map[string]*chState
	overrun bool
}

func (m *chModel) filter(f string) int {
	if i, ok := m.filters[f]; ok {
		return i
	}
	i := len(m.names)
	m.filters[f] = i
	m.names = append(m.names, f)
	return i
}

func (m *chModel) apply(s *chState, t chTrans) {
	switch t.kind {
	case 0:
		s.gen[t.ch], s.exists[t.ch] = true, true
	case 1:
		if s.closed[t.ch] {
			return
		}
		s.gen[t.ch] = false
		s.owner[t.f] = t.ch
	case 2:
		c := s.owner[t.f]
		if c < 0 {
			return
		}
		s.owner[t.f] = -1
		for _, o := range s.owner {
			if o == c {
				return
			}
		}
		s.closed[c], s.gen[c] = true, false
	case 3:
		s.closed[t.ch], s.gen[t.ch] = true, false
		for f, o := range s.owner {
			if o == t.ch {
				s.owner[f] = -1
			}
		}
	}
}

const maxFront = 3000

// close adds every state reachable by pending calls.
func (m *chModel) close(active map[int]bool) {
	var idx []int
	for i := range active {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	var todo []*chState
	for _, s := range m.front {
		todo = append(todo, s)
	}
	for len(todo) > 0 && !m.overrun {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, i := range idx {
			c := m.calls[i]
			if s.pos[i] >= len(c.ts) {
				continue
			}
			n := s.clone()
			m.apply(n, c.ts[n.pos[i]])
			n.pos[i]++
			k := n.key()
			if _, ok := m.front[k]; !ok {
				m.front[k] = n
				todo = append(todo, n)
				if len(m.front) > maxFront {
					m.overrun = true
					return
				}
			}
		}
	}
}

// expect is what one state prescribes for an event: how many copies of it the channel may receive.
func (m *chModel) expect(s *chState, ch int, p *wire.Packet) (lo, hi int) {
	if !s.exists[ch] || s.closed[ch] {
		return 0, 0
	}
	if s.gen[ch] {
		return 1, 1
	}
	if p.Type != wire.PUBLISH {
		return 0, 0
	}
	for f, o := range s.owner {
		if o == ch && matches(p.Topic, m.names[f]) {
			hi++
		}
	}
	if hi > 0 {
		lo = 1
	}
	return lo, hi
}

type chWindow struct {
	ip     *InPkt
	a, b   uint64
	states map[string]*chState
}

func (w *World) checkChannels(cl *Client) {
	m := &chModel{cl: cl, filters: map[string]int{}}
	const inf = ^uint64(0)
	hiOf := func(o *Op) uint64 {
		if o.Ret == 0 {
			return inf
		}
		return o.Ret
	}
	bound := map[int]bool{}
	for _, o := range w.ops {
		if o.Cl != cl {
			continue
		}
		c := &chCall{op: o, lo: o.Inv, hi: hiOf(o), optional: o.Ret == 0}
		switch o.Kind {
		case "CreateEventChannel":
			if o.ch.n < 0 {
				continue // never handed to the application
			}
			c.ts = []chTrans{{0, o.ch.n, 0}}
		case "CloseEventChannel":
			c.ts = []chTrans{{3, o.ch.n, 0}}
		case "Subscribe", "Unsubscribe":
			for _, f := range o.topics {
				m.filter(f)
			}
			for _, s := range o.subs {
				m.filter(s.filter)
			}
			if o.ack == nil || o.Ret != 0 && o.ack.ReadSeq > o.Ret {
				continue
			}
			var rc mqtt.ReasonCode
			if o.Err != nil && !asRC(o.Err, &rc) {
				c.optional = true
			}
			c.lo = o.ack.ReadSeq
			for i, code := range o.ack.P.Reasons {
				if code >= 0x80 {
					continue
				}
				if o.Kind == "Subscribe" {
					if i < len(o.subs) && o.subs[i].ch != nil {
						bound[o.subs[i].ch.n] = true
						c.ts = append(c.ts, chTrans{1, o.subs[i].ch.n, m.filter(o.subs[i].filter)})
					}
				} else if i < len(o.topics) {
					c.ts = append(c.ts, chTrans{2, 0, m.filter(o.topics[i])})
				}
			}
		default:
			continue
		}
		if len(c.ts) > 0 {
			m.calls = append(m.calls, c)
		}
	}
	prop := func(ch *Chan) []string {
		if bound[ch.n] {
			return []string{"C04"}
		}
		return []string{"C18"}
	}
	raise := func(ch *Chan, class, f string, a ...any) {
		for _, p := range prop(ch) {
			w.violate(p, class, f, a...)
		}
	}
	// windows in which events were signalled
	var wins []*chWindow
	win := map[*InPkt]*chWindow{}
	for _, ip := range cl.conn.in {
		if ip.ReadSeq == 0 || ip.P == nil || ip.P.Type == wire.PINGRESP {
			continue
		}
		b := inf
		if ip.poll != nil && ip.poll.Ret != 0 {
			b = ip.poll.Ret
		}
		x := &chWindow{ip: ip, a: ip.ReadSeq, b: b, states: map[string]*chState{}}
		wins = append(wins, x)
		win[ip] = x
	}
	type point struct {
		at   uint64
		kind int // 0 call begins, 1 window opens, 2 window closes, 3 call ends
		i    int
	}
	var pts []point
	for i, c := range m.calls {
		pts = append(pts, point{c.lo, 0, i})
		if c.hi != inf {
			pts = append(pts, point{c.hi, 3, i})
		}
	}
	for i, x := range wins {
		pts = append(pts, point{x.a, 1, i})
		if x.b != inf {
			pts = append(pts, point{x.b, 2, i})
		}
	}
	sort.SliceStable(pts, func(i, j int) bool {
		if pts[i].at != pts[j].at {
			return pts[i].at < pts[j].at
		}
		return pts[i].kind < pts[j].kind
	})
	nch := len(cl.chans)
	s0 := &chState{make([]bool, nch), make([]bool, nch), make([]bool, nch), make([]int, len(m.names)), make([]int, len(m.calls))}
	for i := range s0.owner {
		s0.owner[i] = -1
	}
	m.front = map[string]*chState{s0.key(): s0}
	active := map[int]bool{}
	open := map[int]bool{}
	snapshot := func() {
		for i := range open {
			for k, s := range m.front {
				wins[i].states[k] = s
			}
		}
	}
	for _, p := range pts {
		switch p.kind {
		case 0:
			active[p.i] = true
			m.close(active)
			snapshot()
		case 1:
			open[p.i] = true
			snapshot()
		case 2:
			delete(open, p.i)
		case 3:
			c := m.calls[p.i]
			delete(active, p.i)
			if c.optional {
				break
			}
			for k, s := range m.front {
				if s.pos[p.i] < len(c.ts) {
					delete(m.front, k)
				}
			}
		}
		if m.overrun {
			w.Stats.Probe("channel-model-too-large")
			return
		}
	}
	w.Stats.Probe("channel-model-checked")
	bounds := func(x *chWindow, ch int) (lo, hi int, all map[int]bool) {
		lo = 1 << 20
		all = map[int]bool{}
		for _, s := range x.states {
			l, h := m.expect(s, ch, x.ip.P)
			if l < lo {
				lo = l
			}
			if h > hi {
				hi = h
			}
			for k := l; k <= h; k++ {
				all[k] = true
			}
		}
		return
	}
	describe := func(ch *Chan, lo, hi int) string {
		var fs []string
		for _, o := range w.ops {
			if o.Cl == cl && o.Kind == "Subscribe" && o.ack != nil {
				for i, s := range o.subs {
					if s.ch == ch && i < len(o.ack.P.Reasons) && o.ack.P.Reasons[i] < 0x80 {
						fs = append(fs, s.filter)
					}
				}
			}
		}
		return fmt.Sprintf("channel %d (bound to %q) may receive %d to %d copies", ch.n, fs, lo, hi)
	}
	for _, ch := range cl.chans {
		if ch.isMon {
			continue
		}
		switch ch.mode {
		case 0:
			cnt := map[*InPkt]int{}
			for _, e := range ch.got {
				if e.exp != nil {
					cnt[e.exp]++
				}
			}
			for _, x := range wins {
				ip := x.ip
				n := cnt[ip]
				settled := ip.poll != nil && !ip.poll.live() && ip.poll.Err == nil && !ip.over
				if ip.P.Type == wire.PUBLISH && ip.P.QoS == 2 && settled && ip.ev == nil && (ip.again || ip.dupOf != nil) {
					if n > 0 {
						w.violate("C06", "delivered-twice", "a retransmission of QoS 2 message %s was delivered on channel %d", ip.text(), ch.n)
						w.violate("C04", "duplicate-routed", "a retransmission of QoS 2 message %s was delivered on channel %d", ip.text(), ch.n)
					}
					continue
				}
				lo, hi, all := bounds(x, ch.n)
				switch {
				case all[n]:
				case n > hi:
					raise(ch, "extra", "%s: %d copies delivered; %s", ip.text(), n, describe(ch, lo, hi))
				case settled:
					raise(ch, "missing", "%s: %d copies delivered; %s", ip.text(), n, describe(ch, lo, hi))
				}
			}
		default:
			// a bounded channel that is not always drained: order, no strangers, and it may only miss what did not fit
			// (at: how many of the received events the packets so far may account for)
			at, certain := map[int]bool{0: true}, ch.drainedEnd && ch.mode == 1
			bad := false
			for _, x := range wins {
				ip := x.ip
				lo, hi, _ := bounds(x, ch.n)
				settled := ip.poll != nil && !ip.poll.live() && ip.poll.Err == nil && !ip.over
				if !settled || ip.ev == nil {
					lo = 0
				}
				next := map[int]bool{}
				for k := range at {
					need := 0
					if certain {
						need = lo
						if ch.cap-k < need {
							need = ch.cap - k
						}
					}
					for g := 0; g <= hi; g++ {
						if g > 0 && (k+g > len(ch.got) || ch.got[k+g-1].P == nil || same(ch.got[k+g-1].P, ip.P, false) != "") {
							break
						}
						if g >= need {
							next[k+g] = true
						}
					}
				}
				if len(next) == 0 {
					raise(ch, "missing", "%s was not delivered although the channel had room (capacity %d, %d events); %s", ip.text(), ch.cap, len(ch.got), describe(ch, lo, hi))
					bad = true
					break
				}
				at = next
			}
			if bad {
				continue
			}
			most := 0
			for k := range at {
				if k > most {
					most = k
				}
			}
			for _, e := range ch.got[most:] {
				if e.P == nil || e.P.Type == wire.DISCONNECT {
					continue
				}
				raise(ch, "unexpected", "channel %d received %s out of order or although no state of its bindings allows it", ch.n, e.text())
				break
			}
		}
	}
	// final state of the channels
	for _, ch := range cl.chans {
		if !ch.drainedEnd {
			continue
		}
		allClosed, allOpen := true, true
		for _, s := range m.front {
			allClosed = allClosed && s.closed[ch.n]
			allOpen = allOpen && !s.closed[ch.n]
		}
		props := prop(ch)
		if props[0] == "C04" {
			props = append(props, "C18")
		}
		for _, p := range props {
			switch {
			case allClosed && !ch.eof:
				w.violate(p, "not-closed", "channel %d was not closed", ch.n)
			case allClosed && !ch.doneSeen:
				w.violate(p, "done-missing", "channel %d was closed but its Done channel gave no signal", ch.n)
			case allOpen && ch.eof:
				w.violate(p, "closed", "channel %d was closed although nothing asked for it", ch.n)
			case allOpen && ch.doneSeen:
				w.violate(p, "done-early", "the Done channel of channel %d fired although nothing closed it", ch.n)
			}
		}
	}
}

// finalDrain reads what is left on the channels of the client.
func (cl *Client) finalDrain() {
	var first []*mqtt.Event
	if len(cl.crowd) > 0 && len(cl.liveOps()) == 0 {
		var e *mqtt.Event
		if len(cl.mon.got) > 0 {
			e = cl.mon.got[0].Ev
		}
		first = append(first, e)
	}
	for i, ev := range cl.crowd {
		v, ok, done := simrt.TryRecvRaw(ev.C)
		if _, _, ended := simrt.TryRecvRaw(ev.Done); done && !ok || ended {
			cl.w.violate("C18", "closed", "one of %d event channels (%d) was closed although nothing asked for it", len(cl.crowd), i)
		}
		if len(first) > 0 {
			first = append(first, v)
		}
	}
	for i, e := range first {
		if (e == nil) != (first[i/2] == nil) || e != nil && e.PacketType != first[i/2].PacketType {
			cl.w.violate("C18", "missing", "of %d event channels that exist side by side and are bound to no filter, %d and %d did not receive the same first event", len(first), i, i/2)
			break
		}
	}
	for _, ch := range cl.chans {
		for !ch.eof {
			v, ok, done := simrt.TryRecvRaw(ch.ev.C)
			if !done {
				break
			}
			if !ok {
				ch.eof = true
				break
			}
			ch.add(v)
		}
		if _, _, done := simrt.TryRecvRaw(ch.ev.Done); done {
			ch.doneSeen = true
		}
		ch.drainedEnd = true
	}
}
