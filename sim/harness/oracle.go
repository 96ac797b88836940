package harness

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"syscall"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"

	"verifsim/wire"
)

// oracle is the per-client state of the checks that run while the simulation proceeds.
type oracle struct {
	monAt    int // packets of the server stream aligned with monitor events so far
	replies  map[int][]*expReply
	in2      map[uint16]*InPkt // inbound QoS 2 exchanges that are open on this connection
	pings    []*InPkt
	discRead uint64 // the client read a DISCONNECT
	over     *InPkt // the PUBLISH beyond the receive maximum
	settled  uint64 // faults have stopped, everything had time to finish, the connection is still up
	drained  bool
	fatalSeq uint64 // a Poll reported that the connection is over
	errs     []error
	suspects []func() // judged at the end of the client: what looks wrong unless the connection was just being closed
}

type expReply struct {
	typ int
	id  uint16
	ip  *InPkt
	out *OutPkt
}

// strict reports whether the conversation of the client is one a conforming server has: only then the outcome of every
// call is determined.
func (cl *Client) strict() bool { return cl.w.cfg.conform && !cl.hostile }

// lostBefore reports whether the connection had (or could have) ended before seq.
func (cl *Client) lostBefore(seq uint64) bool { return cl.lostBut(seq, nil) }

// lostBut leaves out what the call itself did to the connection.
func (cl *Client) lostBut(seq uint64, o *Op) bool {
	c := cl.conn
	closed := c.closedSeq
	if o != nil && c.closer == o {
		closed = 0
	}
	fatal := cl.o.fatalSeq
	if o != nil && fatal == o.Ret {
		fatal = 0
	}
	for _, s := range []uint64{closed, c.brokenSeq, c.wErrSeq, cl.o.discRead, fatal} {
		if s != 0 && s <= seq {
			return true
		}
	}
	for _, d := range cl.discs {
		if d.Inv <= seq {
			return true
		}
	}
	return cl.o.over != nil && cl.o.over.ReadSeq <= seq
}

// ---- bytes the client reads -----------------------------------------------------------------------------------------

func (w *World) onRead(ip *InPkt) {
	cl := ip.Conn.cl
	op := cl.cur[w.sim.Cur()]
	if op == nil {
		op = cl.curPoll
	}
	ip.poll = op
	if op != nil {
		op.reads = append(op.reads, ip)
	}
	if ip.Raw {
		return
	}
	p, o := ip.P, &cl.o
	expect := func(typ int) {
		o.replies[typ] = append(o.replies[typ], &expReply{typ: typ, id: p.ID, ip: ip})
	}
	switch p.Type {
	case wire.PUBLISH:
		if p.QoS == 0 {
			break
		}
		max := w.cfg.cliRM
		if max == 0 {
			max = 65535
		}
		_, again := o.in2[p.ID]
		if (p.QoS == 1 || !again) && len(o.in2) >= max && o.over == nil {
			o.over = ip
			ip.over = true
			w.Stats.Probe("inbound-overflow-read")
			return
		}
		if p.QoS == 1 {
			expect(wire.PUBACK)
		} else {
			ip.again = again
			if again {
				w.Stats.Probe("inbound-qos2-duplicate-read")
			} else {
				o.in2[p.ID] = ip
			}
			expect(wire.PUBREC)
		}
	case wire.PUBACK, wire.PUBREC, wire.PUBCOMP:
		for _, out := range ip.Conn.outP {
			if out.P == nil || out.To == 0 || out.P.Type != wire.PUBLISH || out.P.ID != p.ID || out.acked || out.P.QoS == 0 {
				continue
			}
			ok := p.Type == wire.PUBACK && out.P.QoS == 1 || p.Type == wire.PUBREC && out.P.QoS == 2 && out.recSeq == 0 ||
				p.Type == wire.PUBCOMP && out.P.QoS == 2 && out.recSeq != 0
			if !ok {
				if w.cfg.dupAck+w.cfg.unkAck > 0 {
					cl.hostile = true // taken for the answer to another publish
				}
				continue
			}
			ip.forOut = out
			w.checkUnchanged(out.Op, "when it is acknowledged")
			if p.Type == wire.PUBREC && p.Reason < 0x80 {
				out.recSeq = ip.ReadSeq
			} else {
				out.acked, out.ackSeq, out.ackIP = true, ip.ReadSeq, ip
			}
			break
		}
		if p.Type == wire.PUBREC && p.Reason < 0x80 {
			expect(wire.PUBREL)
		}
	case wire.PUBREL:
		expect(wire.PUBCOMP)
	case wire.PINGRESP:
		o.pings = append(o.pings, ip)
	case wire.DISCONNECT:
		if o.discRead == 0 {
			o.discRead = ip.ReadSeq
		}
	case wire.SUBACK, wire.UNSUBACK:
		for _, out := range ip.Conn.outP {
			if out.P != nil && out.To != 0 && out.P.ID == p.ID && out.P.Type == p.Type-1 && !out.acked {
				out.acked, out.ackSeq = true, ip.ReadSeq
				if out.Op != nil {
					out.Op.ack = ip
				}
				break
			}
		}
	}
}

// ---- bytes the client writes ----------------------------------------------------------------------------------------

func (w *World) onOut(o *OutPkt) {
	c := o.Conn
	cl, p := c.cl, o.P
	n := 0
	for n < len(c.outP) && c.outP[n] != o {
		n++
	}
	// C01: the shape of the stream
	switch {
	case n == 0 && p.Type != wire.CONNECT:
		w.violate("C01", "first-packet", "conn%d: the first packet is %s, not CONNECT", c.id, p)
	case n > 0 && p.Type == wire.CONNECT:
		w.violate("C01", "second-connect", "conn%d: a second CONNECT was sent", c.id)
		w.violate("C14", "second-connect", "conn%d: a second CONNECT was sent", c.id)
	case n > 0 && c.outP[n-1].P.Type == wire.DISCONNECT:
		w.violate("C01", "after-disconnect", "conn%d: %s was sent after DISCONNECT", c.id, p)
		w.violate("C16", "after-disconnect", "conn%d: %s was sent after DISCONNECT", c.id, p)
	}
	if n > 0 && p.Type != wire.CONNECT {
		ci := cl.link.connackIn
		if (ci == nil || ci.ReadSeq == 0 || ci.ReadSeq > o.Seq0) && !cl.hostile {
			w.violate("C14", "before-connack", "conn%d: %s was sent before a CONNACK was received", c.id, p)
		}
	}
	for i := n - 1; i >= 0; i-- {
		if c.outP[i].Seq1 > o.Seq0 {
			w.violate("C01", "interleaved", "conn%d: the bytes of %s and %s are interleaved", c.id, p, c.outP[i].P)
		}
		break
	}
	switch p.Type {
	case wire.PUBACK, wire.PUBREC, wire.PUBREL, wire.PUBCOMP:
		w.onReply(o)
		return
	case wire.AUTH:
		w.violate("C02", "unsolicited", "conn%d: %s was sent although no call asked for it", c.id, p)
		return
	}
	op := w.attribute(o)
	if op != nil {
		o.Op = op
		op.pkts = append(op.pkts, o)
		if op.badArg != "" {
			w.violate("C02", "bad-argument-sent", "%s: sent although its arguments cannot be encoded (%s)", op.text(), op.badArg)
		} else if d := same(p, op.want, op.auto); d != "" {
			w.violate("C02", "content", "%s: the packet on the wire differs from the call: %s", op.text(), d)
		}
		if !(op.Inv <= o.Seq0) {
			w.violate("C02", "content", "%s: packet sent before the call", op.text())
		}
	}
	switch p.Type {
	case wire.PUBLISH:
		if p.QoS > 0 {
			w.checkID(o)
			w.checkQuota(o)
			w.checkStored(o)
		}
	case wire.SUBSCRIBE, wire.UNSUBSCRIBE:
		w.checkID(o)
	}
}

// attribute finds the call a packet belongs to.
func (w *World) attribute(o *OutPkt) *Op {
	cl, p, c := o.Conn.cl, o.P, o.Conn
	var cands []*Op
	kind := map[int]string{wire.CONNECT: "Connect", wire.SUBSCRIBE: "Subscribe", wire.UNSUBSCRIBE: "Unsubscribe", wire.PINGREQ: "KeepAlive",
		wire.DISCONNECT: "Disconnect", wire.PUBLISH: "Publish"}[p.Type]
	if p.Type == wire.PUBLISH {
		k := -1
		fmt.Sscanf(p.Topic, "t/%d", &k)
		for _, op := range w.ops {
			if op.Kind == "Publish" && op.Cl == cl && op.live() && len(op.pkts) == 0 && (op.N == k && op.redo == nil || op.redo != nil && op.redo.N == k) {
				cands = append(cands, op)
			}
		}
		if len(cands) == 0 && k >= 0 && k < len(w.ops) && w.ops[k].Kind == "Publish" {
			prev := w.ops[k]
			if prev.Cl != cl && p.Dup && len(prev.pkts) > 0 && prev.pkts[0].P.ID == p.ID {
				// the client redelivers by itself
				w.Stats.Probe("automatic-redelivery")
				o.auto = prev
				if d := same(p, prev.want, true); d != "" && d != "DUP: true, want false" {
					w.violate("C20", "content", "redelivery of %s differs: %s", prev.text(), d)
				}
				return nil
			}
			w.violate("C02", "unsolicited", "conn%d: %s was sent again although no call asked for it (%s, returned=%v)", c.id, p, prev.text(), !prev.live())
			return nil
		}
	} else {
		// exact content first, same task first
		for pass := 0; pass < 4 && len(cands) == 0; pass++ {
			for _, t := range append([]*Op{}, w.ops...) {
				if t.Kind == kind && t.Cl == cl && t.live() && len(t.pkts) == 0 && (pass >= 2 || t.want != nil && same(p, t.want, true) == "") && (pass%2 == 1 || t.Task == o.Task) {
					cands = append(cands, t)
				}
			}
		}
	}
	if len(cands) == 0 {
		if p.Type == wire.DISCONNECT && p.Reason >= 0x80 {
			if p.Reason == 0x93 && cl.o.over == nil && cl.strict() {
				w.violate("C08", "false-overflow", "conn%d: %s was sent although the receive maximum %d was not exceeded", c.id, p, w.cfg.cliRM)
			}
			if cl.o.over == nil && cl.strict() && !cl.lostBefore(o.Seq0) {
				w.violate("C02", "unsolicited", "conn%d: %s was sent on a conforming conversation", c.id, p)
			}
			return nil
		}
		w.violate("C02", "unsolicited", "conn%d: %s was sent although no call in progress asked for it", c.id, p)
		return nil
	}
	return cands[0]
}

// onReply judges PUBACK, PUBREC, PUBREL and PUBCOMP.
func (w *World) onReply(o *OutPkt) {
	c := o.Conn
	cl, p := c.cl, o.P
	st := &cl.o
	q := st.replies[p.Type]
	hit := -1
	for i, e := range q {
		if e.out != nil {
			continue
		}
		if e.id == p.ID {
			hit = i
			break
		}
		if op := e.ip.poll; op != nil && op.Kind == "Poll" && (op.live() || op.Err == nil) {
			break // the replies of a kind are sent in the order of the packets they answer
		}
	}
	if hit >= 0 {
		q[hit].out = o
		o.Reply = true
		switch p.Type {
		case wire.PUBCOMP:
			delete(st.in2, p.ID)
		}
		if !cl.strict() {
			return
		}
		limit := byte(0x80)
		if p.Type == wire.PUBREL || p.Type == wire.PUBCOMP {
			limit = 1
			if p.Reason == 0x92 {
				limit = 0xff
				known := q[hit].ip.forOut != nil
				if p.Type == wire.PUBCOMP {
					known = false
					for _, x := range c.in {
						known = known || x.ReadSeq != 0 && x.ReadSeq < q[hit].ip.ReadSeq && x.P != nil && x.P.Type == wire.PUBLISH && x.P.QoS == 2 && x.P.ID == p.ID
					}
				}
				if known {
					limit = 0
				}
			}
		}
		if p.Reason >= limit {
			w.violate("C05", "reason", "conn%d: %s answers %s with an unexpected reason code", c.id, p, q[hit].ip.text())
		}
		return
	}
	if !cl.strict() {
		return
	}
	if p.Type == wire.PUBREL && cl.idx > 0 {
		if k := kindOf(o.stored[p.ID]); k == "pubrel" || k == "pubrec" {
			w.Stats.Probe("automatic-redelivery")
			return
		}
	}
	var want []string
	for _, e := range q {
		if e.out == nil {
			want = append(want, fmt.Sprint(e.id))
		}
	}
	w.violate("C05", "unsolicited", "conn%d: %s answers nothing (identifiers awaiting one, in order: %s)", c.id, p, strings.Join(want, ","))
}

// checkID: packet identifiers of concurrent exchanges are distinct and not zero.
func (w *World) checkID(o *OutPkt) {
	cl, p := o.Conn.cl, o.P
	if p.ID == 0 {
		w.violate("C17", "zero", "%s carries packet identifier 0", p)
	}
	if !cl.strict() {
		return
	}
	if o.Op != nil && o.Op.redo != nil {
		return // sent again
	}
	for _, x := range o.Conn.outP {
		if x == o || x.To == 0 || x.P == nil || x.P.ID != p.ID || x.Seq0 > o.Seq0 {
			continue
		}
		switch x.P.Type {
		case wire.PUBLISH, wire.SUBSCRIBE, wire.UNSUBSCRIBE:
			if x.P.Type == wire.PUBLISH && x.P.QoS == 0 {
				continue
			}
			if x.ackSeq == 0 || x.ackSeq > o.Seq0 {
				w.violate("C17", "in-use", "%s reuses the identifier of %s, which is not acknowledged yet", p, x.P)
				return
			}
		}
	}
	if sp := storedPublish(o.stored[p.ID]); sp != nil && (p.Type != wire.PUBLISH || sp.Topic != p.Topic) {
		w.violate("C17", "stored", "%s uses the identifier of the stored, unacknowledged %s", p, sp)
	} else if kindOf(o.stored[p.ID]) == "pubrel" {
		w.violate("C17", "stored", "%s uses the identifier of a stored release", p)
	}
	if o.Op != nil && o.Op.clash != "" && (kindOf(o.stored[p.ID]) == "pubrel" || storedPublish(o.stored[p.ID]) != nil && storedPublish(o.stored[p.ID]).Topic != p.Topic) {
		w.violate("C20", "not-refused", "%s was sent with the identifier of another stored message", p)
	}
	if o.Op != nil && o.Op.pub != nil && uint16(o.Op.pub.PacketIdentifier) != p.ID {
		w.violate("C17", "not-reported", "%s was sent with identifier %d but the application's packet says %d", o.Op.text(), p.ID, o.Op.pub.PacketIdentifier)
	}
}

// checkQuota: never more unacknowledged QoS 1/2 PUBLISH packets than the server's receive maximum.
func (w *World) checkQuota(o *OutPkt) {
	cl := o.Conn.cl
	if !cl.strict() {
		return
	}
	max := w.cfg.srvRM
	if max == 0 {
		max = 65535
	}
	n := 0
	for _, x := range o.Conn.outP {
		if x == o {
			break
		}
		if x.P != nil && x.To != 0 && x.P.Type == wire.PUBLISH && x.P.QoS > 0 && (x.ackSeq == 0 || x.ackSeq > o.Seq0) {
			n++
		}
	}
	if n == max-1 {
		w.Stats.Probe("quota-exhausted")
	}
	if n >= max {
		w.violate("C07", "exceeded", "%s was sent while %d earlier PUBLISH packets were unacknowledged; the server's Receive Maximum is %d", o.P, n, max)
	}
}

// starved reports a Publish that waits for a slot although one is free. If a stored message was sent again on the
// connection, that one may have lost it.
func (cl *Client) starved(class, f string, a ...any) {
	cl.w.violate("C07", class, f, a...)
	for _, x := range cl.w.ops {
		if x.Cl == cl && x.redo != nil && x.Err == nil && len(x.pkts) > 0 && x.pkts[0].acked {
			cl.w.violate("C20", "slot-"+class, f, a...)
			return
		}
	}
}

// watchSlot: a Publish does not wait for a slot while one is free.
func (w *World) watchSlot(o *Op, n int) {
	const idle = 1500 * ms // longer than any task stays descheduled
	cl := o.Cl
	w.sim.After(idle, func() {
		if !o.live() || len(o.pkts) > 0 || !cl.strict() || cl.crashed || cl.conn.closed || n == 0 || w.sim.Stopped() {
			return
		}
		w.watchSlot(o, n-1)
		waits := func(x *Op) bool {
			if !x.Task.Waiting() {
				return false
			}
			switch x.Task.BlockedOn() {
			case "select", "chan receive", "chan send", "cond", "waitgroup":
				return true
			}
			return false
		}
		if !waits(o) {
			return
		}
		max, now := w.cfg.srvRM, w.sim.Now()
		if max == 0 {
			max = 65535
		}
		used := 0
		for _, x := range cl.conn.outP {
			if x.P == nil || x.P.Type == wire.PUBLISH && x.P.QoS > 0 && (!x.acked || x.ackIP == nil || x.ackIP.poll == nil || x.ackIP.poll.live() || x.ackIP.poll.RetT > now-idle) {
				used++
			}
		}
		for _, x := range w.ops {
			if x.Kind == "Publish" && x != o && x.Cl == cl && (x.badArg != "" || x.want != nil && x.want.QoS > 0) && len(x.pkts) == 0 && (x.live() && !waits(x) || !x.live() && x.RetT > now-idle) {
				used++
			}
		}
		if w.Stats.Probe("waits-for-slot"); used < max {
			cl.starved("starved", "%s waits although %d of the %d slots are free and nothing has happened for %s (blocked on %s)", o.text(), max-used, max, secs(idle), o.Task.BlockedOn())
		}
	})
}

// checkStored: a PUBLISH that needs an acknowledgement is in the storage before its first byte is written.
func (w *World) checkStored(o *OutPkt) {
	cl, p := o.Conn.cl, o.P
	if cl.store == nil || o.Op != nil && o.Op.storeF {
		return
	}
	sp := storedPublish(o.stored[p.ID])
	if sp == nil {
		k := kindOf(o.stored[p.ID])
		if k == "pubrec" && w.inboundID(p.ID) {
			return // an inbound exchange uses the same identifier
		}
		w.violate("C09", "not-stored", "%s was written to the connection while the storage held %q for its identifier", p, k)
		return
	}
	if d := same(sp, p, true); d != "" && !(o.Op == nil || o.Op.redo != nil) || d != "" && d != "DUP: false, want true" && d != "DUP: true, want false" {
		w.violate("C09", "stored-content", "the storage holds a different packet for %s: %s", p, d)
	}
}

// checkUnchanged: what is stored for a publish that this client has sent is what was sent.
func (w *World) checkUnchanged(x *Op, when string) {
	if x == nil || x.redo != nil || x.want == nil || x.want.QoS == 0 || len(x.pkts) == 0 || w.store == nil || !x.Cl.strict() {
		return
	}
	p := x.pkts[0].P
	v := w.store.m[p.ID]
	if w.storedOp(v) != x {
		return
	}
	if d := same(storedPublish(v), p, true); d != "" {
		w.violate("C09", "stored-changed", "%s: the storage holds a different packet %s: %s", x.text(), when, d)
	}
}

// inboundID reports whether the server ever used the identifier.
func (w *World) inboundID(id uint16) bool {
	for _, c := range w.conns {
		for _, ip := range c.in {
			if ip.P != nil && ip.P.Type == wire.PUBLISH && ip.P.QoS > 0 && ip.P.ID == id {
				return true
			}
		}
	}
	return false
}

// storedOp returns the call whose PUBLISH the value is.
func (w *World) storedOp(v any) *Op {
	sp := storedPublish(v)
	if sp == nil {
		return nil
	}
	k := -1
	fmt.Sscanf(sp.Topic, "t/%d", &k)
	if k < 0 || k >= len(w.ops) || w.ops[k].Kind != "Publish" {
		return nil
	}
	return w.ops[k]
}

// wire packets sent for a message, over all connections
func (w *World) sentFor(x *Op) (out []*OutPkt) {
	for _, op := range w.ops {
		if op == x || op.redo == x {
			out = append(out, op.pkts...)
		}
	}
	for _, c := range w.conns {
		for _, o := range c.outP {
			if o.auto == x {
				out = append(out, o)
			}
		}
	}
	return
}

// onStore judges the storage calls of the client.
func (w *World) onStore(so *StoreOp) {
	if so.What != "drop" || so.Err != nil {
		return
	}
	x := w.storedOp(so.Pkt)
	if x == nil {
		return
	}
	for _, o := range w.sentFor(x) {
		if o.acked || o.recSeq != 0 {
			return
		}
	}
	if so.Op != nil {
		cl := so.Op.Cl
		if !cl.strict() {
			return
		}
		if so.Op == x && len(x.pkts) == 0 {
			return // nothing was sent: rolled back
		}
		if !cl.link.present && x.Cl != cl {
			return // the session is gone
		}
	}
	w.violate("C09", "dropped-early", "%s was dropped from the storage before the server acknowledged it", x.text())
}

// ---- events ---------------------------------------------------------------------------------------------------------

func (w *World) onEvent(e *EvRec) {
	cl := e.ch.cl
	if e.P == nil {
		w.violate("C03", "unreadable", "%s", e.Bad)
		return
	}
	own := e.P.Type == wire.DISCONNECT && len(cl.discs) > 0
	if !e.ch.isMon {
		// it may have been waiting in the channel since an earlier packet
		for _, ip := range cl.conn.in {
			p := ip.P
			if ip.Raw {
				p = ip.loose
			}
			own = own || p != nil && ip.FirstSeq != 0 && same(e.P, p, false) == ""
		}
	}
	if cl.mustReject != nil && !own && e.Poll != nil && len(e.Poll.reads) > 0 && e.Poll.reads[len(e.Poll.reads)-1] == cl.mustReject {
		w.violate("C12", "malformed-delivered", "an event %s was delivered for malformed input (%s)", e.text(), cl.mustReject.Why)
	}
	if !cl.strict() {
		if e.ch.isMon && !own {
			w.checkLegible(e)
		}
		return
	}
	local := func() bool {
		if e.P.Type != wire.DISCONNECT {
			return false
		}
		if cl.o.over != nil && e.P.Reason == 0x93 {
			return true
		}
		for _, d := range cl.discs {
			if len(d.pkts) > 0 && same(e.P, d.want, true) == "" {
				return true
			}
		}
		return false
	}
	if !e.ch.isMon {
		// which packet is it?
		src := e.Poll
		if src == nil && cl.connect != nil && cl.connect.live() {
			src = cl.connect
		}
		if e.ch.mode == 0 && e.ch.late {
			src = nil
			for i := e.ch.lateAt; i < len(cl.conn.in) && e.exp == nil; i++ {
				if ip := cl.conn.in[i]; ip.ReadSeq != 0 && ip.P != nil && same(e.P, ip.P, false) == "" {
					if ip.poll != nil && ip.poll.Ret != 0 && ip.poll.Ret < e.ch.create.Inv {
						continue
					}
					e.exp = ip
					e.ch.lateAt = i + 1
				}
			}
		}
		if e.ch.mode == 0 && src != nil {
			for _, ip := range src.reads {
				if ip.P != nil && same(e.P, ip.P, false) == "" {
					e.exp = ip
				}
			}
		}
		if e.ch.mode == 0 && e.exp == nil {
			if local() {
				e.local = true
			} else {
				w.violate("C18", "unknown-event", "channel %d received %s, which is not the packet being processed", e.ch.n, e.text())
				w.violate("C04", "unknown-event", "channel %d received %s, which is not the packet being processed", e.ch.n, e.text())
			}
		}
		return
	}
	// the monitor sees every packet, in order
	c := cl.conn
	st := &cl.o
	why := ""
	for i := st.monAt; i < len(c.in); i++ {
		ip := c.in[i]
		if ip.ReadSeq == 0 || ip.ReadSeq > e.Seq {
			break
		}
		if ip.Raw {
			continue
		}
		d := same(e.P, ip.P, false)
		if d == "" && ip.P.Type != wire.PINGRESP {
			e.exp, ip.ev = ip, e
			st.monAt = i + 1
			w.deliveredTo(ip, e)
			return
		}
		if ip.must() {
			if ip.P.Type == e.P.Type {
				why = fmt.Sprintf("the next packet received was %s: %s", ip.text(), d)
			} else {
				why = "the next packet received was " + ip.text()
			}
			break
		}
	}
	if local() {
		e.local = true
		return
	}
	if e.P.Type == wire.PUBLISH {
		// a second delivery of an earlier packet?
		for i := 0; i < st.monAt; i++ {
			if ip := c.in[i]; ip.ev != nil && same(e.P, ip.P, false) == "" {
				why += " (it was delivered before)"
				if ip.P.QoS == 2 {
					w.violate("C06", "delivered-twice", "%s was delivered twice for one PUBLISH", ip.text())
				}
			}
		}
	}
	if why == "" {
		why = "no packet received so far accounts for it"
	}
	w.violate("C03", "wrong-event", "conn%d: event %s: %s", c.id, e.text(), why)
}

// checkLegible compares an event on a connection with odd input with the packet that was read.
func (w *World) checkLegible(e *EvRec) {
	cl := e.ch.cl
	if cl.astray || e.Poll == nil || e.Poll.live() == false || len(e.Poll.reads) == 0 {
		return
	}
	ip := e.Poll.reads[len(e.Poll.reads)-1]
	p := ip.P
	if ip.Raw {
		p = ip.loose
	}
	if p == nil || p.Type != e.P.Type {
		return
	}
	if d := same(e.P, p, false); d != "" {
		w.violate("C12", "misread", "event %s for %s: %s", e.text(), ip.text(), d)
	}
}

// must reports whether the packet has to be seen by the application.
func (ip *InPkt) must() bool {
	if ip.ReadSeq == 0 || ip.P == nil || ip.over || ip.again || ip.P.Type == wire.PINGRESP {
		return false
	}
	if ip.dupOf != nil && ip.P.QoS == 2 {
		return false // judged by C06
	}
	op := ip.poll
	if op == nil || op.live() || op.Err != nil {
		return false
	}
	return true
}

// deliveredTo records the delivery of an application message.
func (w *World) deliveredTo(ip *InPkt, e *EvRec) {
	if ip.over {
		w.violate("C08", "overflow-delivered", "%s exceeded the receive maximum and was delivered", ip.text())
	}
	if ip.msg != nil {
		ip.msg.deliveries = append(ip.msg.deliveries, e)
	}
}

// ---- returns --------------------------------------------------------------------------------------------------------

// explained says whether the error of a call has a cause in the history.
func (o *Op) explained() bool {
	cl := o.Cl
	w := cl.w
	err := o.Err
	lost := cl.lostBut(o.Ret, o) || !cl.up && o.Kind != "Connect"
	var rc mqtt.ReasonCode
	switch {
	case o.badArg != "", o.Kind == "Connect" && o != cl.connect:
		return true
	case o.Kind == "Connect" && cl.idx == 0 && w.cfg.connackBad > 1:
		return true // judged by C14
	case o.Kind == "Publish" && !o.auto && o.redo == nil && strings.Contains(err.Error(), "identifier is in use"):
		// the application chose an identifier; it is in use if anything unacknowledged carries it
		for _, x := range cl.conn.outP {
			if x.P != nil && x.P.ID == o.want.ID && x.Seq0 < o.Ret && (x.ackSeq == 0 || x.ackSeq > o.Inv) {
				return true
			}
		}
		return lost
	case errors.Is(err, errStore):
		return o.storeF
	case errors.Is(err, errClose):
		return o.Kind == "Disconnect"
	case isTimeout(err):
		if o.ctxOver(o.RetT) && o.Kind != "Poll" || cl.conn.stalledEver && (o.Kind == "Poll" || o.Kind == "Connect") {
			return true
		}
		return o.Kind == "KeepAlive" && cl.kaEff > 0 && o.RetT-o.InvT >= cl.kaEff || lost && o.Kind != "Poll"
	case errors.Is(err, mqtt.ErrClientNotConnected):
		return lost || cl.connect != nil && (cl.connect.Ret == 0 || o.Inv < cl.connect.Ret)
	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF), errors.Is(err, net.ErrClosed), errors.Is(err, syscall.EPIPE), errors.Is(err, syscall.ECONNRESET):
		return lost
	case errors.As(err, &rc):
		switch o.Kind {
		case "Poll":
			return byte(rc) == 0x8D || byte(rc) == 0x93 && cl.o.over != nil || cl.o.discRead != 0
		case "Subscribe", "Unsubscribe":
			return o.ack != nil // judged by C15
		case "Connect":
			return cl.link.connack != nil && cl.link.connack.Reason == byte(rc) && cl.link.connackIn != nil && cl.link.connackIn.ReadSeq != 0
		}
		return lost
	case errors.Is(err, storage.ErrDuplicateEntry):
		return o.clash != "" || o.Kind == "Publish" && !o.auto && o.redo == nil && w.store != nil && w.storedOp(w.store.m[o.want.ID]) != nil
	case errors.Is(err, mqtt.ErrUnexpectedPacketTypeReceived), errors.Is(err, packets.ErrControlPacketIsMalformed):
		return false
	}
	return lost
}

func (w *World) onReturn(o *Op) {
	cl := o.Cl
	switch o.Kind {
	case "CreateEventChannel", "CloseEventChannel", "KeepAliveInterval":
		return
	case "IsConnected":
		w.checkIsConnected(o)
		return
	}
	if cl.mustReject != nil && o.Kind == "Poll" && o.Err == nil {
		for _, ip := range o.reads {
			if ip == cl.mustReject {
				w.violate("C12", "malformed-accepted", "Poll returned nil after reading malformed input (%s)", ip.Why)
			}
		}
		if f := cl.mustReject.FirstSeq; f > o.Inv && cl.mustReject.ReadSeq == 0 {
			w.violate("C12", "malformed-accepted", "Poll returned nil after reading a part of malformed input (%s)", cl.mustReject.Why)
		}
	}
	if o.Err != nil && o.Kind == "Poll" && !errors.Is(o.Err, errStore) {
		if cl.o.fatalSeq == 0 && cl.up && o.Inv > cl.connect.Ret {
			cl.o.fatalSeq = o.Ret
		}
	}
	if o.storeF && o.Err == nil {
		w.violate("C09", "error-hidden", "%s returned nil although the storage failed while it ran", o.text())
	}
	if cl.strict() && o.Err == nil && cl.conn.closer == o && o.Kind != "Disconnect" && !(o.Kind == "Poll" && cl.o.discRead != 0) {
		w.violate("C16", "closed-silently", "%s closed the connection and returned nil", o.text())
	}
	if o.Err == nil && o.Kind == "Connect" && !cl.hostile {
		switch ci := cl.link.connackIn; {
		case o != cl.connect:
		case ci == nil || ci.ReadSeq == 0:
			w.violate("C14", "no-connack", "Connect returned nil but the server's CONNACK was not received")
			if w.cfg.connackBad == 4 {
				w.violate("C12", "malformed-accepted", "Connect returned nil after a malformed CONNACK")
			}
		case ci.P.Reason >= 0x80:
			w.violate("C14", "refusal-accepted", "Connect returned nil although the server answered %s", ci.text())
		}
	}
	if o.Err != nil && o.Kind == "Connect" && o == cl.connect && !cl.hostile {
		var rc mqtt.ReasonCode
		if ci := cl.link.connackIn; ci != nil && ci.ReadSeq != 0 && ci.P.Reason >= 0x80 && !(asRC(o.Err, &rc) && byte(rc) == ci.P.Reason) {
			w.violate("C14", "reason-lost", "Connect returned %q although the server answered %s", o.Err, ci.text())
		}
	}
	if o.Err != nil && o.Kind == "Connect" && o == cl.connect && cl.strict() && o.badArg == "" && len(o.pkts) == 0 && !o.ctxOver(o.InvT+sec) && cl.conn.brokenSeq == 0 && !cl.conn.wErr && !cl.conn.stalledEver && !cl.conn.dead {
		w.violate("C14", "not-sent", "Connect returned %q without having sent CONNECT on a working connection", o.Err)
	}
	if o.Err == nil && o.endRead != "" && (o.Kind == "Poll" || o.Kind == "Connect") {
		w.violate("C16", "end-ignored", "%s returned nil although reading the connection failed: %s", o.text(), o.endRead)
	}
	// what was sent
	if o.want != nil {
		done := 0
		for _, x := range o.pkts {
			if x.To != 0 {
				done++
			}
		}
		switch {
		case o.Err == nil && o.badArg != "":
			w.violate("C02", "bad-argument", "%s returned nil although its arguments cannot be encoded (%s)", o.text(), o.badArg)
		case o.Err == nil && done != 1:
			w.violate("C02", "count", "%s returned nil but %d packets were written for it", o.text(), done)
		case done > 1:
			w.violate("C02", "count", "%s: %d packets were written for one call", o.text(), done)
		}
	}
	if cl.strict() && o.Err != nil && !o.explained() {
		cl.o.suspects = append(cl.o.suspects, func() { w.unexplained(o) })
	}
	switch o.Kind {
	case "Subscribe", "Unsubscribe":
		if o.wrongAck != "" && o.Err == nil {
			w.violate("C15", "wrong-ack-accepted", "%s returned nil although its only answer does not fit (%s)", o.text(), o.wrongAck)
		}
		w.checkAckResult(o)
	case "Publish":
		w.checkPublishReturn(o)
	case "Poll":
		w.checkPollReturn(o)
	case "Disconnect":
		if o.Err == nil && !cl.conn.closed {
			w.violate("C16", "not-closed", "Disconnect returned nil but the connection is not closed")
		}
	}
}

// closingAt reports whether a call that was in progress at seq closed the connection later.
func (cl *Client) closingAt(seq uint64) bool {
	c := cl.conn
	return c.closedSeq > seq && c.closer != nil && c.closer.Inv <= seq
}

// unexplained reports a call that failed for no reason.
func (w *World) unexplained(o *Op) {
	if o.Cl.closingAt(o.Ret) && o.Cl.conn.closer != o {
		return
	}
	prop := "C11"
	switch {
	case o.Kind == "Poll":
		prop = "C03"
	case o.Kind == "Connect":
		prop = "C14"
	case o.redo != nil:
		prop = "C20"
	}
	w.violate(prop, "unexplained-error", "%s returned %q, for which nothing in the history is a reason", o.text(), o.Err)
	if prop != "C11" && prop != "C14" {
		w.violate("C11", "unexplained-error", "%s returned %q, for which nothing in the history is a reason", o.text(), o.Err)
	}
}
func (w *World) checkIsConnected(o *Op) {
	cl := o.Cl
	if o.bval {
		switch {
		case cl.connect == nil:
			w.violate("C16", "connected-early", "IsConnected is true before Connect was called")
		case cl.discOp != nil && cl.discOp.Ret < o.Inv:
			w.violate("C16", "still-connected", "IsConnected is true after Disconnect returned nil")
		case cl.o.fatalSeq != 0 && cl.o.fatalSeq < o.Inv:
			w.violate("C16", "still-connected", "IsConnected is true after Poll reported that the connection is over")
		case cl.connect.Ret != 0 && cl.connect.Err != nil && cl.connect.Ret < o.Inv:
			w.violate("C14", "connected-after-failure", "IsConnected is true after Connect failed with %q", cl.connect.Err)
		}
		for _, ip := range cl.conn.in {
			if ip.P != nil && ip.P.Type == wire.DISCONNECT && ip.ReadSeq != 0 && ip.poll != nil && !ip.poll.live() && ip.poll.Ret < o.Inv && cl.strict() {
				w.violate("C16", "still-connected", "IsConnected is true after the server's DISCONNECT was processed")
			}
		}
		return
	}
	if cl.up && cl.connect.Ret < o.Inv && cl.strict() && !cl.lostBefore(o.Ret) {
		cl.o.suspects = append(cl.o.suspects, func() {
			if cl.closingAt(o.Ret) {
				return
			}
			w.violate("C16", "not-connected", "%s: IsConnected is false although the connection is established and nothing ended it", o.text())
			w.violate("C14", "not-connected", "%s: IsConnected is false although the connection is established and nothing ended it", o.text())
		})
	}
}

// checkAckResult: the result of Subscribe and Unsubscribe is what the server's acknowledgement says.
func (w *World) checkAckResult(o *Op) {
	cl := o.Cl
	if !cl.strict() {
		return
	}
	bad := -1
	if o.ack != nil {
		for _, c := range o.ack.P.Reasons {
			if c >= 0x80 && bad < 0 {
				bad = int(c)
			}
		}
	}
	var rc mqtt.ReasonCode
	switch {
	case o.Err == nil && o.ack == nil:
		w.violate("C15", "no-ack", "%s returned nil before its acknowledgement was received", o.text())
	case o.Err == nil && bad >= 0:
		w.violate("C15", "refusal-ignored", "%s returned nil although the server answered %s", o.text(), o.ack.text())
	case errors.Is(o.Err, mqtt.ErrClientNotConnected) && o.ack != nil && o.ack.poll != nil && !o.ack.poll.live() && o.ack.poll.Err == nil && o.ack.poll.Ret < cl.conn.closedSeq:
		w.violate("C15", "answer-lost", "%s returned %q although the acknowledgement %s had been processed before the connection was lost", o.text(), o.Err, o.ack.text())
	case errors.As(o.Err, &rc):
		ok := false
		if o.ack != nil {
			for _, c := range o.ack.P.Reasons {
				ok = ok || c == byte(rc) && c >= 0x80
			}
		}
		if !ok && !cl.lostBefore(o.Ret) {
			ans := "nothing"
			if o.ack != nil {
				ans = o.ack.text()
			}
			w.violate("C15", "wrong-result", "%s returned %q although the server answered %s", o.text(), o.Err, ans)
		}
	}
}

func (w *World) checkPublishReturn(o *Op) {
	cl := o.Cl
	if cl.store == nil || o.want.QoS == 0 || !cl.strict() {
		return
	}
	id := uint16(o.pub.PacketIdentifier)
	src := o
	if o.redo != nil {
		src = o.redo
	}
	w.checkUnchanged(o, "after the call returned")
	holds := id != 0 && w.storedOp(w.store.m[id]) == src
	stErr := false
	for _, so := range w.store.ops {
		if so.Op == o && so.What == "store" && so.Err == errStore {
			stErr = true
		}
	}
	switch {
	case stErr && o.Err == nil:
		w.violate("C09", "storage-error-ignored", "%s returned nil although it could not be stored", o.text())
	case stErr && len(o.pkts) > 0:
		w.violate("C09", "storage-error-ignored", "%s was sent although it could not be stored", o.text())
	case o.Err != nil && len(o.pkts) == 0 && !o.had && holds && !o.storeF && cl.conn.wfailAt < 0:
		w.violate("C09", "not-rolled-back", "%s failed with %q before anything was sent, but it stays in the storage", o.text(), o.Err)
	case o.had && o.Err != nil && len(o.pkts) == 0 && !holds && !o.storeF:
		w.violate("C09", "lost-on-retry", "%s failed with %q and the stored message is gone", o.text(), o.Err)
		w.violate("C20", "lost-on-retry", "%s failed with %q and the stored message is gone", o.text(), o.Err)
	}
}

func (w *World) checkPollReturn(o *Op) {
	cl := o.Cl
	st := &cl.o
	if cl.hostile {
		return
	}
	// keep alive
	var rc mqtt.ReasonCode
	timeout := errors.As(o.Err, &rc) && byte(rc) == 0x8D
	if cl.up && w.cfg.conform {
		lo, hi := cl.connect.InvT, cl.connect.RetT
		for _, ip := range st.pings {
			if ip.poll != nil && ip.poll != o && !ip.poll.live() {
				lo, hi = ip.ReadT, ip.poll.RetT
			}
		}
		switch {
		case timeout && cl.kaEff == 0:
			w.violate("C10", "timeout-without-keep-alive", "Poll reported a keep alive timeout although keep alive is off")
		case timeout && o.RetT <= lo+2*cl.kaEff:
			w.violate("C10", "premature", "Poll reported a keep alive timeout %s after the last sign of the server; twice the interval is %s", secs(o.RetT-lo), secs(2*cl.kaEff))
		case !timeout && o.Err == nil && cl.kaEff > 0 && o.InvT > hi+2*cl.kaEff:
			w.violate("C10", "missed", "Poll returned nil %s after the last PINGRESP (or Connect); twice the interval is %s", secs(o.InvT-hi), secs(2*cl.kaEff))
		}
		if errors.Is(o.Err, errClose) && len(o.reads) == 0 && cl.kaEff > 0 && o.InvT > hi+2*cl.kaEff {
			w.violate("C10", "wrong-reason", "Poll returned %q %s after the last PINGRESP (or Connect); twice the interval is %s", o.Err, secs(o.InvT-hi), secs(2*cl.kaEff))
		}
		if timeout {
			w.Stats.Probe("keep-alive-timeout")
			if !cl.conn.closed {
				w.violate("C10", "not-closed", "Poll reported a keep alive timeout but left the connection open")
			}
		}
	}
	if !cl.strict() {
		return
	}
	// the end of the connection
	for _, ip := range o.reads {
		if ip.P != nil && ip.P.Type == wire.DISCONNECT && ip.ReadSeq != 0 && o.Err != nil {
			w.violate("C03", "poll-failed", "Poll returned %q for %s", o.Err, ip.text())
		}
	}
	// receive maximum
	for _, ip := range o.reads {
		if !ip.over {
			continue
		}
		if w.cfg.sessions > 1 {
			break
		}
		sent := false
		for _, x := range cl.conn.outP {
			sent = sent || x.P != nil && x.To != 0 && x.P.Type == wire.DISCONNECT && x.P.Reason == 0x93
		}
		other := len(cl.discs) > 0 || cl.conn.brokenSeq != 0 || cl.conn.wErr
		switch {
		case o.Err == nil:
			w.violate("C08", "overflow-accepted", "Poll returned nil for %s, which exceeds the client's Receive Maximum %d", ip.text(), w.cfg.cliRM)
		case !cl.conn.closed:
			w.violate("C08", "overflow-not-closed", "the connection stays open after the server exceeded the client's Receive Maximum")
		case o.Err != nil && sent && cl.conn.closer == o && !(errors.As(o.Err, &rc) && byte(rc) == 0x93):
			w.violate("C08", "overflow-reason", "Poll returned %q after the server exceeded the client's Receive Maximum and DISCONNECT was sent", o.Err)
		case !sent && !other:
			w.violate("C08", "overflow-no-disconnect", "no DISCONNECT with reason 0x93 was sent after the server exceeded the client's Receive Maximum")
		}
	}
	if errors.As(o.Err, &rc) && byte(rc) == 0x93 && st.over == nil {
		w.violate("C08", "false-overflow", "Poll reported that the receive maximum %d was exceeded, but it was not", w.cfg.cliRM)
	}
	// storage
	if cl.store == nil || o.Err != nil || o.storeF {
		return
	}
	for _, ip := range o.reads {
		if ip.forOut == nil || ip.P == nil {
			continue
		}
		x := ip.forOut.Op
		if x == nil {
			x = ip.forOut.auto
		}
		if x != nil && x.redo != nil {
			x = x.redo
		}
		if x == nil {
			continue
		}
		holds := w.storedOp(w.store.m[ip.P.ID]) == x
		k := w.store.kind(ip.P.ID)
		switch {
		case holds:
			w.violate("C09", "kept-after-ack", "%s is still stored after %s was processed", x.text(), ip.text())
		case ip.P.Type == wire.PUBREC && ip.P.Reason < 0x80 && k == "" && !w.inboundID(ip.P.ID):
			w.violate("C09", "state-lost", "after %s the storage holds nothing for identifier %d", ip.text(), ip.P.ID)
		case (ip.P.Type == wire.PUBCOMP || ip.P.Type == wire.PUBREC && ip.P.Reason >= 0x80) && (k == "pubrec" || k == "pubrel") && !w.inboundID(ip.P.ID):
			w.violate("C09", "kept-after-ack", "the storage still holds a %s for identifier %d after %s was processed", k, ip.P.ID, ip.text())
		}
	}
}

// checkConnectFailed: nothing follows a Connect that failed.
func (w *World) checkConnectFailed(cl *Client, o *Op) {
	sent := len(o.pkts) > 0
	if cl.isConnected() {
		w.violate("C14", "connected-after-failure", "IsConnected is true after Connect failed with %q", o.Err)
	}
	if sent && !cl.conn.closed {
		w.violate("C14", "not-closed", "Connect failed with %q after CONNECT was sent and left the connection open", o.Err)
	}
	n := len(cl.conn.out)
	for i := w.W.Intn(3); i > 0; i-- {
		p := w.drawPlan()
		p.ctx = ctxSpec{1, 100}
		cl.finalCall(w.W.Intn(7), p)
	}
	if len(cl.conn.out) != n {
		w.violate("C14", "sent-after-failure", "%d bytes were sent after Connect had failed", len(cl.conn.out)-n)
	}
}

// stuck: a call has not returned although every fault has stopped and the server answered everything.
func (w *World) stuck(o *Op) {
	cl := o.Cl
	msg := fmt.Sprintf("%s does not return although the server has answered everything and the connection is up (blocked on %s)", o.text(), o.Task.BlockedOn())
	switch o.Kind {
	case "Publish":
		n := 0
		for _, x := range cl.conn.outP {
			if x.P != nil && x.To != 0 && x.P.Type == wire.PUBLISH && x.P.QoS > 0 && !x.acked {
				n++
			}
		}
		if cl.strict() && len(o.pkts) == 0 && (w.cfg.srvRM == 0 || n < w.cfg.srvRM) {
			cl.starved("starved", "%s; %d of %d PUBLISH packets are unacknowledged", msg, n, w.cfg.srvRM)
		}
	case "Subscribe", "Unsubscribe":
		if o.ack != nil {
			w.violate("C15", "stuck", "%s; its acknowledgement %s was read", msg, o.ack.text())
		}
	}
	w.violate("C11", "stuck", "%s", msg)
}

func asRC(err error, rc *mqtt.ReasonCode) bool { return err != nil && errors.As(err, rc) }

// ---- end of run -----------------------------------------------------------------------------------------------------

// onIdle: nothing will ever run again, so whatever the application still waits for does not happen.
func (w *World) onIdle() {
	for _, cl := range w.clients {
		waits := false // for the network, without a deadline: nobody can say whether it comes back
		for _, o := range cl.liveOps() {
			if on := o.Task.BlockedOn(); on == "conn read" || on == "conn write" {
				waits = true
				if o.Kind == "KeepAlive" && cl.kaKnown && cl.kaEff > 0 && !cl.hostile {
					w.violate("C10", "no-deadline", "%s waits for the server without a deadline although the keep alive interval is %s", o.text(), secs(cl.kaEff))
				}
			}
		}
		if o := cl.cur[w.ctl]; !w.ctl.Done() && o != nil && o.live() && !waits {
			if o.Kind == "Connect" {
				w.violate("C14", "stuck", "%s never returns (blocked on %s)", o.text(), o.Task.BlockedOn())
			}
			w.violate("C11", "stuck", "%s never returns (blocked on %s)", o.text(), o.Task.BlockedOn())
		}
	}
}

func (w *World) finish(end string) {
	if w.cfg.linear {
		w.linearCheck()
		return
	}
	if w.cfg.codec {
		return
	}
	if end == "stopped" || end == "budget" {
		if len(w.Viol) > 0 || end == "budget" {
			return
		}
	}
	for _, cl := range w.clients {
		w.finishClient(cl)
	}
	w.finishMessages()
	w.finishStore()
	w.finishRedelivery()
}

func (w *World) finishClient(cl *Client) {
	for _, o := range cl.finalOps {
		terminal := cl.up
		prop := "C16"
		if cl.connect == nil || !terminal {
			prop = "C14"
		}
		if o.Kind == "IsConnected" || o.Kind == "KeepAliveInterval" || strings.HasPrefix(o.Kind, "Set") || o.live() {
			continue
		}
		switch {
		case o.Err != nil && o.badArg != "":
		case o.Err == nil:
			w.violate(prop, "accepted-when-not-connected", "%s returned nil although the client is not connected", o.text())
		case !errors.Is(o.Err, mqtt.ErrClientNotConnected):
			w.violate(prop, "wrong-error", "%s returned %q on a client that is not connected", o.text(), o.Err)
		}
		if len(o.pkts) > 0 {
			w.violate(prop, "sent-when-not-connected", "%s was sent although the client is not connected", o.text())
		}
	}
	if cl.o.fatalSeq != 0 && !cl.conn.closed && !cl.crashed {
		e := ""
		for _, o := range cl.polls {
			if o.Err != nil && e == "" {
				e = o.Err.Error()
			}
		}
		w.violate("C16", "not-closed", "Poll reported that the connection is over (%q) but the connection was never closed", e)
	}
	for _, f := range cl.o.suspects {
		f()
	}
	if cl.mustReject != nil && cl.mustReject.ReadSeq != 0 && !cl.crashed && !cl.conn.closed {
		w.violate("C12", "not-closed", "the connection was left open after malformed input (%s)", cl.mustReject.Why)
	}
	if !cl.strict() {
		return
	}
	// C03: nothing is missing
	for _, ip := range cl.conn.in {
		if ip.ev == nil && ip.must() && !(cl.connect != nil && ip.poll == cl.connect && cl.connect.Err != nil) {
			w.violate("C03", "missing-event", "conn%d: %s was received but no event was delivered", cl.conn.id, ip.text())
			break
		}
	}
	if cl.o.settled != 0 {
		if cl.conn.rpos < len(cl.conn.sent) && cl.unreadAtSettle > 0 {
			w.violate("C03", "unread", "conn%d: %d bytes the server sent were never read although Poll was called all along", cl.conn.id, cl.unreadAtSettle)
		}
		for _, typ := range []int{wire.PUBACK, wire.PUBREC, wire.PUBREL, wire.PUBCOMP} {
			for _, e := range cl.o.replies[typ] {
				if op := e.ip.poll; e.out == nil && e.ip.ReadSeq < cl.o.settled && op != nil && op.Kind == "Poll" && !op.live() && op.Err == nil {
					w.violate("C05", "missing", "conn%d: %s was never answered with %s", cl.conn.id, e.ip.text(), wire.Names[typ])
				}
			}
		}
	}
	// C16: the application is told of the client's own disconnect
	told := func(reason byte) bool {
		for _, e := range cl.mon.got {
			if e.local && e.P.Type == wire.DISCONNECT && e.P.Reason == reason {
				return true
			}
		}
		return false
	}
	if cl.discOp != nil && !cl.crashed && !told(cl.discOp.want.Reason) {
		w.violate("C16", "not-signalled", "%s ended the connection but no event told of it", cl.discOp.text())
	}
	if cl.o.over != nil && !cl.crashed && cl.o.over.poll != nil && !cl.o.over.poll.live() && cl.conn.closer == cl.o.over.poll {
		for _, x := range cl.conn.outP {
			if x.P != nil && x.To != 0 && x.P.Type == wire.DISCONNECT && x.P.Reason == 0x93 && !told(0x93) {
				w.violate("C08", "not-signalled", "the client disconnected (0x93) but no event told of it")
			}
		}
	}
	w.checkChannels(cl)
}

// finishMessages: exactly-once delivery of QoS 2 messages.
func (w *World) finishMessages() {
	if !w.cfg.conform {
		return
	}
	for _, m := range w.broker.msgs {
		if m.P.QoS != 2 || m.over || m.Session == nil {
			continue
		}
		hostile := false
		var ds []*EvRec
		for _, cl := range w.clients {
			hostile = hostile || cl.hostile
		}
		if hostile {
			return
		}
		ds = m.deliveries
		excuse := ""
		for i, d := range ds {
			if i == len(ds)-1 {
				break
			}
			nx := ds[i+1]
			op, op2 := d.exp.poll, nx.exp.poll
			switch {
			case d.ch.cl == nx.ch.cl && op != nil && !op.live() && op.Err == nil && !op.storeF:
			case d.ch.cl != nx.ch.cl && w.store == nil:
				excuse = "no storage"
			case op == nil || op.live() || op.Err != nil || op.storeF:
				excuse = "processing was interrupted"
			case op2 == nil || op2.storeF:
				excuse = "the storage failed"
			case d.ch.cl != nx.ch.cl && !nx.ch.cl.link.present:
				excuse = "the session was not resumed"
			}
			if excuse != "" {
				continue
			}
			class := "delivered-twice"
			if w.outboundID(m.ID) {
				class = "delivered-twice-id-collision"
			}
			w.violate("C06", class, "QoS 2 message %q (identifier %d) was delivered %d times", clip([]byte(m.P.Payload)), m.ID, len(ds))
		}
		// at least once: the server completed the exchange
		if m.State == "done" && len(ds) == 0 && len(m.Sent) > 0 {
			ok := true
			any := false
			for _, ip := range m.Sent {
				if ip.ReadSeq == 0 {
					continue
				}
				any = true
				if op := ip.poll; op == nil || op.live() || op.Err != nil || op.storeF {
					ok = false
				}
			}
			if ok && any {
				w.violate("C06", "lost", "QoS 2 message %q (identifier %d) was acknowledged but never delivered", clip([]byte(m.P.Payload)), m.ID)
			}
		}
	}
}

// outboundID reports whether the client ever used the identifier for a PUBLISH of its own.
func (w *World) outboundID(id uint16) bool {
	for _, c := range w.conns {
		for _, o := range c.outP {
			if o.P != nil && o.P.Type == wire.PUBLISH && o.P.QoS > 0 && o.P.ID == id {
				return true
			}
		}
	}
	for _, o := range w.ops {
		if o.Kind == "Publish" && o.pub != nil && uint16(o.pub.PacketIdentifier) == id {
			return true
		}
	}
	return false
}

// finishStore: nothing is left behind once everything is acknowledged.
func (w *World) finishStore() {
	if w.store == nil || w.cfg.storeFault > 0 || len(w.clients) != 1 || w.cfg.sessions != 1 {
		return
	}
	cl := w.clients[0]
	if cl.o.settled == 0 || !cl.o.drained || !cl.strict() || cl.crashed {
		return
	}
	for _, id := range w.store.order {
		v := w.store.m[id]
		if x := w.storedOp(v); x != nil && len(x.pkts) > 0 && x.pkts[0].ackSeq == 0 {
			continue // sent later than the settled state
		}
		late := false
		for _, so := range w.store.ops {
			late = late || so.ID == id && so.What == "store" && so.Err == nil && so.Seq > cl.o.settled
		}
		if late {
			continue
		}
		w.violate("C09", "leak", "the storage still holds a %s for identifier %d although every exchange has completed", kindOf(v), id)
	}
}

// finishRedelivery: what the storage holds is delivered after a reconnect.
func (w *World) finishRedelivery() {
	if w.store == nil || len(w.clients) < 2 || w.cfg.storeFault > 0 {
		return
	}
	cl := w.clients[len(w.clients)-1]
	if cl.o.settled == 0 || !cl.strict() || !cl.up || !cl.link.present {
		return
	}
	for _, x := range w.ops {
		if x.Kind != "Publish" || x.redo != nil || x.Cl == cl || x.want.QoS == 0 || len(x.pkts) == 0 || cl.storedAtConnect == nil {
			continue
		}
		id := x.pkts[0].P.ID
		if w.storedOp(cl.storedAtConnect[id]) != x {
			continue
		}
		var last *OutPkt
		for _, o := range w.sentFor(x) {
			if o.Conn == cl.conn {
				last = o
			}
		}
		if last == nil {
			tried := false
			for _, o := range w.ops {
				tried = tried || o.redo == x && o.Cl == cl
			}
			if !tried {
				w.violate("C20", "not-redelivered", "%s was stored and unacknowledged, the session was resumed, and the client did not send it again", x.text())
			}
			continue
		}
		if last.P.ID != id || !last.P.Dup {
			w.violate("C20", "redelivery-form", "%s was sent again as %s", x.text(), last.P)
		}
		w.Stats.Probe("redelivered")
	}
	for i := 1; i <= 0xffff; i++ {
		id := uint16(i)
		if len(cl.storedAtConnect) == 0 || kindOf(cl.storedAtConnect[id]) != "pubrel" {
			continue
		}
		sent := false
		for _, o := range cl.conn.outP {
			sent = sent || o.P != nil && o.To != 0 && o.P.Type == wire.PUBREL && o.P.ID == id
		}
		if !sent {
			w.violate("C20", "release-not-resent", "the release of identifier %d was stored, the session was resumed, and the client did not send PUBREL again", id)
			break
		}
	}
}
