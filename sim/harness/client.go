package harness

import (
	gocontext "context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verifsim/shim/context"
	simtime "verifsim/shim/time"
	"verifsim/simrt"
	"verifsim/wire"
)

// Client is one incarnation of the client application: a fresh mqtt.Client on a fresh connection. Only the storage
// survives from one incarnation to the next.
type Client struct {
	w     *World
	idx   int
	conn  *Conn
	link  *Link
	c     *mqtt.Client
	store *Store

	cur     map[*simrt.Task]*Op
	curPoll *Op
	tasks   []*simrt.Task
	hostile bool
	astray  bool // the boundaries of the packets from the server are unknown

	mustReject *InPkt

	mon             *Chan
	crowd           []mqtt.EventChannel
	chans           []*Chan
	connect         *Op
	up              bool // Connect returned nil
	stopping        bool // workers take no new operation
	stopPoll        bool
	quit            bool
	crashed         bool
	ended           bool
	polls           []*Op
	pollErr         *Op // the Poll that ended the connection
	filters         []string
	kaEff           int64 // effective keep alive interval of the model, ns
	discOp          *Op   // successful Disconnect
	pollNoDL        bool
	kaKnown         bool
	finalOps        []*Op
	payloadAt       int   // events whose payload was read
	discs           []*Op // Disconnect calls
	o               oracle
	storedAtConnect storeSnap
	unreadAtSettle  int
}

// Chan is an event channel the application holds.
type Chan struct {
	cl       *Client
	n        int
	ev       mqtt.EventChannel
	cap      int
	mode     int // 0 observed (drained at once), 1 never drained before the end, 2 consumer task
	got      []*EvRec
	create   *Op
	close    *Op // first CloseEventChannel
	closes   int
	doneSeen bool
	isMon    bool
	eof      bool // closed as seen by the receiver
	eofSeq   uint64
	subs     []*Op // Subscribe calls naming it
	busy     bool

	drainedEnd bool // everything left on it was read at the end

	late   bool // reading what arrived before CreateEventChannel returned
	lateAt int
}

// EvRec is an event as received.
type EvRec struct {
	Seq   uint64
	T     int64
	Ev    *mqtt.Event
	P     *wire.Packet
	Bad   string
	Poll  *Op
	ch    *Chan
	exp   *InPkt // aligned server packet
	local bool   // signalled for the client's own DISCONNECT
}

// Op is one API call.
type Op struct {
	N        int
	Kind     string
	Cl       *Client
	Task     *simrt.Task
	Inv, Ret uint64
	InvT     int64
	RetT     int64
	invStep  int
	Err      error
	dl       int64 // absolute deadline (never: none)
	cancelT  int64 // time the context was cancelled (never: not)

	want     *wire.Packet // the packet the call must send
	auto     bool         // identifier chosen by the client
	id       uint16
	pub      *packets.Publish
	badArg   string // the arguments cannot be encoded
	pkts     []*OutPkt
	subs     []subWant
	topics   []string
	ch       *Chan
	had      bool // storage already held this identifier's PUBLISH (re-publication)
	redo     *Op
	clash    string   // what is stored under the identifier the application chose
	reads    []*InPkt // Poll: packets completed during the call
	ack      *InPkt   // SUBACK, UNSUBACK
	bval     bool
	dval     int64
	reused   bool
	endRead  string // a read of the call met the end of the connection
	wrongAck string // the server answered with an acknowledgement that does not fit
	storeF   bool   // a storage fault was injected while the call ran
	notes    string
	during   int // phase at invocation
}

type subWant struct {
	filter string
	opts   byte
	ch     *Chan
}

func (o *Op) text() string {
	s := fmt.Sprintf("op%d %s", o.N, o.Kind)
	if o.want != nil {
		s += " " + o.want.String()
	}
	return s
}

func (o *Op) live() bool { return o.Ret == 0 }

func errText(e error) string {
	if e == nil {
		return "nil"
	}
	return e.Error()
}

func (w *World) clientOf(t *simrt.Task) *Client {
	cl, _ := t.Data.(*Client)
	return cl
}

func (cl *Client) begin(kind string) *Op {
	w := cl.w
	t := w.sim.Cur()
	o := &Op{N: len(w.ops), Kind: kind, Cl: cl, Task: t, dl: never, cancelT: never, during: w.phase}
	w.ops = append(w.ops, o)
	w.Stats.Ops[kind]++
	o.Inv, o.InvT, o.invStep = w.sim.NextSeq(), w.sim.Now(), w.sim.Steps
	cl.cur[t] = o
	if kind == "Poll" {
		cl.curPoll = o
	}
	return o
}

// start stamps the invocation (arguments are complete).
func (o *Op) start() {
	w := o.Cl.w
	o.Inv, o.InvT, o.invStep = w.sim.NextSeq(), w.sim.Now(), w.sim.Steps
	if o.Kind != "Poll" {
		w.log("call %s", o.text())
	}
	if o.Kind == "Publish" && o.want.QoS > 0 && o.badArg == "" && o.Cl.strict() && o.Cl.up {
		w.watchSlot(o, 16)
	}
}

func (o *Op) end(err error) {
	w := o.Cl.w
	if !simrt.Dying() {
		w.observe()
	}
	o.Err = err
	o.Ret, o.RetT = w.sim.NextSeq(), w.sim.Now()
	delete(o.Cl.cur, o.Task)
	if o.Kind == "Poll" {
		o.Cl.curPoll = nil
	}
	if o.Kind != "Poll" || err != nil {
		w.log("return %s: %s", o.text(), errText(err))
	}
	w.onReturn(o)
}

// ctxSpec says how the context of a call behaves.
type ctxSpec struct {
	kind int // 0 none, 1 deadline, 2 cancelled later
	ms   int
}

func (o *Op) ctx(s ctxSpec) (gocontext.Context, func()) {
	w := o.Cl.w
	switch s.kind {
	case 1:
		d := int64(s.ms) * ms
		o.dl = w.sim.Now() + d
		return context.WithDeadline(context.Background(), simtime.At(o.dl))
	case 2:
		ctx, cancel := context.WithCancel(context.Background())
		fire := func() {
			if o.cancelT == never {
				o.cancelT = w.sim.Now()
				if o.Ret == 0 {
					w.Stats.Fault("context-cancelled")
				}
				cancel()
			}
		}
		w.sim.After(int64(s.ms)*ms, fire)
		return ctx, func() { cancel() }
	}
	return context.Background(), func() {}
}

// ctxOver reports whether the context of the call was over by t.
func (o *Op) ctxOver(t int64) bool { return o.dl <= t || o.cancelT <= t }

func (w *World) newClient() *Client {
	cl := &Client{w: w, idx: len(w.clients), cur: map[*simrt.Task]*Op{}}
	cl.o = oracle{replies: map[int][]*expReply{}, in2: map[uint16]*InPkt{}}
	w.clients = append(w.clients, cl)
	cl.conn = w.newConn()
	cl.conn.cl = cl
	cl.conn.frag = w.cfg.frag
	cl.link = w.broker.attach(cl.conn, cl)
	w.sim.Cur().Data = cl
	cl.c = mqtt.NewClient(cl.conn)
	if w.cfg.useStore {
		if w.store == nil {
			w.store = newStore(w)
		}
		cl.store = w.store
		cl.setStorage()
	}
	if f := w.rngFn(); f != nil {
		cl.setRngFn(f)
	}
	cl.mon = cl.newChan(4096, 0)
	cl.mon.isMon = true
	for i := 0; i < w.cfg.crowd && cl.idx == 0; i++ {
		ev := cl.c.CreateEventChannel(i % 2)
		cl.crowd = append(cl.crowd, ev)
	}
	return cl
}

func (cl *Client) setStorage() {
	o := cl.begin("SetStorage")
	o.start()
	cl.c.SetStorage(cl.store)
	o.end(nil)
}

func (cl *Client) setRngFn(f func() uint32) {
	o := cl.begin("SetRngFn")
	o.start()
	cl.c.SetRngFn(f)
	o.end(nil)
}

// rngFn is the packet identifier source of the run.
func (w *World) rngFn() func() uint32 {
	switch w.cfg.rng {
	case 1:
		n := uint32(w.cfg.rngSeed)
		return func() uint32 { n++; return n % 3 }
	case 2:
		v := uint32(1 + w.cfg.rngSeed%5)
		return func() uint32 { return v }
	case 3:
		return func() uint32 { return 0 }
	case 4: // collides only in the low 16 bits, now and then zero there
		s := uint64(w.cfg.rngSeed)
		return func() uint32 { s = simrt.Mix(s, 7); return uint32(s>>40)<<16 | uint32(s%4) }
	case 5: // the end of the range
		s := uint64(w.cfg.rngSeed)
		return func() uint32 { s = simrt.Mix(s, 7); return uint32(s>>40)<<16 | uint32(65533+s%3) }
	case 6: // identifiers that differ in one byte only
		n := uint32(w.cfg.rngSeed)
		return func() uint32 { n += 256; return n }
	}
	return nil
}

func (cl *Client) newChan(capn, mode int) *Chan {
	ch := &Chan{cl: cl, n: -1, cap: capn, mode: mode}
	if ch.cap <= 0 {
		ch.cap = 1
	}
	o := cl.begin("CreateEventChannel")
	ch.create = o
	o.ch = ch
	o.start()
	ch.ev = cl.c.CreateEventChannel(capn)
	o.end(nil)
	if got := cap(ch.ev.C); got != ch.cap {
		cl.w.violate("C18", "capacity", "CreateEventChannel(%d) returned a channel of capacity %d", capn, got)
	}
	ch.n = len(cl.chans)
	cl.chans = append(cl.chans, ch)
	if ch.mode == 0 {
		// what arrived before the application held the channel
		ch.late = true
		ch.drain()
		ch.late = false
	}
	return ch
}

// observe drains the observed channels. It runs at every step of the simulation, so each event is stamped with the
// instant at which it became available.
func (w *World) observe() {
	for _, cl := range w.clients {
		if cl.ended {
			continue
		}
		for _, ch := range cl.chans {
			if ch.mode == 0 && !ch.eof {
				ch.drain()
			}
		}
	}
}

func (ch *Chan) drain() {
	for len(ch.ev.C) > 0 {
		v, ok, done := simrt.TryRecvRaw(ch.ev.C)
		if !done {
			return
		}
		if !ok {
			ch.eof = true
			return
		}
		ch.add(v)
	}
}

func (ch *Chan) add(v *mqtt.Event) {
	w := ch.cl.w
	e := &EvRec{Seq: w.sim.NextSeq(), T: w.sim.Now(), Ev: v, ch: ch, Poll: ch.cl.curPoll}
	e.P, e.Bad = convert(v)
	ch.got = append(ch.got, e)
	if ch.isMon {
		w.log("event %s", e.text())
	} else {
		w.log("event on channel %d: %s", ch.n, e.text())
	}
	w.onEvent(e)
}

func (e *EvRec) text() string {
	if e.P == nil {
		return "unreadable event: " + e.Bad
	}
	return e.P.String()
}

// ---- plans --------------------------------------------------------------------------------------------------------

type plan struct {
	kind  string
	ctx   ctxSpec
	a     []int
	sleep int
	id    uint16 // the identifier a Publish is to use (0: as it comes)
}

var kinds = []string{"Publish", "Subscribe", "Unsubscribe", "Channel", "KeepAlive", "IsConnected", "Sleep", "Disconnect", "Interval", "Set"}

func (w *World) drawPlan() plan {
	s, c := w.W, &w.cfg
	p := plan{}
	p.kind = kinds[s.Pick(c.wPub, c.wSub, c.wUnsub, c.wChan, c.wKeep, c.wIs, c.wSleep, c.wDisc, c.wIs, c.wSet)]
	switch {
	case c.deadline > 0 && s.Chance(c.deadline, 8):
		p.ctx = ctxSpec{1, []int{0, 1, 20, 200, 1000, 4000}[s.Intn(6)]}
	case c.cancel > 0 && s.Chance(c.cancel, 8):
		p.ctx = ctxSpec{2, []int{0, 1, 20, 200, 1000, 4000}[s.Intn(6)]}
	}
	if c.bulk > 0 && (p.kind == "Subscribe" || p.kind == "Unsubscribe") {
		p.ctx = ctxSpec{1, []int{10, 20, 60}[s.Intn(3)]}
		if s.Chance(1, 100) {
			p.ctx = ctxSpec{}
		}
	}
	for i := 0; i < 14; i++ {
		p.a = append(p.a, s.Intn(1<<16))
	}
	if s.Chance(1, 2) && c.bulk == 0 {
		p.sleep = []int{0, 1, 10, 100, 700}[s.Intn(5)]
	}
	return p
}

func (cl *Client) exec(p plan) {
	w := cl.w
	switch p.kind {
	case "Publish":
		cl.publish(p)
	case "Subscribe":
		cl.subscribe(p)
	case "Unsubscribe":
		cl.unsubscribe(p)
	case "Channel":
		cl.channelOp(p)
	case "KeepAlive":
		cl.keepAlive()
	case "IsConnected":
		cl.isConnected()
	case "Interval":
		known := cl.up && cl.kaKnown
		if got := cl.keepAliveInterval(); known && got != cl.kaEff && !cl.hostile {
			w.violate("C10", "interval", "KeepAliveInterval is %v, want %v", secs(got), secs(cl.kaEff))
		}
	case "Set":
		// setting what is set already
		if f := w.rngFn(); f != nil && p.a[0]%2 == 0 {
			cl.setRngFn(f)
		} else if cl.store != nil {
			cl.setStorage()
		}
	case "Disconnect":
		if w.cfg.wDisc > 0 {
			cl.disconnect(p)
		}
	}
	if p.sleep > 0 || p.kind == "Sleep" {
		simrt.Sleep(int64(p.sleep)*ms + 1000)
	}
}

func (cl *Client) publish(p plan) {
	w := cl.w
	o := cl.begin("Publish")
	q := byte(p.a[0] % 3)
	if w.prop == "C07" || w.prop == "C09" || w.prop == "C20" || w.prop == "C17" {
		q = []byte{1, 2, 1, 2, 0}[p.a[0]%5]
	}
	wt := &wire.Packet{Type: wire.PUBLISH, QoS: q, Retain: p.a[1]%5 == 0}
	wt.Topic = fmt.Sprintf("t/%d", o.N)
	size := []int{0, 0, 1, 20, 100, 110, 118, 122, 126, 200}[p.a[2]%10]
	if w.cfg.bigPayload {
		size = []int{0, 90, 100, 110, 116, 117, 118, 119, 120, 121, 122, 126, 127, 128, 16360, 16370, 16375, 16384, 20000, 70000}[p.a[2]%20]
	}
	if w.cfg.bigPayload && w.cfg.frag == 0 && p.a[3]%97 == 13 {
		size = []int{2097130, 2097140, 2097145, 2097152}[p.a[2]%4]
	}
	wt.Payload = strings.Repeat(string(rune('a'+p.a[3]%26)), size)
	pub := &packets.Publish{QoS: packets.QoS(q), Retain: wt.Retain}
	if p.a[13]%3 == 0 {
		if old := cl.reusable(o); old != nil {
			// the application uses the struct of an earlier publish, which is complete, for a new message
			cp := *old.pub
			pub, old.pub = old.pub, &cp
			pub.QoS, pub.Retain, pub.Duplicate, pub.PacketIdentifier = packets.QoS(q), wt.Retain, false, 0
			w.Stats.Probe("publish-struct-reused")
		}
	}
	if w.cfg.richProps {
		if p.a[4]%3 == 0 {
			wt.Props.SetInt(0x02, 1+uint32(p.a[5])*70000)
		}
		if p.a[4]%5 == 0 {
			wt.Props.SetStr(0x08, "r/"+strings.Repeat("q", p.a[5]%200))
		}
		if p.a[4]%7 == 0 {
			wt.Props.SetStr(0x09, "c\x00\x01\xff"+strings.Repeat("d", p.a[6]%140))
		}
		if p.a[4]%2 == 0 {
			wt.Props.SetStr(0x03, "ct"+strings.Repeat("e", p.a[6]%20))
		}
		if p.a[7]%3 == 0 {
			wt.Props.User = append(wt.Props.User, wire.KV{K: "k" + strings.Repeat("k", p.a[8]%60), V: strings.Repeat("v", p.a[9]%130)})
		}
		if p.a[7]%6 == 0 {
			wt.Props.User = append(wt.Props.User, wire.KV{K: "l", V: ""})
		}
		if p.a[7]%11 == 0 {
			wt.Props.SetInt(0x0B, uint32([]int{1, 127, 128, 16383, 16384, 268435455}[p.a[9]%6]))
		}
		if ca := cl.link.connack; ca != nil && cl.up && p.a[7]%4 == 1 && (q == 0 || w.cfg.sessions == 1) {
			if n := int(ca.Props.Int[0x22]); n > 0 {
				wt.Props.SetInt(0x23, uint32(1+p.a[9]%n))
			}
		}
	}
	if w.cfg.huge && p.a[4]%4 == 3 {
		h := func(prefix string) string { return hugeStr(w.W, prefix) }
		switch p.a[5] % 5 {
		case 0:
			wt.Props.SetStr(0x08, h("r/"))
		case 1:
			wt.Props.SetStr(0x09, h("c\x00"))
		case 2:
			wt.Props.SetStr(0x03, h("ct"))
		case 3:
			wt.Props.User = append(wt.Props.User, wire.KV{K: h("k"), V: h("v")})
		case 4:
			wt.Topic = h(wt.Topic + "/")
		}
		w.Stats.Probe("huge-string")
	}
	switch {
	case p.a[10]%41 == 7 && wt.Props.Int[0x23] == 0:
		o.badArg = "empty topic"
		wt.Topic = ""
	case p.a[10]%59 == 3 && q == 0:
		o.badArg = "DUP with QoS 0"
		pub.Duplicate, wt.Dup = true, true
	case p.a[10]%59 == 7 && q > 0:
		// the application has sent it before, by other means
		pub.Duplicate, wt.Dup = true, true
	case p.a[10]%59 == 4:
		o.badArg = "QoS 3"
		pub.QoS = packets.QoS(3 + p.a[11]%3)
	case p.a[10]%59 == 5:
		o.badArg = "wildcard in a topic name"
		wt.Topic += []string{"/+", "/#", "+", "#x"}[p.a[11]%4]
	case p.a[10]%59 == 6 && w.cfg.richProps:
		o.badArg = "wildcard in the response topic"
		wt.Props.SetStr(0x08, []string{"r/+", "#", "r/#/a", "+r"}[p.a[11]%4])
	case p.a[10]%61 == 7 && w.cfg.richProps:
		o.badArg = "topic longer than 65535 bytes"
		wt.Topic += strings.Repeat("x", 65530+p.a[11]%20)
		if len(wt.Topic) <= 65535 {
			o.badArg = ""
		}
	case p.a[10]%61 == 8 && w.cfg.richProps:
		o.badArg = "user property longer than 65535 bytes"
		wt.Props.User = append(wt.Props.User, wire.KV{K: "big", V: strings.Repeat("y", 70000)})
	}
	fillPublish(pub, wt)
	o.want, o.pub, o.auto = wt, pub, q > 0
	if q > 0 && (p.a[12]%9 == 0 || w.prop == "C20" && cl.idx > 0 && p.a[12]%3 == 0) && p.a[11] != 0 {
		// the application chooses the identifier, as it may
		id := uint16(30000 + o.N)
		if cl.idx > 0 && w.store != nil && (w.prop == "C20" || w.prop == "C09" || w.prop == "C17" && p.a[11]%2 == 0) {
			// perhaps one under which something is stored
			for _, k := range sortedIDs(w.store.m) {
				if kind := w.store.kind(k); (kind == "publish" || kind == "pubrel") && (id >= 30000 || p.a[10]%3 == 0) {
					id, o.clash = k, kind
					pub.Duplicate = kind == "pubrel" && p.a[11]%4 < 2 && w.cfg.workers == 1 // nobody else can put a publish there meanwhile
				}
			}
			wt.Dup = pub.Duplicate
			if o.clash != "" {
				w.Stats.Probe("identifier-of-a-stored-message")
			}
		} else if (w.prop == "C17" || w.prop == "C07") && p.a[11]%3 > 0 {
			// perhaps one that is in use
			for i, x := range cl.conn.outP {
				if x.P != nil && x.P.ID != 0 && x.Op != nil && !x.Reply && (x.P.Type == wire.PUBLISH || x.P.Type == wire.SUBSCRIBE || x.P.Type == wire.UNSUBSCRIBE) && (!x.acked || i%4 == 0) {
					id = x.P.ID
				}
			}
			if id < 30000 {
				w.Stats.Probe("identifier-chosen-twice")
			}
		}
		if w.cfg.workers == 1 && w.store == nil && w.cfg.rng > 0 && p.a[10]%3 == 0 {
			// perhaps one the client has chosen before, or would choose next
			id = []uint16{1, 2, 3, 4, 5, 65533, 65534, 65535}[p.a[9]%8]
			w.Stats.Probe("identifier-of-the-client")
		}
		pub.PacketIdentifier = primitives.PrimitiveUint16(id)
		wt.ID, o.auto = id, false
	}
	if q > 0 && p.id != 0 {
		pub.PacketIdentifier = primitives.PrimitiveUint16(p.id)
		wt.ID, o.auto = p.id, false
	}
	ctx, done := o.ctx(p.ctx)
	o.start()
	err := cl.c.Publish(ctx, pub)
	o.end(err)
	done()
}

// republish sends a stored, unacknowledged message again on a new connection.
func (cl *Client) republish(prev *Op) *Op {
	w := cl.w
	o := cl.begin("Publish")
	wt := *prev.want
	wt.Dup = true
	wt.ID = uint16(prev.pub.PacketIdentifier)
	o.want, o.redo, o.badArg = &wt, prev, prev.badArg
	o.had = w.store.kind(wt.ID) == "publish"
	pub := &packets.Publish{QoS: packets.QoS(wt.QoS), Retain: wt.Retain, Duplicate: true, PacketIdentifier: primitives.PrimitiveUint16(wt.ID)}
	fillPublish(pub, &wt)
	if w.store.disk != nil && wt.ID%2 == 0 {
		// the very packet the storage restores
		v, err := unmarshal(w.store.disk[wt.ID])
		if p, ok := v.(*packets.Publish); ok && err == nil {
			pub = p
			pub.Duplicate = true
		}
	}
	o.pub = pub
	w.Stats.Probe("republish")
	cs := ctxSpec{}
	if k := w.W.Intn(4); k == 3 {
		cs = ctxSpec{1, []int{1, 20, 300, 3000}[w.W.Intn(4)]}
	}
	ctx, done := o.ctx(cs)
	o.start()
	err := cl.c.Publish(ctx, pub)
	o.end(err)
	done()
	return o
}

// reusable finds a publish of the same task that is over.
func (cl *Client) reusable(o *Op) *Op {
	w := cl.w
	for _, x := range w.ops {
		if x.Kind != "Publish" || x.Cl != cl || x.Task != o.Task || x.live() || x.Err != nil || x.redo != nil || x.pub == nil || x.reused || len(x.pkts) != 1 {
			continue
		}
		if x.want.QoS > 0 && (!x.pkts[0].acked || w.store != nil && w.store.kind(x.pkts[0].P.ID) != "") {
			continue
		}
		x.reused = true
		return x
	}
	return nil
}

func fillPublish(pub *packets.Publish, wt *wire.Packet) {
	pub.Topic = primitives.PrimitiveString(wt.Topic)
	pub.Payload, pub.UserProperties = nil, nil
	if n := len(wt.Payload); n > 0 {
		pub.Payload = []byte(wt.Payload)
		if n%3 == 1 {
			// the payload is written into place
			pub.Payload = make([]byte, n)
			pub.Reset()
			for rest, step := []byte(wt.Payload), 1+n/3; len(rest) > 0; {
				if step > len(rest) {
					step = len(rest)
				}
				k, err := pub.Write(rest[:step])
				if k <= 0 || err != nil {
					break
				}
				rest = rest[k:]
			}
			pub.Reset()
		}
	}
	pub.MessageExpiryInterval = primitives.PrimitiveUint32(wt.Props.Int[0x02])
	pub.SubscriptionIdentifier = primitives.VariableByteInt(wt.Props.Int[0x0B])
	pub.TopicAlias = primitives.PrimitiveUint16(wt.Props.Int[0x23])
	pub.ResponseTopic = primitives.PrimitiveString(wt.Props.Str[0x08])
	pub.CorrelationData = primitives.PrimitiveString(wt.Props.Str[0x09])
	pub.ContentType = primitives.PrimitiveString(wt.Props.Str[0x03])
	for _, u := range wt.Props.User {
		if pub.UserProperties == nil {
			pub.UserProperties = primitives.PrimitiveStringMap{}
		}
		pub.UserProperties[primitives.PrimitiveString(u.K)] = primitives.PrimitiveString(u.V)
	}
}

var filters = []string{"a/b", "a/+", "#", "a/#", "+/b", "+/bc", "/+", "a/+/c", "+", "b/#", "c/d/#", "xy", "+/+", "a//c", "sensors/+/temp", "$share/g/a/+",
	"sensors/#", "+/b/#", "$SYS/#", "a/b/c", "a/b/#", "/#", "b", "+/", "$share/grp/#"}

var manyFilters = []int{60, 124, 127, 128, 129, 253, 255, 256, 257, 258, 300}

func (cl *Client) subscribe(p plan) {
	w := cl.w
	n := 1 + p.a[0]%3
	if p.a[0]%7 == 0 {
		n = 1
	}
	o := &Op{}
	var subs []subWant
	var tops []mqtt.Topic
	var shared *Chan
	if w.cfg.many && p.a[13]%6 == 0 {
		// a request with hundreds of filters, most of which nothing matches
		for i := manyFilters[p.a[12]%len(manyFilters)]; i > n; i-- {
			var t mqtt.Topic
			sw := subWant{filter: fmt.Sprintf("many/%d/%d", p.a[11]%3, i)}
			sw.opts = cl.setTopic(&t, sw.filter, p.a[10]+i)
			subs, tops = append(subs, sw), append(tops, t)
		}
		w.Stats.Probe("subscribe-many")
	}
	for i := 0; i < n; i++ {
		f := w.cfg.filters[p.a[1+i]%len(w.cfg.filters)]
		var t mqtt.Topic
		sw := subWant{filter: f}
		sw.opts = cl.setTopic(&t, f, p.a[4+i])
		switch (p.a[7+i] / 3) % 5 {
		case 0, 1, 2:
			if p.a[7+i]%3 == 0 && shared != nil {
				sw.ch = shared
			} else {
				sw.ch = cl.newChan(4096, 0)
				if w.cfg.smallChan && p.a[7+i]%4 == 1 {
					// a bound channel nobody reads
					sw.ch = cl.newChan(p.a[7+i]%3, 1)
				}
				shared = sw.ch
			}
		case 3:
			// a channel that is already in use
			if c := cl.pickChan(p.a[10]); c != nil {
				sw.ch = c
			}
		}
		if sw.ch != nil {
			t.SetEventChannel(sw.ch.ev)
		}
		subs = append(subs, sw)
		tops = append(tops, t)
	}
	bad := ""
	if k := p.a[11] % 41; k == 4 {
		bad, subs, tops = "no filters", nil, nil
	} else if k < 4 {
		t, s := &tops[p.a[12]%n], &subs[p.a[12]%n]
		switch k {
		case 0:
			bad, s.filter = "empty filter", ""
			t.SetFilter("")
		case 1:
			bad, s.filter = "filter longer than 65535 bytes", strings.Repeat("f/", 32768)
			t.SetFilter(s.filter)
		case 2:
			bad = "subscription with QoS 3"
			t.SetQoS(packets.QoS([]int{3, 4, 255}[p.a[13]%3]))
		case 3:
			bad = "retain handling 3"
			t.SetRetainHandling(packets.RetainHandlingOption([]int{3, 4, 255}[p.a[13]%3]))
		}
	}
	o = cl.begin("Subscribe")
	o.subs, o.badArg = subs, bad
	o.want = &wire.Packet{Type: wire.SUBSCRIBE}
	for _, s := range subs {
		o.want.Subs = append(o.want.Subs, wire.Sub{Filter: s.filter, Opts: s.opts})
		if s.ch != nil {
			s.ch.subs = append(s.ch.subs, o)
		}
	}
	o.auto = true
	ctx, done := o.ctx(p.ctx)
	o.start()
	err := cl.c.Subscribe(ctx, tops)
	if err == nil {
		for _, s := range subs {
			cl.filters = append(cl.filters, s.filter)
		}
	}
	o.end(err)
	done()
}

// setTopic calls the setters of a subscription in some order, some of them more than once, and returns the options that
// must result.
func (cl *Client) setTopic(t *mqtt.Topic, f string, k int) (opts byte) {
	share := strings.HasPrefix(f, "$share")
	filter := func() {
		t.SetFilter(f)
		if share {
			opts &^= 4
		}
	}
	at := k % 9 // when the filter is set; 8: first
	k /= 9
	n := 3 + k%6
	k /= 6
	h := simrt.Mix(uint64(k), 77)
	set := false
	if at == 8 {
		filter()
		set = true
	}
	for i := 0; i < n; i++ {
		h = simrt.Mix(h, uint64(i))
		if i == at {
			filter()
			set = true
		}
		switch v := byte(h >> 8); h % 4 {
		case 0:
			v %= 3
			t.SetQoS(packets.QoS(v))
			opts = opts&^3 | v
		case 1:
			v %= 2
			t.SetNoLocal(v == 1)
			opts &^= 4
			if v == 1 && !(set && share) {
				opts |= 4
			}
		case 2:
			v %= 2
			t.SetRetainAsPublished(v == 1)
			opts = opts&^8 | v<<3
		case 3:
			v %= 3
			t.SetRetainHandling(packets.RetainHandlingOption(v))
			opts = opts&^0x30 | v<<4
		}
	}
	if !set {
		filter()
	}
	return opts
}

func (cl *Client) pickChan(k int) *Chan {
	var open []*Chan
	for _, c := range cl.chans {
		if !c.isMon && c.close == nil && !c.busy {
			open = append(open, c)
		}
	}
	if len(open) == 0 {
		return nil
	}
	return open[k%len(open)]
}

func (cl *Client) unsubscribe(p plan) {
	o := cl.begin("Unsubscribe")
	n := 1 + p.a[0]%2
	for i := 0; i < n; i++ {
		if len(cl.filters) > 0 && p.a[1+i]%5 != 0 {
			o.topics = append(o.topics, cl.filters[p.a[3+i]%len(cl.filters)])
		} else {
			o.topics = append(o.topics, cl.w.cfg.filters[p.a[3+i]%len(cl.w.cfg.filters)])
		}
	}
	if cl.w.cfg.many && p.a[13]%6 == 0 {
		for i := manyFilters[p.a[12]%len(manyFilters)]; i > n; i-- {
			o.topics = append(o.topics, fmt.Sprintf("many/%d/%d", p.a[10]%3, i))
		}
		n = len(o.topics)
		cl.w.Stats.Probe("unsubscribe-many")
	}
	if k := p.a[11] % 41; k < 2 {
		o.badArg = []string{"empty filter", "filter longer than 65535 bytes"}[k]
		o.topics[p.a[12]%n] = []string{"", strings.Repeat("f/", 32768)}[k]
	} else if k == 2 {
		o.badArg, o.topics = "no filters", nil
	}
	o.want = &wire.Packet{Type: wire.UNSUBSCRIBE}
	for _, t := range o.topics {
		o.want.Subs = append(o.want.Subs, wire.Sub{Filter: t})
	}
	o.auto = true
	ctx, done := o.ctx(p.ctx)
	o.start()
	err := cl.c.Unsubscribe(ctx, o.topics)
	o.end(err)
	done()
}

func (cl *Client) channelOp(p plan) {
	w := cl.w
	switch p.a[0] % 5 {
	case 0, 1:
		if cl.idx > 0 && p.a[1]%4 == 0 {
			// the application still holds a channel of the client it used before; closing it concerns nobody here
			old := w.clients[p.a[2]%cl.idx]
			w.Stats.Probe("close-foreign-channel")
			cl.c.CloseEventChannel(old.chans[p.a[3]%len(old.chans)].ev)
			return
		}
		cl.newChan(4096, 0)
	case 2:
		if w.cfg.smallChan {
			ch := cl.newChan(p.a[1]%5-1, 1+p.a[2]%2)
			if ch.mode == 2 {
				t := w.sim.Spawn(fmt.Sprintf("c%d.consumer%d", cl.idx, ch.n), true, func() { ch.consume(p.a[3] % 40) })
				t.Data = taskHarness
			}
		} else {
			cl.newChan(4096, 0)
		}
	default:
		if ch := cl.pickChan(p.a[1]); ch != nil {
			cl.closeChan(ch)
			if p.a[2]%4 == 0 { // closing again is harmless
				cl.closeChan(ch)
			}
		}
	}
}

func (ch *Chan) consume(delayMs int) {
	for {
		simrt.Await(ch.ev.C)
		v, ok, done := simrt.TryRecvRaw(ch.ev.C)
		if !done {
			continue
		}
		if !ok {
			ch.eof = true
			ch.eofSeq = ch.cl.w.sim.NextSeq()
			return
		}
		ch.add(v)
		simrt.Sleep(int64(delayMs) * ms)
	}
}

func (cl *Client) closeChan(ch *Chan) {
	o := cl.begin("CloseEventChannel")
	o.ch = ch
	if ch.close == nil {
		ch.close = o
	}
	ch.closes++
	o.start()
	cl.c.CloseEventChannel(ch.ev)
	o.end(nil)
}

func (cl *Client) keepAlive() {
	o := cl.begin("KeepAlive")
	o.want = &wire.Packet{Type: wire.PINGREQ}
	o.start()
	o.end(cl.c.KeepAlive())
}

func (cl *Client) isConnected() bool {
	o := cl.begin("IsConnected")
	o.start()
	o.bval = cl.c.IsConnected()
	o.end(nil)
	return o.bval
}

func (cl *Client) keepAliveInterval() int64 {
	o := cl.begin("KeepAliveInterval")
	o.start()
	o.dval = int64(cl.c.KeepAliveInterval())
	o.end(nil)
	return o.dval
}

func (cl *Client) disconnect(p plan) *Op {
	o := cl.begin("Disconnect")
	will := p.a[0]%3 == 0
	exp := 0
	if p.a[1]%2 == 0 {
		exp = []int{1, 100, 70000, 255, 256, 1 << 16, 1 << 24, 1<<32 - 1}[p.a[2]%8]
	}
	o.want = &wire.Packet{Type: wire.DISCONNECT}
	if will {
		o.want.Reason = 4
	}
	if exp > 0 && cl.connect != nil && cl.connect.want.Props.Int[0x11] != 0 {
		o.want.Props.SetInt(0x11, uint32(exp))
	}
	ctx, done := o.ctx(p.ctx)
	o.start()
	cl.discs = append(cl.discs, o)
	var err error
	if exp > 0 {
		err = cl.c.DisconnectWithSessionExpiry(ctx, will, exp)
	} else {
		err = cl.c.Disconnect(ctx, will)
	}
	if err == nil && cl.discOp == nil {
		cl.discOp = o
	}
	o.end(err)
	done()
	return o
}

// connectPacket draws a CONNECT packet and what it has to look like on the wire.
func (w *World) connectPacket(mayClean bool) (*packets.Connect, *wire.Packet) {
	s := w.W
	wt := &wire.Packet{Type: wire.CONNECT, Version: 5, ClientID: w.clientID, KeepAlive: uint16(w.cfg.ka)}
	pk := &packets.Connect{Version: packets.MQTT5, KeepAlive: primitives.PrimitiveUint16(w.cfg.ka)}
	if mayClean && s.Chance(1, 3) {
		pk.CleanSession = true
		wt.ConnFlags |= 2
	}
	if w.cfg.cliRM > 0 {
		pk.ReceiveMaximum = primitives.PrimitiveUint16(w.cfg.cliRM)
		wt.Props.SetInt(0x21, uint32(w.cfg.cliRM))
	}
	if w.cfg.sessions > 1 || s.Chance(1, 2) {
		n := []uint32{3600, 1 << 16, 1 << 24, 1, 255, 256, 1<<32 - 1}[s.Pick(6, 1, 1, 1, 1, 1, 1)]
		if w.cfg.sessions > 1 {
			n = max(n, 3600)
		}
		pk.SessionExpiryInterval = primitives.PrimitiveUint32(n)
		wt.Props.SetInt(0x11, n)
	}
	if w.cfg.richProps {
		str := func(prefix string) string {
			if w.cfg.huge && s.Chance(1, 3) {
				return hugeStr(s, prefix)
			}
			return prefix + strings.Repeat("z", []int{0, 5, 60, 110, 118, 127, 200, 16400}[s.Intn(8)])
		}
		if s.Chance(1, 3) {
			pk.MaximumPacketSize = 1 << 24
			wt.Props.SetInt(0x27, 1<<24)
		}
		if s.Chance(1, 3) {
			n := []int{1, 2, 9, 65535}[s.Intn(4)]
			pk.TopicAliasMaximum = primitives.PrimitiveUint16(n)
			wt.Props.SetInt(0x22, uint32(n))
		}
		if s.Chance(1, 3) {
			pk.RequestResponseInformation = 1
			wt.Props.SetInt(0x19, 1)
		}
		if s.Chance(1, 3) {
			pk.RequestProblemInformation = 1
			wt.Props.SetInt(0x17, 1)
		}
		if s.Chance(1, 3) {
			m, d := str("m"), str("d")
			pk.AuthenticationMethod, pk.AuthenticationData = primitives.PrimitiveString(m), primitives.PrimitiveString(d)
			wt.Props.SetStr(0x15, m)
			wt.Props.SetStr(0x16, d)
		}
		for i := s.Intn(3); i > 0; i-- {
			k, v := fmt.Sprintf("u%d", i), str("")
			if pk.UserProperties == nil {
				pk.UserProperties = primitives.PrimitiveStringMap{}
			}
			pk.UserProperties[primitives.PrimitiveString(k)] = primitives.PrimitiveString(v)
			wt.Props.User = append(wt.Props.User, wire.KV{K: k, V: v})
		}
		if s.Chance(1, 3) {
			u := str("user")
			pk.Username = primitives.PrimitiveString(u)
			wt.HasUser, wt.User = true, u
			wt.ConnFlags |= 128
		}
		if s.Chance(1, 3) {
			u := str("pass\x00")
			pk.Password = primitives.PrimitiveString(u)
			wt.HasPass, wt.Pass = true, u
			wt.ConnFlags |= 64
		}
		if s.Chance(1, 2) {
			wt.HasWill = true
			wt.ConnFlags |= 4
			wt.WillTopic, wt.WillMsg = "will/t", str([]string{"gone", "gone", ""}[s.Intn(3)])
			pk.WillTopic, pk.Will = "will/t", primitives.PrimitiveString(wt.WillMsg)
			if s.Chance(1, 2) {
				pk.WillRetain, wt.WillRet = true, true
				wt.ConnFlags |= 32
			}
			wt.WillQoS = byte(s.Intn(3))
			pk.WillQos = packets.QoS(wt.WillQoS)
			wt.ConnFlags |= wt.WillQoS << 3
			wt.WillProps.SetInt(0x01, 0)
			if s.Chance(1, 2) {
				pk.WillDelayInterval = 70000
				wt.WillProps.SetInt(0x18, 70000)
			}
			if s.Chance(1, 2) {
				pk.WillMessageExpiryInterval = 99
				wt.WillProps.SetInt(0x02, 99)
			}
			if s.Chance(1, 2) {
				v := str("ct")
				pk.WillContentType = primitives.PrimitiveString(v)
				wt.WillProps.SetStr(0x03, v)
			}
			if s.Chance(1, 2) {
				v := str("rt")
				pk.WillResponseTopic = primitives.PrimitiveString(v)
				wt.WillProps.SetStr(0x08, v)
			}
			if s.Chance(1, 2) {
				v := str("cd\x00")
				pk.WillCorrelationData = primitives.PrimitiveString(v)
				wt.WillProps.SetStr(0x09, v)
			}
			if s.Chance(1, 2) {
				v := str("")
				pk.WillUserProperties = primitives.PrimitiveStringMap{"wk": primitives.PrimitiveString(v)}
				wt.WillProps.User = append(wt.WillProps.User, wire.KV{K: "wk", V: v})
			}
		}
	}
	pk.ClientId = primitives.PrimitiveString(wt.ClientID)
	return pk, wt
}

// doConnect sends CONNECT with drawn parameters.
func (cl *Client) doConnect(again bool) *Op {
	w, s := cl.w, cl.w.W
	o := cl.begin("Connect")
	pk, wt := w.connPk, w.connWant
	if pk == nil || !w.cfg.sameConnect {
		pk, wt = w.connectPacket(cl.idx == 0 && !again && w.cfg.sessions == 1)
		w.connPk, w.connWant = pk, wt
	} else {
		w.Stats.Probe("connect-packet-reused")
	}
	o.want = wt
	cs := ctxSpec{1, []int{15000, 15000, 8000, 4000}[s.Intn(4)]}
	if w.cfg.connackBad == 0 && s.Chance(1, 4) {
		cs = ctxSpec{}
	}
	if again {
		cs = ctxSpec{1, 3000}
	}
	ctx, done := o.ctx(cs)
	if !again {
		cl.connect = o
	}
	o.start()
	err := cl.c.Connect(ctx, pk)
	if err == nil && !again {
		cl.up = true
		cl.storedAtConnect = w.store.snap()
	}
	o.end(err)
	done()
	return o
}

// badConnect calls Connect with arguments that cannot be encoded. Nothing is sent, so the connection can still be used.
func (cl *Client) badConnect() bool {
	w := cl.w
	o := cl.begin("Connect")
	pk := &packets.Connect{Version: packets.MQTT5, ClientId: primitives.PrimitiveString(w.clientID), KeepAlive: 30}
	big := primitives.PrimitiveString(strings.Repeat("b", 65536+w.W.Intn(3)))
	switch w.W.Intn(11) {
	case 0:
		o.badArg, pk.Will = "will without topic", "gone"
	case 1:
		o.badArg, pk.Will, pk.WillTopic, pk.WillQos = "will with QoS 3", "gone", "will/t", packets.QoS(3+w.W.Intn(2))
	case 2:
		o.badArg, pk.Will, pk.WillTopic = "will with a wildcard topic", "gone", "will/#"
	case 3:
		o.badArg, pk.AuthenticationData = "authentication data without method", "d"
	case 4:
		o.badArg, pk.RequestResponseInformation = "request response information 2", 2
	case 5:
		o.badArg, pk.RequestProblemInformation = "request problem information 2", 2
	case 6:
		o.badArg, pk.ClientId = "client identifier longer than 65535 bytes", big
	case 7:
		o.badArg, pk.Username = "user name longer than 65535 bytes", big
	case 8:
		o.badArg, pk.WillTopic, pk.Will = "will longer than 65535 bytes", "will/t", big
	case 9:
		o.badArg, pk.UserProperties = "user property longer than 65535 bytes", primitives.PrimitiveStringMap{"k": big}
	case 10:
		o.badArg, pk.WillTopic, pk.WillResponseTopic = "will with a wildcard response topic", "will/t", "r/+"
	}
	o.want = &wire.Packet{Type: wire.CONNECT}
	ctx, done := o.ctx(ctxSpec{1, 3000})
	o.start()
	err := cl.c.Connect(ctx, pk)
	o.end(err)
	done()
	return err != nil && !cl.conn.closed
}

// ---- life of one client ---------------------------------------------------------------------------------------------

func (cl *Client) spawn(name string, f func()) *simrt.Task {
	t := cl.w.sim.Spawn(fmt.Sprintf("c%d.%s", cl.idx, name), false, f)
	t.Data = cl
	cl.tasks = append(cl.tasks, t)
	return t
}

func (w *World) pollTimeout() int64 {
	if w.phase >= 2 {
		return 500 * ms
	}
	d := []int64{10, 50, 200, 1000, 3000}[w.cfg.pollClass] * ms
	if min := w.cfg.runFor / 150; d < min {
		d = min
	}
	return d
}

func (cl *Client) pollLoop() {
	w := cl.w
	for !cl.stopPoll {
		o := cl.begin("Poll")
		cs := ctxSpec{1, int(w.pollTimeout() / ms)}
		if cl.pollNoDL {
			cs = ctxSpec{}
		}
		ctx, done := o.ctx(cs)
		o.start()
		err := cl.c.Poll(ctx)
		o.end(err)
		done()
		cl.polls = append(cl.polls, o)
		cl.readPayloads()
		if err != nil && !errors.Is(err, errStore) {
			cl.pollErr = o
			if w.W.Chance(1, 2) {
				return
			}
			// the application polls once more before it notices
			o := cl.begin("Poll")
			ctx, done := o.ctx(ctxSpec{1, 100})
			o.start()
			err := cl.c.Poll(ctx)
			o.end(err)
			done()
			cl.polls = append(cl.polls, o)
			return
		}
		if w.cfg.pollGap > 0 && w.phase < 2 {
			simrt.Sleep(int64(w.cfg.pollGap) * ms)
		}
	}
}

// readPayloads reads the payloads of the messages that have been delivered through their reader interface.
func (cl *Client) readPayloads() {
	for ; cl.payloadAt < len(cl.mon.got); cl.payloadAt++ {
		e := cl.mon.got[cl.payloadAt]
		p, ok := e.Ev.Data.(*packets.Publish)
		if !ok || e.P == nil {
			continue
		}
		for round := 0; round < 2; round++ {
			var got []byte
			buf := make([]byte, 1+len(e.P.Payload)*(1+len(e.P.Topic)%3)/3)
			for {
				n, err := p.Read(buf)
				got = append(got, buf[:n]...)
				if errors.Is(err, io.EOF) {
					break
				}
				if n <= 0 || err != nil || len(got) > len(e.P.Payload) {
					break
				}
			}
			if string(got) != e.P.Payload {
				cl.w.violate("C03", "payload-reader", "reading the payload of %s yields %s", e.P, diff(string(got), e.P.Payload))
			}
			p.Reset()
		}
	}
}

func (cl *Client) kaLoop() {
	w := cl.w
	iv := cl.kaEff
	if iv <= 0 {
		return
	}
	for {
		w.await("ping interval", iv, cl.quitting)
		if cl.quitting() {
			return
		}
		cl.keepAlive()
	}
}

func (cl *Client) quitting() bool {
	return cl.stopPoll || cl.pollErr != nil || cl.discOp != nil || cl.quit
}

func (cl *Client) worker(k int, ps []plan) {
	for _, p := range ps {
		if cl.stopping || cl.pollErr != nil && cl.w.W.Chance(1, 2) {
			return
		}
		cl.exec(p)
	}
}

// allDone reports whether the given tasks have ended.
func allDone(ts []*simrt.Task) bool {
	for _, t := range ts {
		if !t.Done() {
			return false
		}
	}
	return true
}

// await blocks the current task until f holds or d has passed.
func (w *World) await(why string, d int64, f func() bool) bool {
	end := w.sim.Now() + d
	w.sim.At(end, func() {})
	simrt.Block(why, func() bool { return f() || w.sim.Now() >= end || w.sim.Stopped() })
	return f()
}

func (w *World) start() {
	w.broker = newBroker(w)
	w.clientID = "client-1"
	if w.cfg.richProps && w.W.Chance(1, 3) {
		w.clientID += "-" + strings.Repeat("z", []int{0, 5, 60, 110, 118, 127, 200, 16400}[w.W.Intn(8)])
	}
	w.sim.OnStep = w.observe
	w.ctl = w.sim.Spawn("ctl", false, func() {
		if w.cfg.linear {
			w.linearMain()
			return
		}
		if w.cfg.codec {
			w.codecMain()
			return
		}
		for i := 0; i < w.cfg.sessions; i++ {
			last := i == w.cfg.sessions-1
			cl := w.newClient()
			cl.run(last)
			if w.sim.Stopped() {
				return
			}
			if !last {
				cl.retire()
			}
		}
	})
}

// precheck calls the API before Connect: nothing may be sent.
func (cl *Client) precheck() {
	w := cl.w
	if !w.W.Chance(1, 4) {
		return
	}
	p := w.drawPlan()
	p.ctx = ctxSpec{1, 50}
	cl.finalCall(w.W.Intn(7), p)
}

// finalCall makes one call that must be refused.
func (cl *Client) finalCall(k int, p plan) {
	w := cl.w
	n := len(w.ops)
	switch k {
	case 0:
		cl.publish(p)
	case 1:
		cl.subscribe(p)
	case 2:
		cl.unsubscribe(p)
	case 3:
		cl.keepAlive()
	case 4:
		cl.disconnect(p)
	case 5:
		o := cl.begin("Poll")
		ctx, done := o.ctx(ctxSpec{1, 50})
		o.start()
		o.end(cl.c.Poll(ctx))
		done()
	case 6:
		cl.isConnected()
	}
	for _, o := range w.ops[n:] {
		switch o.Kind {
		case "CreateEventChannel", "CloseEventChannel":
		default:
			cl.finalOps = append(cl.finalOps, o)
		}
	}
}

func (cl *Client) run(last bool) {
	w := cl.w
	cl.precheck()
	for i := 0; i < w.cfg.early; i++ {
		var ps []plan
		for j := 1 + w.W.Intn(3); j > 0; j-- {
			p := w.drawPlan()
			if w.prop != "C13" || w.W.Chance(1, 2) {
				p.kind = []string{"IsConnected", "Interval", "Channel", "Set"}[w.W.Intn(4)]
			}
			if p.ctx.kind == 0 {
				p.ctx = ctxSpec{1, 4000}
			}
			if p.kind != "Disconnect" {
				ps = append(ps, p)
			}
		}
		t := cl.spawn(fmt.Sprintf("early%d", i), func() {
			simrt.Sleep(int64(w.W.Intn(30)) * ms)
			cl.worker(100+i, ps)
		})
		defer func() {
			if !w.sim.Stopped() && !t.Done() && !cl.crashed {
				w.await("early calls to end", 60*sec, t.Done)
			}
		}()
	}
	if w.W.Chance(1, 8) && !cl.badConnect() {
		return
	}
	o := cl.doConnect(false)
	if o.Err != nil {
		w.checkConnectFailed(cl, o)
		return
	}
	cl.kaKnown = true
	cl.kaEff = int64(w.cfg.ka) * sec
	if w.cfg.srvKA > 0 {
		cl.kaEff = int64(w.cfg.srvKA) * sec
	} else if w.cfg.srvKA < 0 {
		cl.kaEff = 0
	}
	if got := cl.keepAliveInterval(); got != cl.kaEff && !cl.hostile {
		w.violate("C10", "interval", "KeepAliveInterval is %v, want %v (CONNECT %ds, CONNACK %ds)", secs(got), secs(cl.kaEff), w.cfg.ka, w.cfg.srvKA)
	}
	if !cl.isConnected() && !cl.conn.closed {
		w.violate("C14", "not-connected", "IsConnected is false after Connect returned nil on a working connection")
	}
	if w.cfg.connAgain {
		o := cl.doConnect(true)
		if o.Err == nil {
			w.violate("C14", "connect-twice", "a second Connect on a connected client returned nil")
		}
	}
	cl.pollNoDL = w.cfg.workers == 0
	pt := cl.spawn("poll", cl.pollLoop)
	var ws []*simrt.Task
	if w.cfg.kaApp && !cl.pollNoDL {
		cl.spawn("ping", cl.kaLoop)
	}
	if cl.idx > 0 && w.cfg.republish && w.store != nil {
		var todo []*Op
		for _, op := range w.ops {
			if op.Kind == "Publish" && op.Cl != cl && op.redo == nil && op.pub != nil && op.pub.QoS < 3 && w.storedOp(w.store.m[uint16(op.pub.PacketIdentifier)]) == op && op.want.QoS > 0 {
				todo = append(todo, op)
			}
		}
		ws = append(ws, cl.spawn("redo", func() {
			for _, op := range todo {
				if cl.pollErr != nil || cl.conn.closed {
					return
				}
				if w.store.kind(uint16(op.pub.PacketIdentifier)) != "publish" {
					continue
				}
				for try := 0; try < 3; try++ {
					x := cl.republish(op)
					if x.Err == nil || len(x.pkts) > 0 || x.badArg != "" || w.store.kind(uint16(op.pub.PacketIdentifier)) != "publish" || cl.conn.closed {
						break
					}
					// nothing was sent: the application tries again
					w.Stats.Probe("republish-again")
					simrt.Sleep(int64(1+w.W.Intn(40)) * ms)
				}
			}
		}))
	}
	for i := 0; i < w.cfg.workers; i++ {
		var ps []plan
		for j := 0; j < w.cfg.opsPer; j++ {
			ps = append(ps, w.drawPlan())
		}
		ws = append(ws, cl.spawn(fmt.Sprintf("w%d", i), func() { cl.worker(i, ps) }))
	}
	// a crash at an arbitrary point ends a session that is not the last one
	if !last && w.cfg.crash {
		at := int64(w.X.Intn(int(w.cfg.runFor/ms)))*ms + int64(w.X.Intn(1000))*1000
		w.await("crash point", at, func() bool { return false })
		cl.crash()
		return
	}
	workersDone := func() bool { return allDone(ws) }
	idle := func() bool {
		// everything the workers wanted is done; leave time for the feed
		return workersDone() && w.sim.Now() > o.RetT+w.cfg.feedWindow+2*sec || cl.pollErr != nil
	}
	dur := w.cfg.runFor
	w.await("phase A", dur, idle)
	cl.stopping = true
	// calls whose context ends must return by themselves, whatever the server holds back
	ctxBusy := func() bool {
		for _, x := range cl.cur {
			if x.Kind != "Poll" && (x.dl != never || x.cancelT != never) {
				return true
			}
		}
		return false
	}
	if cl.ctxChecked() {
		adv := w.sim.Cfg.AdvanceNum
		w.sim.Cfg.AdvanceNum = 0
		w.await("contexts to expire", cl.ctxBound()+5*sec, func() bool { return !ctxBusy() || cl.pollErr != nil })
		w.sim.Cfg.AdvanceNum = adv
		for _, x := range cl.liveOps() {
			t := x.dl
			if x.cancelT < t {
				t = x.cancelT
			}
			if x.Kind != "Poll" && t != never && w.sim.Now() > t+cl.ctxBound() && cl.pollErr == nil {
				w.violate("C11", "context-ignored", "%s is still blocked %v after its context ended (blocked on %s)", x.text(), secs(w.sim.Now()-t), x.Task.BlockedOn())
			}
		}
	}
	cl.slotCheck()
	if last {
		cl.settle(ws)
		cl.reuse()
	}
	if cl.pollErr != nil || cl.conn.closed || !last {
		// the connection is gone (or is abandoned): nothing may stay blocked
		if cl.pollErr == nil && !cl.conn.closed {
			switch w.X.Intn(2) {
			case 0:
				w.log("transport fails")
				cl.conn.cutRST = true
				cl.conn.breakNow()
			case 1:
				p := w.drawPlan()
				p.ctx = ctxSpec{1, 5000}
				cl.disconnect(p)
				if !cl.conn.closed {
					// it could not be sent
					cl.conn.cutRST = true
					cl.conn.breakNow()
				}
			}
		}
		cl.unstall()
		cl.quit = true
		w.sim.Cfg.AdvanceNum = 0
		w.sim.Cfg.MaxSteps = w.sim.Steps + max(120_000, w.cfg.sched.MaxSteps)
		ok := w.await("calls to return after the connection was lost", 90*sec, func() bool { return allDone(cl.tasks) })
		if !ok && !w.sim.Stopped() {
			for _, x := range cl.liveOps() {
				w.violate("C11", "stuck-after-loss", "%s is still blocked %v after the connection was lost (blocked on %s)", x.text(), "90s", x.Task.BlockedOn())
			}
		}
	} else if last && (w.cfg.lateDisc || cl.pollNoDL) && allDone(ws) {
		if cl.pollNoDL {
			cl.conn.srvClose(false)
		} else {
			p := w.drawPlan()
			p.ctx = ctxSpec{1, 5000}
			cl.disconnect(p)
		}
		w.await("poll to end", 60*sec, pt.Done)
	}
	cl.stopPoll = true
	w.await("poll to stop", 60*sec, pt.Done)
	if !pt.Done() && !w.sim.Stopped() {
		for _, x := range cl.liveOps() {
			w.violate("C11", "poll-stuck", "%s does not return (blocked on %s)", x.text(), x.Task.BlockedOn())
		}
	}
	for _, t := range cl.tasks {
		if t.Done() {
			simrt.Join(t)
		}
	}
	if w.sim.Stopped() || !pt.Done() {
		return
	}
	// terminal state
	if cl.pollErr != nil || cl.discOp != nil {
		n := 1 + w.W.Intn(3)
		for i := 0; i < n; i++ {
			p := w.drawPlan()
			p.ctx = ctxSpec{1, 200}
			cl.finalCall(w.W.Intn(7), p)
		}
		if cl.isConnected() {
			w.violate("C16", "still-connected", "IsConnected is true after %s", cl.endText())
		}
	}
	cl.finalDrain()
}

// slotCheck: a Publish is not held back while the server would accept it, whatever else is unacknowledged.
func (cl *Client) slotCheck() {
	w := cl.w
	if !cl.ctxChecked() || !cl.strict() {
		return
	}
	max := w.cfg.srvRM
	if max == 0 {
		max = 65535
	}
	n := 0
	free := func() *Op {
		n = 0
		for _, x := range cl.conn.outP {
			if x.P != nil && x.To != 0 && x.P.Type == wire.PUBLISH && x.P.QoS > 0 && !x.acked {
				n++
			}
		}
		for _, x := range cl.liveOps() {
			if x.Kind == "Publish" && len(x.pkts) == 0 && x.badArg == "" && (x.want.QoS == 0 || n < max) {
				return x
			}
		}
		return nil
	}
	adv := w.sim.Cfg.AdvanceNum
	w.sim.Cfg.AdvanceNum = 0
	defer func() { w.sim.Cfg.AdvanceNum = adv }()
	for i := 0; i < 30; i++ {
		x := free()
		if x == nil {
			return
		}
		k := len(cl.conn.outP)
		over := func() bool {
			return free() != x || len(cl.conn.outP) != k || cl.pollErr != nil || cl.lostBefore(w.sim.NextSeq())
		}
		if !w.await("a publish to use a free slot", cl.ctxBound()+5*sec, over) && !w.sim.Stopped() {
			cl.starved("held-back", "%s is held back although only %d PUBLISH packets are unacknowledged and the server's Receive Maximum is %d (blocked on %s)", x.text(), n, max, x.Task.BlockedOn())
			return
		}
		if cl.pollErr != nil || cl.lostBefore(w.sim.NextSeq()) {
			return
		}
	}
}

func (cl *Client) endText() string {
	if cl.pollErr != nil {
		return "Poll returned " + errText(cl.pollErr.Err)
	}
	return "Disconnect returned nil"
}

func secs(ns int64) string { return fmt.Sprintf("%.3fs", float64(ns)/1e9) }

// ctxChecked reports whether the bound on calls with a context is meaningful in this run.
func (cl *Client) ctxChecked() bool {
	return cl.w.cfg.stall == 0 && !cl.w.cfg.overStall && cl.w.cfg.storeFault == 0 && !cl.pollNoDL && !cl.hostile
}

// ctxBound is the time within which a call returns once its context is over: it may have to wait for the connection,
// which Poll and the other callers hold in turn.
func (cl *Client) ctxBound() int64 {
	w := cl.w
	b := int64(w.cfg.workers+3)*(w.pollTimeout()+int64(w.cfg.pollGap)*ms+100*ms) + sec
	if w.cfg.gapMax > 0 || w.cfg.lull {
		b += 31 * sec
	}
	return b
}

func (cl *Client) liveOps() (out []*Op) {
	for _, t := range cl.tasks {
		if o := cl.cur[t]; o != nil && o.live() {
			out = append(out, o)
		}
	}
	return
}

func (cl *Client) unstall() {
	c := cl.conn
	c.stallAt, c.stallEnd = -1, 0
}

// settle is phase B: the faults stop, and everything must finish.
func (cl *Client) settle(ws []*simrt.Task) {
	w := cl.w
	w.log("faults stop")
	if w.cfg.bulk > 0 {
		pub, req, in := 0, 0, 0
		for _, x := range cl.conn.outP {
			switch {
			case x.P == nil || x.acked:
			case x.P.Type == wire.PUBLISH && x.P.QoS > 0:
				pub++
			case x.P.Type == wire.SUBSCRIBE || x.P.Type == wire.UNSUBSCRIBE:
				req++
			}
		}
		in = len(cl.link.sess.out)
		for _, n := range []int{30, 60, 100, 250} {
			if pub > n {
				w.Stats.Probe(fmt.Sprintf("open-publishes>%d", n))
			}
			if req > n {
				w.Stats.Probe(fmt.Sprintf("open-requests>%d", n))
			}
			if in > n {
				w.Stats.Probe(fmt.Sprintf("open-received>%d", n))
			}
		}
	}
	w.phase = 2
	cl.unstall()
	cl.link.silent = false
	for _, f := range w.held {
		f()
	}
	w.held = nil
	w.sim.Cfg.MaxSteps = w.sim.Steps + max(150_000, w.cfg.sched.MaxSteps)
	w.sim.Cfg.AdvanceNum = 0
	var began []*Op
	for _, x := range cl.liveOps() {
		if x.Kind != "Poll" {
			began = append(began, x)
		}
	}
	returned := func() bool {
		for _, x := range began {
			if x.live() {
				return false
			}
		}
		return true
	}
	w.await("the calls to finish once faults have stopped", 100*sec, func() bool {
		return allDone(ws) && returned() && cl.drained() || cl.pollErr != nil && allDone(ws)
	})
	if w.sim.Stopped() || cl.pollErr != nil || cl.hostile {
		return
	}
	for _, x := range cl.liveOps() {
		if x.Kind == "Poll" && x.dl != never && w.sim.Now() > x.dl+60*sec {
			w.violate("C11", "poll-stuck", "%s has not returned %s after its deadline although every fault has stopped (blocked on %s)", x.text(), secs(w.sim.Now()-x.dl), x.Task.BlockedOn())
		}
	}
	if cl.conn.closed || cl.lostBefore(w.sim.NextSeq()) {
		return
	}
	for _, x := range cl.liveOps() {
		if x.Kind != "Poll" && x.InvT < w.sim.Now()-60*sec {
			w.stuck(x)
		}
	}
	cl.o.settled = w.sim.NextSeq()
	cl.o.drained = cl.drained()
	for _, ip := range cl.conn.in {
		if ip.Arrived && ip.ReadSeq == 0 && ip.ArrivedT < w.sim.Now()-5*sec {
			cl.unreadAtSettle += ip.To - ip.From
		}
	}
}

// reuse publishes under identifiers the client chose before, for exchanges that ended or never began.
func (cl *Client) reuse() {
	w := cl.w
	for i := 0; i < w.cfg.again; i++ {
		w.await("the connection to be quiet", 3*sec, func() bool { return false })
		if w.sim.Stopped() || !cl.strict() || w.store != nil || len(cl.liveOps()) > 1 || !cl.drained() || cl.pollErr != nil || cl.conn.closed || cl.lostBefore(w.sim.NextSeq()) {
			return
		}
		p := w.drawPlan()
		p.ctx = ctxSpec{1, 5000}
		p.id = uint16(1 + w.W.Intn(12))
		w.Stats.Probe("identifier-reused")
		cl.publish(p)
	}
	if w.cfg.again > 0 && cl.pollErr == nil {
		w.await("the exchanges to end", 20*sec, func() bool { return cl.drained() || cl.pollErr != nil })
	}
}

// drained reports whether every exchange the server takes part in has settled.
func (cl *Client) drained() bool {
	w, c := cl.w, cl.conn
	if c.rpos < len(c.sent) && c.cutAt < 0 {
		return false
	}
	if len(cl.link.sess.out) > 0 || len(cl.link.sess.queue) > 0 {
		return w.cfg.overflow || !w.cfg.conform
	}
	if c.brokerAt < len(c.out) {
		return false
	}
	for _, o := range c.outP {
		if o.P != nil && o.P.QoS > 0 && o.P.Type == wire.PUBLISH && !o.acked {
			return false
		}
	}
	return true
}

// crash ends the process: every task stops where it is; the connection breaks; only the storage survives.
func (cl *Client) crash() {
	w := cl.w
	w.log("the client process crashes")
	w.Stats.Fault("process-crash")
	cl.crashed = true
	cl.ended = true
	w.observe()
	var ts []*simrt.Task
	for _, t := range w.sim.Tasks {
		if t != w.ctl && t.Data == any(cl) {
			ts = append(ts, t)
		}
	}
	w.sim.Kill(ts, func() {
		cl.conn.closed = true
		cl.conn.closedSeq = w.sim.NextSeq()
		cl.conn.breakNow()
		if w.store != nil {
			w.store.reload()
		}
	})
}

// retire lets the server notice that the connection is gone before the next one starts.
func (cl *Client) retire() {
	w := cl.w
	cl.ended = true
	l := cl.link
	l.done = true
	if !cl.conn.eof && !cl.conn.rst {
		cl.conn.srvClosed = true
		cl.conn.rst = true
	}
	w.phase = 0
	held := w.held
	w.held = nil
	_ = held
	w.await("reconnect delay", int64(1+w.W.Intn(500))*ms, func() bool { return false })
}

var errStore = errors.New("storage failure (injected)")

func isTimeout(err error) bool {
	return errors.Is(err, os.ErrDeadlineExceeded) || errors.Is(err, context.DeadlineExceeded) || errors.Is(err, context.Canceled)
}
