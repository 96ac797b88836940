package harness

import (
	"errors"
	"fmt"
	"strings"

	"verifsim/simrt"
	"verifsim/wire"
)

// Broker is the simulated MQTT 5 server: conforming by default, with the faults of the run injected.
type Broker struct {
	w        *World
	sessions map[string]*Session
	got      map[string]*Receipt // application messages received from clients, by payload
	gotOrder []string
	msgs     []*SrvMsg
	uniq     int
}

type Receipt struct{ Count, Dups int }

// SrvMsg is an application message on its way to the client.
type SrvMsg struct {
	N          int
	P          wire.Packet
	ID         uint16
	State      string // "", "queued", "pub", "rel", "done"
	Sent       []*InPkt
	Session    *Session
	over       bool // sent beyond the client's receive maximum
	deliveries []*EvRec
}

type Session struct {
	id     string
	out    []*SrvMsg
	queue  []*SrvMsg
	nextID uint16
	recvQ2 map[uint16]string
	subs   map[string]byte
}

// Link is the broker's view of one connection.
type Link struct {
	b         *Broker
	c         *Conn
	cl        *Client
	sess      *Session
	up        bool
	done      bool
	recvMax   int
	inflight  int
	connect   *wire.Packet
	connack   *wire.Packet
	connackIn *InPkt
	present   bool
	silent    bool
	aliases   map[uint32]string // topic aliases the server has set
}

func newBroker(w *World) *Broker {
	return &Broker{w: w, sessions: map[string]*Session{}, got: map[string]*Receipt{}}
}

func (b *Broker) attach(c *Conn, cl *Client) *Link {
	l := &Link{b: b, c: c, cl: cl}
	c.onPacket = l.onPacket
	c.onEOF = func(*Conn) { l.done = true }
	return l
}

func (l *Link) alive() bool { return !l.done && !l.c.srvClosed && !l.c.rst && !l.c.eof }

func (l *Link) send(p *wire.Packet) *InPkt {
	if !l.alive() {
		return nil
	}
	short := l.b.w.N.Chance(1, 2)
	if p.Type == wire.PUBLISH && l.up && p.Topic != "" {
		if max := l.connect.Props.Int[0x22]; max > 0 && l.b.w.N.Chance(3, 4) {
			return l.sendAlias(p, max, short)
		}
	}
	return l.c.srvSend(p, p, short)
}

// sendAlias sends a PUBLISH with a topic alias, without the topic if the alias stands for it already.
func (l *Link) sendAlias(p *wire.Packet, max uint32, short bool) *InPkt {
	n := l.b.w.N
	a := 1 + uint32(n.Intn(min(int(max), 4)))
	if n.Chance(1, 8) {
		a = max
	}
	want := *p
	want.Props = p.Props.With(0x23, a)
	sent := want
	if l.aliases == nil {
		l.aliases = map[uint32]string{}
	}
	if l.aliases[a] == p.Topic && n.Chance(7, 8) {
		sent.Topic = ""
		l.b.w.Stats.Probe("topic-alias")
	}
	l.aliases[a] = p.Topic
	return l.c.srvSend(&want, &sent, short)
}

// reply sends p after the broker's processing delay.
func (l *Link) reply(p *wire.Packet, f func(*InPkt)) {
	w := l.b.w
	d := int64(0)
	if w.cfg.ackSpread > 0 && w.phase < 2 {
		d = int64(w.N.Intn(w.cfg.ackSpread+1)) * ms
	}
	w.sim.After(d, func() {
		if ip := l.send(p); ip != nil && f != nil {
			f(ip)
		}
	})
}

func (l *Link) onPacket(c *Conn, o *OutPkt) {
	w, p := l.b.w, o.P
	if !l.up {
		if p.Type == wire.CONNECT && l.connect == nil {
			l.connect = p
			l.onConnect(p)
		}
		return
	}
	switch p.Type {
	case wire.PUBLISH:
		r := l.b.got[p.Payload]
		if r == nil {
			r = &Receipt{}
			l.b.got[p.Payload] = r
			l.b.gotOrder = append(l.b.gotOrder, p.Payload)
		}
		switch p.QoS {
		case 0:
			r.Count++
		case 1:
			r.Count++
			l.ack(wire.PUBACK, p.ID, o)
		case 2:
			if _, dup := l.sess.recvQ2[p.ID]; !dup {
				r.Count++
			} else {
				r.Dups++
			}
			l.sess.recvQ2[p.ID] = p.Payload
			l.ack(wire.PUBREC, p.ID, o)
		}
	case wire.PUBREL:
		a := &wire.Packet{Type: wire.PUBCOMP, ID: p.ID}
		if _, ok := l.sess.recvQ2[p.ID]; !ok || w.cfg.ackFail > 0 && w.X.Chance(w.cfg.ackFail, 32) {
			a.Reason = 0x92
			w.Stats.Fault("pubcomp-not-found")
		}
		delete(l.sess.recvQ2, p.ID)
		l.rich(a)
		w.hold(w.cfg.holdAck, 16, "hold-pubcomp", func() {
			l.reply(a, nil)
			l.dups(wire.PUBCOMP, p.ID)
		})
	case wire.PUBACK, wire.PUBREC, wire.PUBCOMP:
		l.onAck(p)
	case wire.SUBSCRIBE:
		a := &wire.Packet{Type: wire.SUBACK, ID: p.ID}
		for _, s := range p.Subs {
			code := s.Opts & 3
			if w.cfg.subFail > 0 && w.X.Chance(w.cfg.subFail, 16) {
				code = []byte{0x80, 0x87, 0x8F, 0x97, 0xA2}[w.X.Intn(5)]
				w.Stats.Fault("suback-failure")
			} else {
				l.sess.subs[s.Filter] = s.Opts
			}
			a.Reasons = append(a.Reasons, code)
		}
		l.rich(a)
		if l.wrongAck(a, o) {
			return
		}
		w.hold(w.cfg.holdAck, w.cfg.holdReq(), "hold-suback", func() {
			l.reply(a, l.last)
			l.dups(wire.SUBACK, p.ID)
		})
	case wire.UNSUBSCRIBE:
		a := &wire.Packet{Type: wire.UNSUBACK, ID: p.ID}
		for _, s := range p.Subs {
			code := byte(0)
			if _, ok := l.sess.subs[s.Filter]; !ok {
				code = 0x11
			}
			if w.cfg.subFail > 0 && w.X.Chance(w.cfg.subFail, 16) {
				code = []byte{0x80, 0x83, 0x87}[w.X.Intn(3)]
				w.Stats.Fault("unsuback-failure")
			} else {
				delete(l.sess.subs, s.Filter)
			}
			a.Reasons = append(a.Reasons, code)
		}
		l.rich(a)
		if l.wrongAck(a, o) {
			return
		}
		w.hold(w.cfg.holdAck, w.cfg.holdReq(), "hold-unsuback", func() {
			l.reply(a, l.last)
			l.dups(wire.UNSUBACK, p.ID)
		})
	case wire.PINGREQ:
		if !l.silent {
			l.reply(&wire.Packet{Type: wire.PINGRESP}, nil)
		}
	case wire.DISCONNECT:
		l.done = true
		w.sim.After(w.lat(), func() { l.c.srvClose(false) })
	}
}

// wrongAck answers with an acknowledgement that does not fit the request.
func (l *Link) wrongAck(a *wire.Packet, o *OutPkt) bool {
	w := l.b.w
	if w.cfg.wrongAck == 0 || w.phase >= 2 || l.cl.hostile || o.Op == nil || !w.X.Chance(w.cfg.wrongAck, 16) {
		return false
	}
	bad, why := *a, ""
	n := len(a.Reasons)
	bad.Reasons = make([]byte, n)
	if a.Type == wire.SUBACK {
		copy(bad.Reasons, a.Reasons)
	}
	switch k := w.X.Intn(3); {
	case k == 0:
		why, bad.Reasons = "ack-with-an-extra-code", append(bad.Reasons, 0)
	case k == 1 && n > 1:
		why, bad.Reasons = "ack-with-a-code-missing", bad.Reasons[:n-1]
	case a.Type == wire.SUBACK:
		why, bad.Type = "ack-of-the-other-type", wire.UNSUBACK
	default:
		why, bad.Type = "ack-of-the-other-type", wire.SUBACK
	}
	o.Op.wrongAck = why
	l.cl.hostile = true
	l.c.srvRaw(wire.Encode(&bad, false), why)
	return true
}

// dups injects repeated and unknown acknowledgements.
func (l *Link) dups(typ int, id uint16) {
	w := l.b.w
	if w.cfg.dupAck > 0 && w.phase < 2 && w.X.Chance(w.cfg.dupAck, 16) {
		w.Stats.Fault("duplicate-ack")
		l.reply(&wire.Packet{Type: typ, ID: id, Reasons: subReasons(typ)}, func(ip *InPkt) { ip.extra = true })
	}
	if w.cfg.unkAck > 0 && w.phase < 2 && w.X.Chance(w.cfg.unkAck, 16) {
		w.Stats.Fault("unknown-ack")
		t := []int{wire.PUBACK, wire.PUBREC, wire.PUBCOMP, wire.SUBACK, wire.UNSUBACK, wire.PUBREL, wire.PINGRESP}[w.X.Intn(7)]
		uid := uint16(1 + w.X.Intn(65535))
		if w.cfg.conform {
			// one that cannot be taken for the answer to a publish in progress
			if t = []int{wire.PUBACK, wire.PUBREC, wire.PUBCOMP}[w.X.Intn(3)]; w.X.Chance(1, 2) {
				for _, x := range l.c.outP {
					if x.P != nil && x.acked && w.X.Chance(1, 3) {
						uid = x.P.ID
					}
				}
			}
			for _, x := range l.c.outP {
				if x.P != nil && !x.acked && x.P.ID == uid {
					return
				}
			}
		} else if w.X.Chance(1, 2) {
			uid = id // an acknowledgement of the wrong kind
		}
		l.reply(&wire.Packet{Type: t, ID: uid, Reasons: subReasons(t)}, func(ip *InPkt) { ip.extra = true })
	}
}

func subReasons(t int) []byte {
	if t == wire.SUBACK || t == wire.UNSUBACK {
		return []byte{0}
	}
	return nil
}

// ack answers a PUBLISH of the client.
func (l *Link) ack(typ int, id uint16, o *OutPkt) {
	w := l.b.w
	a := &wire.Packet{Type: typ, ID: id}
	if w.cfg.ackFail > 0 && w.X.Chance(w.cfg.ackFail, 16) {
		a.Reason = []byte{0x80, 0x83, 0x87, 0x90, 0x97, 0x99}[w.X.Intn(6)]
		if typ == wire.PUBREC {
			delete(l.sess.recvQ2, id)
		}
		w.Stats.Fault("ack-failure-code")
	} else if w.N.Chance(1, 8) {
		a.Reason = 0x10
	}
	l.rich(a)
	w.hold(w.cfg.holdAck, 16, "hold-ack", func() {
		l.reply(a, nil)
		l.dups(typ, id)
	})
}

// rich adds properties to an acknowledgement.
func (l *Link) rich(p *wire.Packet) {
	w := l.b.w
	if !w.cfg.richProps || !w.N.Chance(1, 3) {
		return
	}
	if w.N.Chance(1, 2) {
		p.Props.SetStr(0x1F, "reason-"+strings.Repeat("r", w.N.Intn(140)))
	}
	for i := w.N.Intn(3); i > 0; i-- {
		p.Props.User = append(p.Props.User, wire.KV{K: fmt.Sprintf("k%d", i), V: strings.Repeat("v", w.N.Intn(60))})
	}
	if w.cfg.huge && w.N.Chance(1, 4) {
		p.Props.SetStr(0x1F, hugeStr(w.N, "reason"))
	}
}

func (l *Link) onAck(p *wire.Packet) {
	s := l.sess
	for i, m := range s.out {
		if m.ID != p.ID {
			continue
		}
		switch {
		case p.Type == wire.PUBACK && m.P.QoS == 1,
			p.Type == wire.PUBREC && p.Reason >= 0x80 && m.P.QoS == 2,
			p.Type == wire.PUBCOMP && m.P.QoS == 2 && m.State == "rel":
			m.State = "done"
			s.out = append(s.out[:i:i], s.out[i+1:]...)
			if l.inflight > 0 {
				l.inflight--
			}
			l.pump()
		case p.Type == wire.PUBREC && m.P.QoS == 2:
			if m.State == "pub" {
				m.State = "rel"
				l.b.w.hold(l.b.w.cfg.holdAck, 16, "hold-pubrel", func() {
					l.reply(&wire.Packet{Type: wire.PUBREL, ID: m.ID}, nil)
				})
			}
		}
		return
	}
}

func (l *Link) onConnect(p *wire.Packet) {
	w := l.b.w
	bad := 0
	if l.cl.idx == 0 {
		bad = w.cfg.connackBad
	}
	s := l.b.sessions[p.ClientID]
	clean := p.ConnFlags&2 != 0
	if s != nil && (clean || w.cfg.sessLost) {
		s = nil
	}
	l.present = s != nil
	if s == nil {
		s = &Session{id: p.ClientID, nextID: w.cfg.idBase, recvQ2: map[uint16]string{}, subs: map[string]byte{}}
		l.b.sessions[p.ClientID] = s
	}
	l.sess = s
	l.recvMax = 65535
	if v, ok := p.Props.Int[0x21]; ok {
		l.recvMax = int(v)
	}
	a := &wire.Packet{Type: wire.CONNACK}
	if l.present {
		a.AckFlags = 1
	}
	if w.cfg.srvRM > 0 {
		a.Props.SetInt(0x21, uint32(w.cfg.srvRM))
	}
	if w.cfg.srvKA > 0 {
		a.Props.SetInt(0x13, uint32(w.cfg.srvKA))
	} else if w.cfg.srvKA < 0 {
		a.Props.SetInt(0x13, 0) // the server turns keep alive off
	}
	if w.cfg.richProps && w.N.Chance(1, 2) {
		for _, id := range []byte{0x24, 0x25, 0x28, 0x29, 0x2A} {
			if w.N.Chance(1, 3) {
				a.Props.SetInt(id, 1)
			}
		}
		if w.N.Chance(1, 3) {
			a.Props.SetInt(0x11, 77)
			a.Props.SetInt(0x22, 9)
			a.Props.SetInt(0x27, 1<<20)
		}
		for _, id := range []byte{0x12, 0x1A, 0x1C, 0x1F} {
			if w.N.Chance(1, 3) {
				a.Props.SetStr(id, fmt.Sprintf("p%02x-%s", id, strings.Repeat("x", w.N.Intn(80))))
			}
		}
		a.Props.User = append(a.Props.User, wire.KV{K: "srv", V: "sim"})
	}
	l.connack = a
	switch bad {
	case 1:
		a.Reason = []byte{0x80, 0x85, 0x86, 0x87, 0x88, 0x97}[w.X.Intn(6)]
		w.Stats.Fault("connack-refused")
		l.reply(a, func(ip *InPkt) { l.connackIn = ip; l.c.srvClose(false) })
		return
	case 2:
		w.Stats.Fault("connack-wrong-type")
		q := []*wire.Packet{{Type: wire.PINGRESP}, {Type: wire.PUBACK, ID: 7}, {Type: wire.PUBLISH, Topic: "a/b", Payload: "early"},
			{Type: wire.DISCONNECT, Reason: 0x8B}, {Type: wire.AUTH, Reason: 0x18}}[w.X.Intn(5)]
		l.reply(q, nil)
		return
	case 3:
		w.Stats.Fault("connack-missing")
		return
	case 4:
		w.Stats.Fault("connack-malformed")
		b := wire.Encode(a, false)
		switch k := w.X.Intn(8); k {
		default:
			// something that is certainly malformed
			if w.X.Chance(1, 2) {
				l.decorate(a)
				b = wire.Encode(a, false)
			}
			for i := 0; i < 30; i++ {
				m := mutate(w.X, b)
				if p, _, err := wire.DecodeServer(m); err != nil && !errors.Is(err, wire.ErrShort) || p != nil && p.Type != wire.CONNACK {
					b = m
					break
				}
				if i == 29 {
					b = []byte{0x20, 0x01, 0x00}
				}
			}
		case 0:
			b = []byte{0x20, 0xff, 0xff, 0xff, 0xff, 0x7f}
		case 1:
			b = []byte{0x20, 0x03, 0x00, 0x00, 0x05} // property length beyond the packet
		case 2:
			b = []byte{0x20, 0x01, 0x00} // no reason code
		case 3:
			b = []byte{0x20, 0x05, 0x00, 0x00, 0x02, 0x7e, 0x01} // unknown property
		}
		w.sim.After(w.lat(), func() {
			if l.alive() {
				l.c.srvRaw(b, "bad-connack")
			}
		})
		return
	case 5:
		w.Stats.Fault("connack-eof")
		l.c.srvClose(w.X.Chance(1, 2))
		return
	case 6:
		w.Stats.Fault("connack-cut")
		b := wire.Encode(a, false)
		l.c.cutAt = w.X.Intn(len(b))
		l.c.cutRST = w.X.Chance(1, 2)
	}
	d := int64(0)
	if w.cfg.ackSpread > 0 {
		d = int64(w.N.Intn(w.cfg.ackSpread+1)) * ms
	}
	w.sim.After(d, func() {
		ip := l.send(a)
		if ip == nil {
			return
		}
		l.connackIn = ip
		l.up = true
		l.onUp()
	})
}

// bye ends the connection from the server's side.
func (l *Link) bye() {
	w := l.b.w
	w.Stats.Fault("server-disconnect")
	p := &wire.Packet{Type: wire.DISCONNECT, Reason: []byte{0x8B, 0x8E, 0x00, 0x98, 0x9C}[w.X.Intn(5)]}
	if w.X.Chance(1, 3) {
		p.Props.SetStr(0x1F, "going away")
	}
	if l.send(p) != nil {
		l.c.srvClose(false)
	}
}

// last ends the connection right after an acknowledgement, now and then.
func (l *Link) last(*InPkt) {
	if w := l.b.w; w.cfg.byeAck > 0 && w.phase < 2 && w.X.Chance(w.cfg.byeAck, 16) {
		l.bye()
	}
}

// onUp starts the server's side of the conversation: redelivery, the message feed, and the scheduled faults.
func (l *Link) onUp() {
	w := l.b.w
	s := l.sess
	if l.present {
		for _, m := range s.out {
			if m.State == "rel" {
				w.Stats.Probe("server-resends-pubrel")
				l.inflight++
				l.send(&wire.Packet{Type: wire.PUBREL, ID: m.ID})
			} else {
				w.Stats.Probe("server-redelivers-publish")
				l.inflight++
				l.deliver(m, true)
			}
		}
	}
	l.pump()
	n := w.cfg.feed
	for i := 0; i < n; i++ {
		at := int64(w.N.Intn(int(w.cfg.feedWindow/ms)+1)) * ms
		w.sim.After(at, func() { l.feedOne() })
	}
	if m, ok := l.connect.Props.Str[0x15]; ok && w.N.Chance(1, 2) {
		// a re-authentication
		for i := 1 + w.N.Intn(2); i > 0; i-- {
			a := &wire.Packet{Type: wire.AUTH, Reason: []byte{0x18, 0x00, 0x18}[w.N.Intn(3)]}
			a.Props.SetStr(0x15, m)
			if w.N.Chance(2, 3) {
				a.Props.SetStr(0x16, []string{"d", strings.Repeat("\x00\xff", 1+w.N.Intn(80))}[w.N.Intn(2)])
			}
			if w.N.Chance(1, 2) {
				a.Props.SetStr(0x1F, "why")
				a.Props.User = append(a.Props.User, wire.KV{K: "k", V: "v"}, wire.KV{K: "", V: strings.Repeat("v", w.N.Intn(200))})
			}
			w.sim.After(int64(w.N.Intn(int(w.cfg.feedWindow/ms)+1))*ms, func() {
				if l.alive() && w.phase < 2 {
					w.Stats.Probe("server-auth")
					l.reply(a, nil)
				}
			})
		}
	}
	if w.cfg.cut > 0 && l.cl.idx < w.cfg.sessions && (l.cl.idx == 0 || w.X.Chance(1, 2)) {
		l.c.cutRST, l.c.cutDead = w.cfg.cut == 2, w.cfg.cut == 3
		if w.X.Chance(1, 2) {
			l.c.cutAt = len(l.c.sent) + w.X.Intn(160)
		} else {
			w.sim.After(int64(w.X.Intn(int(w.cfg.runFor/ms)))*ms, func() {
				if w.phase < 2 {
					l.c.srvClose(w.cfg.cut == 2)
				}
			})
		}
	}
	if w.cfg.stall > 0 {
		l.c.stallAt = len(l.c.out) + w.X.Intn(200)
		l.c.stallFor = 0
		if w.cfg.stall == 1 {
			l.c.stallFor = int64(1+w.X.Intn(3000)) * ms
		}
	}
	if w.cfg.serverDisc {
		w.sim.After(int64(w.X.Intn(int(w.cfg.runFor/ms)))*ms, func() {
			if w.phase >= 2 {
				return
			}
			l.bye()
		})
	}
	if w.cfg.silentAt > 0 || w.prop == "C10" && w.cfg.silentAt == 0 && w.X.Chance(1, 6) {
		w.sim.After(w.cfg.silentAt, func() {
			if w.phase < 2 {
				w.Stats.Fault("server-silent")
				l.silent = true
			}
		})
	}
	for i := 0; i < w.cfg.resumes; i++ {
		w.sim.After(int64(1+w.X.Intn(int(w.cfg.runFor/ms)))*ms, func() {
			if n := len(w.held); w.phase < 2 && n > 0 {
				if w.X.Chance(1, 2) {
					n = 1 + w.X.Intn(n)
				}
				w.Stats.Fault("hold-released")
				held := w.held[:n]
				w.held = w.held[n:]
				for _, f := range held {
					f()
				}
			}
		})
	}
	for i := 0; i < w.cfg.malformed; i++ {
		w.sim.After(int64(w.X.Intn(int(w.cfg.feedWindow/ms)+1000))*ms, func() {
			if l.alive() {
				l.hostile()
			}
		})
	}
}

var topics = []string{"a/b", "a", "a/b/c", "aaaa/b", "a/bc", "/a", "a/", "b/c", "b", "a//c", "$SYS/x", "c/d/e/f", "xy", "/xy", "sensors/1/temp", "sensors/22/temp"}

func (l *Link) newMsg() *SrvMsg {
	w := l.b.w
	l.b.uniq++
	m := &SrvMsg{N: l.b.uniq, Session: l.sess}
	m.P = wire.Packet{Type: wire.PUBLISH, Topic: w.cfg.topics[w.N.Intn(len(w.cfg.topics))]}
	m.P.QoS = byte(w.N.Pick(w.cfg.feedQ[0], w.cfg.feedQ[1], w.cfg.feedQ[2]))
	m.P.Payload = fmt.Sprintf("s%d:", m.N) + strings.Repeat("z", w.payloadSize(w.N))
	m.P.Retain = w.N.Chance(1, 6)
	if w.cfg.richProps && w.N.Chance(1, 2) {
		if w.N.Chance(1, 3) {
			m.P.Props.SetInt(0x02, 1+uint32(w.N.Intn(100000)))
		}
		if w.N.Chance(1, 4) {
			m.P.Props.SetInt(0x0B, 1+uint32([]int{0, 126, 127, 20000}[w.N.Intn(4)]))
		}
		if w.N.Chance(1, 3) {
			m.P.Props.SetStr(0x08, "reply/"+strings.Repeat("t", w.N.Intn(150)))
		}
		if w.N.Chance(1, 3) {
			m.P.Props.SetStr(0x09, "corr\x00\xff"+strings.Repeat("c", w.N.Intn(20)))
		}
		if w.N.Chance(1, 3) {
			m.P.Props.SetStr(0x03, "text/plain")
			if w.cfg.bigPayload {
				m.P.Props.SetStr(0x03, strings.Repeat("p", []int{100, 120, 124, 125, 126, 127, 128, 300, 16370, 16381, 16384}[w.N.Intn(11)]))
			}
		}
		for i := w.N.Intn(3); i > 0; i-- {
			m.P.Props.User = append(m.P.Props.User, wire.KV{K: fmt.Sprintf("u%d", i), V: strings.Repeat("w", w.N.Intn(90))})
		}
	}
	if w.cfg.huge && w.N.Chance(1, 4) {
		switch w.N.Intn(4) {
		case 0:
			m.P.Props.SetStr(0x08, hugeStr(w.N, "r/"))
		case 1:
			m.P.Props.SetStr(0x09, hugeStr(w.N, "c\x00"))
		case 2:
			m.P.Props.SetStr(0x03, hugeStr(w.N, "ct"))
		case 3:
			m.P.Props.User = append(m.P.Props.User, wire.KV{K: hugeStr(w.N, "k"), V: hugeStr(w.N, "v")})
		}
	}
	l.b.msgs = append(l.b.msgs, m)
	return m
}

func (w *World) payloadSize(s interface{ Intn(int) int }) int {
	if w.cfg.bigPayload {
		if w.cfg.frag == 0 && s.Intn(100) == 99 {
			return []int{2097120, 2097152, 2097200, 2097151}[s.Intn(4)]
		}
		return []int{0, 3, 90, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 300, 16370, 16378, 16384, 20000, 40000}[s.Intn(20)]
	}
	return []int{0, 0, 1, 10, 60, 118, 122, 200}[s.Intn(8)]
}

func (l *Link) feedOne() {
	w := l.b.w
	if !l.alive() || !l.up {
		return
	}
	m := l.newMsg()
	if m.P.QoS == 0 {
		l.deliver(m, false)
		return
	}
	if l.inflight >= l.recvMax {
		if w.cfg.overflow && w.phase < 2 && w.X.Chance(1, 3) {
			w.Stats.Fault("receive-maximum-overflow")
			m.over = true
			if w.cfg.overStall {
				l.c.stallAt = len(l.c.out)
			}
			l.newID(m)
			m.State = "pub"
			ip := l.send(&m.P)
			if ip != nil {
				ip.msg = m
				ip.extra = true
				m.Sent = append(m.Sent, ip)
			}
			return
		}
		m.State = "queued"
		l.sess.queue = append(l.sess.queue, m)
		return
	}
	l.start(m)
}

// newID gives the message a packet identifier that is free.
func (l *Link) newID(m *SrvMsg) {
	s := l.sess
	if l.b.w.cfg.idReuse {
		s.nextID = l.b.w.cfg.idBase
	}
	for free := false; !free; {
		if s.nextID++; s.nextID == 0 {
			s.nextID = 1
		}
		free = true
		for _, o := range s.out {
			free = free && o.ID != s.nextID
		}
	}
	m.ID = s.nextID
	m.P.ID = m.ID
}

func (l *Link) start(m *SrvMsg) {
	s := l.sess
	l.newID(m)
	m.State = "pub"
	s.out = append(s.out, m)
	l.inflight++
	l.deliver(m, false)
}

func (l *Link) pump() {
	s := l.sess
	for len(s.queue) > 0 && l.inflight < l.recvMax && l.alive() {
		m := s.queue[0]
		s.queue = s.queue[1:]
		l.start(m)
	}
}

func (l *Link) deliver(m *SrvMsg, dup bool) {
	w := l.b.w
	p := m.P
	p.Dup = dup
	ip := l.send(&p)
	if ip == nil {
		return
	}
	ip.msg = m
	if len(m.Sent) > 0 {
		ip.dupOf = m.Sent[0]
	}
	m.Sent = append(m.Sent, ip)
	if !dup && p.QoS == 2 && w.cfg.dupQ2 > 0 && w.phase < 2 && w.X.Chance(w.cfg.dupQ2, 16) {
		w.sim.After(int64(w.X.Intn(30))*ms, func() {
			if m.State == "pub" && l.alive() {
				w.Stats.Fault("duplicate-qos2-publish")
				q := m.P
				q.Dup = true
				if ip2 := l.send(&q); ip2 != nil {
					ip2.msg, ip2.dupOf = m, ip
					m.Sent = append(m.Sent, ip2)
				}
			}
		})
	}
}

// decorate adds properties to a packet.
func (l *Link) decorate(p *wire.Packet) {
	x := l.b.w.X
	str := map[int][]byte{wire.PUBLISH: {0x03, 0x08, 0x09}, wire.DISCONNECT: {0x1C, 0x1F}, wire.AUTH: {0x15, 0x16, 0x1F}, wire.CONNACK: {0x12, 0x15, 0x16, 0x1A, 0x1C, 0x1F}}[p.Type]
	num := map[int][]byte{wire.PUBLISH: {0x01, 0x02, 0x0B, 0x23}, wire.DISCONNECT: {0x11}, wire.CONNACK: {0x11, 0x13, 0x21, 0x22, 0x24, 0x25, 0x27, 0x28, 0x29, 0x2A}}[p.Type]
	if str == nil && num == nil {
		str = []byte{0x1F}
	}
	for _, id := range str {
		if x.Chance(1, 2) {
			p.Props.SetStr(id, strings.Repeat("s", []int{0, 1, 5, 100, 126, 200}[x.Intn(6)]))
		}
	}
	for _, id := range num {
		if x.Chance(1, 2) {
			p.Props.SetInt(id, uint32([]int{0, 1, 127, 128, 1 << 20}[x.Intn(5)]))
		}
	}
	for i := x.Intn(3); i > 0; i-- {
		p.Props.User = append(p.Props.User, wire.KV{K: strings.Repeat("k", x.Intn(3)), V: strings.Repeat("v", x.Intn(40))})
	}
}

// mutate changes an encoded packet. Most of the time the remaining length is made to fit afterwards.
func mutate(x *simrt.Stream, b []byte) []byte {
	_, n, _ := wire.DecodeServer(b)
	h := n
	for i := 1; i < len(b); i++ {
		if b[i]&128 == 0 {
			h = i + 1
			break
		}
	}
	first, body := b[0], append([]byte(nil), b[h:]...)
	fit := x.Chance(7, 8)
	lenBytes := 0 // forced size of the remaining length
	for i := 1 + x.Intn(2); i > 0; i-- {
		j := 0
		if len(body) > 0 {
			j = x.Intn(len(body))
		}
		ins := func(v ...byte) { body = append(body[:j:j], append(v, body[j:]...)...) }
		switch k := x.Intn(10); {
		case k == 0:
			first ^= 1 << x.Intn(8)
		case k == 1:
			lenBytes = 2 + x.Intn(4)
		case k == 2 || len(body) == 0:
			ins(byte(x.Intn(256)))
		case k == 3:
			body[j] ^= 1 << x.Intn(8)
		case k == 4:
			body[j] = byte(x.Intn(256))
		case k == 5:
			body[j] += byte(1 + 254*x.Intn(2)) // one more or one less
		case k == 6:
			body = append(body[:j:j], body[j+1:]...)
		case k == 7:
			body = body[:j]
		case k == 8:
			for m := 1 + x.Intn(8); m > 0; m-- {
				body = append(body, byte(x.Intn(256)))
			}
		case k == 9:
			// a longer form of a small number
			v := body[j] & 127
			body[j] = v | 128
			j++
			pad := []byte{0x80, 0x80, 0x80, 0x80}[:x.Intn(4)]
			ins(append(append([]byte(nil), pad...), 0)...)
		}
	}
	if !fit {
		return append(append([]byte{first}, b[1:h]...), body...)
	}
	if lenBytes == 0 {
		return wire.Frame(first, body)
	}
	out := []byte{first}
	for v, i := len(body), 1; i <= lenBytes; i++ {
		c := byte(v & 127)
		v >>= 7
		if i < lenBytes {
			c |= 128
		}
		out = append(out, c)
	}
	return append(out, body...)
}

// hostile injects bytes no conforming server would send.
func (l *Link) hostile() {
	x := l.b.w.X
	id := uint16(1 + x.Intn(5))
	if n := len(l.c.outP); n > 0 && x.Chance(1, 2) {
		for _, o := range l.c.outP {
			if o.P != nil && o.P.ID != 0 {
				id = o.P.ID
			}
		}
	}
	hi, lo := byte(id>>8), byte(id)
	type inj struct {
		why  string
		b    []byte
		must bool // not well-formed MQTT 5 whatever follows
	}
	pub := func(first byte, body ...byte) []byte { return wire.Frame(first, body) }
	list := []inj{
		{"overlong-length", []byte{0x30, 0xff, 0xff, 0xff, 0xff, 0x7f}, true},
		{"overlong-length5", []byte{0x40, 0x80, 0x80, 0x80, 0x80, 0x01, 0, 1}, true},
		{"qos3", pub(0x36, 0, 3, 'a', '/', 'b', 0, 9, 0, 'x'), true},
		{"publish-id0", pub(0x32, 0, 3, 'a', '/', 'b', 0, 0, 0, 'x'), true},
		{"topic-overrun", pub(0x30, 0xff, 0xf0, 'a', '/', 'b', 0, 'x'), true},
		{"props-overrun", pub(0x30, 0, 3, 'a', '/', 'b', 0x7f, 'x', 'y'), true},
		{"props-short", pub(0x30, 0, 3, 'a', '/', 'b', 2, 0x02, 0, 0, 0, 1, 'x'), true},
		{"props-unknown", pub(0x30, 0, 3, 'a', '/', 'b', 2, 0x7e, 1, 'x'), true},
		{"props-zero-id", pub(0x30, 0, 3, 'a', '/', 'b', 1, 0, 'x'), true},
		{"publish-no-topic", pub(0x30, 0, 0, 0, 'x'), true},
		{"publish-no-topic-props", pub(0x30, 0, 0, 5, 0x02, 0, 0, 0, 1, 'x'), true},
		{"alias-unknown", pub(0x30, 0, 0, 3, 0x23, 0x40, 0x01, 'x'), true},
		{"publish-empty", pub(0x30), true},
		{"publish-1", pub(0x30, 0), true},
		{"publish-no-props", pub(0x30, 0, 3, 'a', '/', 'b'), true},
		{"puback-empty", pub(0x40), true},
		{"puback-1", pub(0x40, 0), true},
		{"pubrec-1", pub(0x50, 1), true},
		{"pubrel-empty", pub(0x62), true},
		{"pubcomp-props", pub(0x70, hi, lo, 0, 9), true},
		{"suback-empty", pub(0x90), true},
		{"suback-id-only", pub(0x90, hi, lo), true},
		{"suback-no-codes", pub(0x90, hi, lo, 0), true},
		{"suback-many", pub(0x90, hi, lo, 0, 0, 0, 1, 2, 0, 1, 0, 0, 0x80), false},
		{"suback-few", pub(0x90, hi, lo, 0, 0), false},
		{"unsuback-for-subscribe", pub(0xB0, hi, lo, 0, 0), false},
		{"suback-for-anything", pub(0x90, hi, lo, 0, 0x80), false},
		{"unsuback-no-codes", pub(0xB0, hi, lo, 0), true},
		{"connack-again", pub(0x20, 0, 0, 0), true},
		{"type-connect", pub(0x10, 0, 4, 'M', 'Q', 'T', 'T', 5, 2, 0, 60, 0, 0, 0), true},
		{"type-subscribe", pub(0x82, hi, lo, 0, 0, 1, 'a', 0), true},
		{"type-pingreq", pub(0xC0), true},
		{"type-0", pub(0x00), true},
		{"type-0b", pub(0x05, 1, 2, 3), true},
		{"disconnect-0", pub(0xE0), false},
		{"disconnect-props", pub(0xE0, 0x8B, 9), true},
		{"auth-0", pub(0xF0), false},
		{"auth-props", pub(0xF0, 0x18, 9, 0x15, 0, 1), true},
		{"auth-ok", pub(0xF0, 0x18, 4, 0x15, 0, 1, 'm'), false},
		{"pingresp-long", pub(0xD0, 1, 2, 3), true},
		{"userprop-cut", pub(0x30, 0, 1, 'a', 6, 0x26, 0, 9, 'k', 0, 0, 'x'), true},
		{"puback-unknown", pub(0x40, 0x7f, 0x7f), false},
		{"pubrec-unknown", pub(0x50, 0x7f, 0x7e), false},
		{"pubrel-unknown", pub(0x62, 0x7f, 0x7d), false},
		{"pubcomp-unknown", pub(0x70, 0x7f, 0x7c), false},
		{"puback-id0", pub(0x40, 0, 0), false},
		{"short-then-eof", []byte{0x30, 0x20, 0, 3, 'a'}, false},
		{"length-only-eof", []byte{0x90, 0x80}, false},
	}
	k := x.Intn(2 * len(list))
	var in inj
	if k < len(list) {
		in = list[k]
	} else { // mutate a valid packet
		ps := []*wire.Packet{
			{Type: wire.PUBLISH, Topic: "a/b", QoS: 1, ID: 300, Payload: "hello world"},
			{Type: wire.PUBLISH, Topic: "a/b", QoS: 2, ID: 301, Payload: "hello world", Props: wire.Props{Int: map[byte]uint32{2: 7}, Str: map[byte]string{3: "ct", 8: "r"}, User: []wire.KV{{K: "k", V: "v"}}}},
			{Type: wire.SUBACK, ID: id, Reasons: []byte{0, 1}, Props: wire.Props{Str: map[byte]string{0x1F: "why"}, User: []wire.KV{{K: "k", V: "v"}}}},
			{Type: wire.PUBREC, ID: id, Reason: 0x10, Props: wire.Props{Str: map[byte]string{0x1F: "why"}}},
			{Type: wire.DISCONNECT, Reason: 0x8B, Props: wire.Props{Str: map[byte]string{0x1F: "why", 0x1C: "other"}, User: []wire.KV{{K: "k", V: "v"}}}},
			{Type: wire.AUTH, Reason: 0x18, Props: wire.Props{Str: map[byte]string{0x15: "m", 0x16: "d"}}},
			{Type: wire.UNSUBACK, ID: id, Reasons: []byte{0}},
		}
		for i := range ps {
			if x.Chance(1, 3) {
				l.decorate(ps[i])
			}
		}
		in = inj{"mutated", mutate(x, wire.Encode(ps[x.Intn(len(ps))], false)), false}
	}
	p, n, err := wire.DecodeServer(in.b)
	whole := !errors.Is(err, wire.ErrShort) && n == len(in.b) // the next packet starts after it
	ip := l.c.srvRaw(in.b, in.why)
	l.cl.hostile = true
	if !l.cl.astray && l.cl.mustReject == nil {
		if err != nil && !errors.Is(err, wire.ErrShort) || in.must {
			if err != nil {
				ip.Why += ": " + err.Error()
			}
			l.cl.mustReject = ip
			l.b.w.Stats.Probe("must-reject")
		} else if err == nil && whole {
			ip.loose = p
			l.b.w.Stats.Probe("odd-but-legible")
		}
	}
	if !whole {
		l.cl.astray = true
	}
	if strings.HasSuffix(in.why, "-eof") || x.Chance(1, 4) {
		l.c.srvClose(x.Chance(1, 4))
	}
}
