package harness

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verifsim/simrt"
	"verifsim/wire"
)

// Control packets written to and restored from a simulated disk: what an application does that keeps them in a storage
// of its own. Each task appends records to a file of its own, the disk fails or fills up at any byte, the process crashes
// (which tears the last write), and the records are read back from a reader that delivers pieces of any size.

var errDisk = errors.New("input/output error (injected)")

// disk is a file that is written to.
type disk struct {
	w      *World
	b      []byte
	failAt int  // the byte that cannot be written (-1: none)
	once   bool // the next write succeeds again
	failed bool
}

func (d *disk) Write(p []byte) (int, error) {
	simrt.Yield()
	if d.failAt >= 0 && len(d.b)+len(p) > d.failAt {
		n := d.failAt - len(d.b)
		if n < 0 {
			n = 0
		}
		d.b = append(d.b, p[:n]...)
		d.failed = true
		if d.w.Stats.Fault("disk-write-error"); d.once {
			d.failAt = -1
		}
		return n, errDisk
	}
	d.b = append(d.b, p...)
	return len(p), nil
}

// tape is a file that is read from.
type tape struct {
	w       *World
	b       []byte
	pos     int
	frag    int
	failAt  int
	once    bool // the next read succeeds again
	eofData bool // the last bytes arrive together with io.EOF
	failed  bool
}

func (r *tape) Read(p []byte) (int, error) {
	simrt.Yield()
	if len(p) == 0 {
		return 0, nil
	}
	if r.failAt >= 0 && r.pos >= r.failAt {
		r.failed = true
		if r.w.Stats.Fault("disk-read-error"); r.once {
			r.failAt = -1
		}
		return 0, errDisk
	}
	n := len(r.b) - r.pos
	if r.failAt >= 0 {
		n = r.failAt - r.pos
	}
	if n == 0 {
		return 0, io.EOF
	}
	if n > len(p) {
		n = len(p)
	}
	if r.frag > 0 && n > 1 {
		if m := 1 + r.w.N.Intn(r.frag); m < n {
			n = m
			r.w.Stats.Fault("disk-short-read")
		}
	}
	copy(p, r.b[r.pos:r.pos+n])
	r.pos += n
	if r.eofData && r.pos == len(r.b) && r.failAt < 0 {
		return n, io.EOF
	}
	return n, nil
}

// record is one packet of a file.
type record struct {
	p        io.WriterTo
	want     *wire.Packet
	bad      string // why it cannot be encoded
	from, to int
}

func (w *World) codecString(utf bool) string {
	s := w.W
	n := []int{0, 1, 4, 60, 110, 118, 126, 127, 128, 200, 16300, 16384, 65535}[s.Pick(6, 4, 4, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1)]
	if n == 0 {
		return ""
	}
	if !utf && n > 1 && s.Chance(1, 3) {
		return "\x00\xff" + strings.Repeat("\x80", n-2)
	}
	if n >= 4 && s.Chance(1, 4) {
		return "é" + strings.Repeat("y", n-2)
	}
	return strings.Repeat("y", n)
}

func (w *World) codecUser(p *wire.Props) (m primitives.PrimitiveStringMap) {
	for i := w.W.Intn(4); i > 0; i-- {
		k, v := fmt.Sprintf("k%d", i), w.codecString(true)
		if w.W.Chance(1, 3) {
			k += w.codecString(true)
			if len(k) > 65535 {
				k = k[:60000]
			}
		}
		if m == nil {
			m = primitives.PrimitiveStringMap{}
		}
		m[primitives.PrimitiveString(k)] = primitives.PrimitiveString(v)
		p.User = append(p.User, wire.KV{K: k, V: v})
	}
	return m
}

func (w *World) drawRecord() *record {
	s := w.W
	ps := func(q *wire.Props, id byte, utf bool) primitives.PrimitiveString {
		v := w.codecString(utf)
		if v != "" {
			q.SetStr(id, v)
		}
		return primitives.PrimitiveString(v)
	}
	id := uint16([]int{1, 255, 256, 65535, 0x8001}[s.Intn(5)])
	pid := primitives.PrimitiveUint16(id)
	reason := []byte{0, 0x10, 0x80, 0x92}[s.Intn(4)]
	r := &record{want: &wire.Packet{ID: id}}
	wt := r.want
	ack := func(t int) packets.Puback {
		wt.Type, wt.Reason = t, reason
		a := packets.Puback{PacketIdentifier: pid, ReasonCode: primitives.PrimitiveByte(reason)}
		if s.Chance(1, 2) {
			a.ReasonString = ps(&wt.Props, 0x1F, true)
		}
		if s.Chance(1, 2) {
			a.UserProperties = w.codecUser(&wt.Props)
		}
		return a
	}
	switch s.Pick(5, 1, 2, 2, 1, 2, 2, 1, 1, 1) {
	case 0:
		*wt = wire.Packet{Type: wire.PUBLISH, Topic: "t/" + w.codecString(true), QoS: byte(s.Intn(3)), Retain: s.Chance(1, 2), Payload: w.codecString(false)}
		if len(wt.Topic) > 65535 {
			wt.Topic = wt.Topic[:65535]
		}
		if s.Chance(1, 30) {
			wt.Payload = strings.Repeat("p", 70000)
		}
		p := &packets.Publish{QoS: packets.QoS(wt.QoS), Retain: wt.Retain}
		if wt.QoS > 0 {
			wt.ID, wt.Dup = id, s.Chance(1, 3)
			p.PacketIdentifier, p.Duplicate = pid, wt.Dup
		}
		if s.Chance(1, 2) {
			for _, id := range []byte{0x02, 0x23, 0x0B} {
				if s.Chance(1, 2) {
					wt.Props.SetInt(id, []uint32{1, 127, 128, 16383, 16384, 65535}[s.Intn(6)])
				}
			}
			for _, id := range []byte{0x03, 0x08, 0x09} {
				if s.Chance(1, 2) {
					ps(&wt.Props, id, id != 0x09)
				}
			}
			w.codecUser(&wt.Props)
		}
		fillPublish(p, wt)
		switch s.Intn(40) {
		case 39:
			p.QoS, r.bad = packets.QoS(3+s.Intn(2)), "QoS 3"
		case 38:
			p.Topic, r.bad = primitives.PrimitiveString(strings.Repeat("x", 65536)), "topic longer than 65535 bytes"
		case 37:
			if p.TopicAlias == 0 {
				p.Topic, r.bad = "", "no topic"
			}
		}
		r.p = p
	case 1:
		a := ack(wire.PUBACK)
		r.p = &a
	case 2:
		r.p = &packets.Pubrec{Puback: ack(wire.PUBREC)}
	case 3:
		r.p = &packets.Pubrel{Puback: ack(wire.PUBREL)}
	case 4:
		r.p = &packets.Pubcomp{Puback: ack(wire.PUBCOMP)}
	case 5:
		*wt = wire.Packet{Type: wire.DISCONNECT, Reason: reason}
		d := &packets.Disconnect{ReasonCode: primitives.PrimitiveByte(reason)}
		if s.Chance(1, 2) {
			d.SessionExpiryInterval = 70000
			wt.Props.SetInt(0x11, 70000)
		}
		if s.Chance(1, 2) {
			d.ReasonString = ps(&wt.Props, 0x1F, true)
		}
		if s.Chance(1, 3) {
			d.ServerReference = ps(&wt.Props, 0x1C, true)
		}
		if s.Chance(1, 2) {
			d.UserProperties = w.codecUser(&wt.Props)
		}
		r.p = d
		if s.Chance(1, 30) {
			d.ReasonString, r.bad = primitives.PrimitiveString(strings.Repeat("x", 65536)), "reason string longer than 65535 bytes"
		}
	case 6:
		*wt = wire.Packet{Type: wire.AUTH, Reason: []byte{0, 0x18, 0x19}[s.Intn(3)]}
		a := &packets.Auth{AuthenticateReasonCode: primitives.PrimitiveByte(wt.Reason)}
		if s.Chance(2, 3) {
			wt.Props.SetStr(0x15, "m")
			a.AuthenticationMethod = "m"
			a.AuthenticationData = ps(&wt.Props, 0x16, false)
		}
		if s.Chance(1, 2) {
			a.ReasonString = ps(&wt.Props, 0x1F, true)
		}
		if s.Chance(1, 2) {
			a.UserProperties = w.codecUser(&wt.Props)
		}
		r.p = a
		if s.Chance(1, 30) {
			a.AuthenticationMethod, a.AuthenticationData, r.bad = "m", primitives.PrimitiveString(strings.Repeat("x", 65536)), "authentication data longer than 65535 bytes"
		}
	case 7:
		p, want := w.connectPacket(true)
		r.p, r.want = p, want
	case 8:
		*wt = wire.Packet{Type: wire.SUBSCRIBE, ID: id}
		p := &packets.Subscribe{PacketIdentifier: pid}
		if s.Chance(1, 2) {
			v := []uint32{1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455}[s.Intn(8)]
			wt.Props.SetInt(0x0B, v)
			p.SubscriptionIdentifier = primitives.VariableByteInt(v)
		}
		if s.Chance(1, 2) {
			p.UserProperties = w.codecUser(&wt.Props)
		}
		for i := 1 + s.Intn(3); i > 0; i-- {
			t := packets.Topic{}
			f := "f/" + w.codecString(true)
			if len(f) > 65535 {
				f = f[:65535]
			}
			q, rh := s.Intn(3), s.Intn(3)
			o := byte(q | rh<<4)
			t.SetFilter(f)
			t.SetQoS(packets.QoS(q))
			t.SetRetainHandling(packets.RetainHandlingOption(rh))
			if s.Chance(1, 2) {
				t.SetNoLocal(true)
				o |= 4
			}
			if s.Chance(1, 2) {
				t.SetRetainAsPublished(true)
				o |= 8
			}
			p.Topics = append(p.Topics, t)
			wt.Subs = append(wt.Subs, wire.Sub{Filter: f, Opts: o})
		}
		r.p = p
	case 9:
		*wt = wire.Packet{Type: wire.UNSUBSCRIBE, ID: id}
		p := &packets.Unsubscribe{PacketIdentifier: pid}
		if s.Chance(1, 2) {
			p.UserProperties = w.codecUser(&wt.Props)
		}
		for i := 1 + s.Intn(3); i > 0; i-- {
			t := packets.Topic{}
			f := "f/" + w.codecString(true)
			if len(f) > 65535 {
				f = f[:65535]
			}
			t.SetFilter(f)
			p.Topics = append(p.Topics, t)
			wt.Subs = append(wt.Subs, wire.Sub{Filter: f})
		}
		r.p = p
	}
	return r
}

// restore returns what reads the rest of a packet after its fixed header, and how its contents are seen.
func restore(h packets.FixedHeader) (io.ReaderFrom, func() *wire.Packet) {
	switch h.GetType() {
	case packets.PUBLISH:
		p := &packets.Publish{Header: h}
		return p, func() *wire.Packet { return publishOf(p) }
	case packets.PUBACK:
		p := &packets.Puback{Header: h}
		return p, func() *wire.Packet { return ackOf(wire.PUBACK, p) }
	case packets.PUBREC:
		p := &packets.Pubrec{Puback: packets.Puback{Header: h}}
		return p, func() *wire.Packet { return ackOf(wire.PUBREC, &p.Puback) }
	case packets.PUBREL:
		p := &packets.Pubrel{Puback: packets.Puback{Header: h}}
		return p, func() *wire.Packet { return ackOf(wire.PUBREL, &p.Puback) }
	case packets.PUBCOMP:
		p := &packets.Pubcomp{Puback: packets.Puback{Header: h}}
		return p, func() *wire.Packet { return ackOf(wire.PUBCOMP, &p.Puback) }
	case packets.DISCONNECT:
		p := &packets.Disconnect{Header: h}
		return p, func() *wire.Packet {
			q := &wire.Packet{Type: wire.DISCONNECT, Reason: byte(p.ReasonCode)}
			setInt(&q.Props, 0x11, p.SessionExpiryInterval)
			setStr(&q.Props, 0x1F, p.ReasonString)
			setStr(&q.Props, 0x1C, p.ServerReference)
			setUser(&q.Props, p.UserProperties)
			return q
		}
	case packets.AUTH:
		p := &packets.Auth{Header: h}
		return p, func() *wire.Packet {
			q := &wire.Packet{Type: wire.AUTH, Reason: byte(p.AuthenticateReasonCode)}
			setStr(&q.Props, 0x15, p.AuthenticationMethod)
			setStr(&q.Props, 0x16, p.AuthenticationData)
			setStr(&q.Props, 0x1F, p.ReasonString)
			setUser(&q.Props, p.UserProperties)
			return q
		}
	}
	return nil, nil
}

func (w *World) codecMain() {
	w.sim.Cfg.AdvanceNum = 0
	var ts []*simrt.Task
	for i := 0; i < w.cfg.workers; i++ {
		var recs []*record
		for j := 0; j < w.cfg.opsPer; j++ {
			recs = append(recs, w.drawRecord())
		}
		t := w.sim.Spawn(fmt.Sprintf("file%d", i), false, func() {
			if kept, b := w.codecWrite(recs); !w.sim.Stopped() {
				w.codecRead(kept, b)
			}
		})
		t.Data = taskStore
		ts = append(ts, t)
	}
	w.await("users of the disk", 1*sec, func() bool { return allDone(ts) })
	for _, t := range ts {
		if !t.Done() {
			if !w.sim.Stopped() {
				w.violate("C21", "stuck", "writing or reading a record never returns (blocked on %s)", t.BlockedOn())
			}
			return
		}
		simrt.Join(t)
	}
}

// codecWrite appends the records to a file.
func (w *World) codecWrite(recs []*record) (kept []*record, b []byte) {
	x := w.X
	d := &disk{w: w, failAt: -1}
	for _, r := range recs {
		r.from = len(d.b)
		d.failed = false
		if d.failAt = -1; x.Chance(1, 4) {
			d.failAt = r.from + x.Intn([]int{2, 8, 40, 400}[x.Intn(4)])
			d.once = x.Chance(1, 2)
		}
		w.Stats.Ops["WriteTo"]++
		n, err := r.p.WriteTo(d)
		got := d.b[r.from:]
		w.log("%s written at %d: %d bytes, %s", r.want, r.from, len(got), errText(err))
		switch {
		case d.failed && err == nil:
			w.violate("C21", "write-error-swallowed", "%s: WriteTo returned nil although the disk failed after %d bytes", r.want, len(got))
			return
		case d.failed || err != nil && r.bad != "":
			// the end of the file is cut off again
			d.b = d.b[:r.from]
			continue
		case r.bad != "":
			w.violate("C21", "written-inexpressible", "WriteTo returned nil although the packet cannot be encoded (%s)", r.bad)
			return
		case err != nil:
			w.violate("C21", "write-failed", "%s: WriteTo returned %q", r.want, errText(err))
			return
		case n != int64(len(got)):
			w.violate("C21", "write-count", "%s: WriteTo returned %d, but %d bytes were written", r.want, n, len(got))
			return
		}
		p, m, err := wire.Decode(got)
		if err != nil || m != len(got) {
			w.violate("C21", "written-malformed", "%s: WriteTo wrote something else than one control packet (%v; %d of %d bytes): %.60x", r.want, err, m, len(got), got)
			return
		}
		if df := same(p, r.want, false); df != "" {
			w.violate("C21", "written-content", "%s: WriteTo wrote %s: %s", r.want, p, df)
			return
		}
		r.to = len(d.b)
		kept = append(kept, r)
		w.records++
		w.Stats.Probe("record-written")
	}
	return kept, d.b
}

// codecRead reads the records back after a crash.
func (w *World) codecRead(recs []*record, b []byte) {
	x := w.X
	end := len(b)
	if x.Chance(1, 2) && end > 0 {
		// the crash tears the file
		k := end
		if len(recs) > 0 && x.Chance(1, 2) {
			k = end - recs[len(recs)-1].from
		}
		end -= x.Intn(k)
		w.Stats.Fault("disk-torn-write")
	}
	r := &tape{w: w, b: b[:end], failAt: -1, frag: []int{0, 1, 4, 30}[x.Intn(4)], eofData: x.Chance(1, 4)}
	if end > 20000 {
		r.frag *= 1000
	}
	if x.Chance(1, 4) && end > 0 {
		r.failAt = x.Intn(end)
		r.once = x.Chance(1, 2)
	}
	for _, rec := range recs {
		switch rec.want.Type {
		case wire.CONNECT, wire.SUBSCRIBE, wire.UNSUBSCRIBE:
			// cannot be read
			if r.pos = rec.to; r.pos > end || r.failAt >= 0 && r.pos > r.failAt {
				return
			}
			continue
		}
		w.Stats.Ops["ReadFrom"]++
		var view func() *wire.Packet
		var err error
		var n, m int64
		if p := (&packets.Publish{}); rec.want.Type == wire.PUBLISH && x.Chance(1, 2) {
			// the packet reads its own header
			view = func() *wire.Packet { return publishOf(p) }
			m, err = p.ReadFrom(r)
		} else {
			h := packets.FixedHeader{}
			if n, err = h.ReadFrom(r); err == nil {
				var rf io.ReaderFrom
				if rf, view = restore(h); rf == nil {
					w.violate("C21", "wrong-type", "the header of %s was read as type %d", rec.want, h.GetType())
					return
				}
				m, err = rf.ReadFrom(r)
			}
		}
		whole := rec.to <= end && !r.failed && (r.failAt < 0 || rec.to <= r.failAt)
		w.log("%s read at %d: %s", rec.want, rec.from, errText(err))
		if !whole {
			if err == nil {
				w.violate("C21", "torn-accepted", "%s: ReadFrom returned nil although only %d of %d bytes could be read", rec.want, r.pos-rec.from, rec.to-rec.from)
			}
			w.Stats.Probe("torn-record-read")
			return
		}
		if err != nil {
			w.violate("C21", "read-failed", "%s: ReadFrom returned %q", rec.want, errText(err))
			return
		}
		if df := same(view(), rec.want, false); df != "" {
			w.violate("C21", "read-content", "%s was read as %s: %s", rec.want, view(), df)
			return
		}
		if r.pos != rec.to {
			w.violate("C21", "read-too-much", "%s: ReadFrom consumed %d bytes of a packet of %d", rec.want, r.pos-rec.from, rec.to-rec.from)
			return
		}
		if n+m != int64(rec.to-rec.from) {
			w.violate("C21", "read-count", "%s: ReadFrom returned %d+%d for a packet of %d bytes", rec.want, n, m, rec.to-rec.from)
			return
		}
		w.Stats.Probe("record-restored")
	}
}
