// Package wire is an independent MQTT 5.0 codec written from the OASIS specification. The decoder accepts exactly the
// packets a client may send; the encoder produces what a server sends. It shares no code with the package under test.
package wire

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

const (
	CONNECT = iota + 1
	CONNACK
	PUBLISH
	PUBACK
	PUBREC
	PUBREL
	PUBCOMP
	SUBSCRIBE
	SUBACK
	UNSUBSCRIBE
	UNSUBACK
	PINGREQ
	PINGRESP
	DISCONNECT
	AUTH
)

var Names = []string{"RESERVED0", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK",
	"UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH"}

type KV struct{ K, V string }

// Props holds a property list: integer properties, string/binary properties, user properties.
type Props struct {
	Int  map[byte]uint32
	Str  map[byte]string
	User []KV
}

func (p *Props) SetInt(id byte, v uint32) {
	if p.Int == nil {
		p.Int = map[byte]uint32{}
	}
	p.Int[id] = v
}
func (p *Props) SetStr(id byte, v string) {
	if p.Str == nil {
		p.Str = map[byte]string{}
	}
	p.Str[id] = v
}
func (p Props) Empty() bool { return len(p.Int) == 0 && len(p.Str) == 0 && len(p.User) == 0 }

// Canon is a canonical text of the properties (order-insensitive).
func (p Props) Canon() string {
	var out []string
	for k, v := range p.Int {
		out = append(out, fmt.Sprintf("%02x=%d", k, v))
	}
	for k, v := range p.Str {
		out = append(out, fmt.Sprintf("%02x=%q", k, v))
	}
	for _, u := range p.User {
		out = append(out, fmt.Sprintf("26=%q:%q", u.K, u.V))
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// With returns a copy with another integer property.
func (p Props) With(id byte, v uint32) Props {
	m := map[byte]uint32{id: v}
	for k, x := range p.Int {
		if k != id {
			m[k] = x
		}
	}
	p.Int = m
	return p
}

type Sub struct {
	Filter string
	Opts   byte
}

type Packet struct {
	Type   int
	Flags  byte
	ID     uint16
	Reason byte
	Props  Props

	// CONNECT
	Version   byte
	ConnFlags byte
	KeepAlive uint16
	ClientID  string
	HasWill   bool
	WillQoS   byte
	WillRet   bool
	WillProps Props
	WillTopic string
	WillMsg   string
	HasUser   bool
	User      string
	HasPass   bool
	Pass      string

	// CONNACK
	AckFlags byte

	// PUBLISH
	Topic   string
	Payload string
	QoS     byte
	Dup     bool
	Retain  bool

	// SUBSCRIBE / UNSUBSCRIBE / SUBACK / UNSUBACK
	Subs    []Sub
	Reasons []byte
}

func (p *Packet) String() string {
	if p == nil {
		return "<nil>"
	}
	n := Names[p.Type&15]
	switch p.Type {
	case CONNECT:
		return fmt.Sprintf("CONNECT(flags=%02x ka=%d props=%s)", p.ConnFlags, p.KeepAlive, p.Props.Canon())
	case CONNACK:
		return fmt.Sprintf("CONNACK(flags=%d rc=%02x props=%s)", p.AckFlags, p.Reason, p.Props.Canon())
	case PUBLISH:
		pl := p.Payload
		if len(pl) > 24 {
			pl = pl[:24] + fmt.Sprintf("..(%d)", len(p.Payload))
		}
		return fmt.Sprintf("PUBLISH(q%d id=%d dup=%v topic=%.32q payload=%q)", p.QoS, p.ID, p.Dup, p.Topic, pl)
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		return fmt.Sprintf("%s(id=%d rc=%02x)", n, p.ID, p.Reason)
	case SUBSCRIBE, UNSUBSCRIBE:
		var f []string
		for _, s := range p.Subs {
			f = append(f, fmt.Sprintf("%.24s/%02x", s.Filter, s.Opts))
		}
		return fmt.Sprintf("%s(id=%d %v)", n, p.ID, f)
	case SUBACK, UNSUBACK:
		return fmt.Sprintf("%s(id=%d rcs=%x)", n, p.ID, p.Reasons)
	case DISCONNECT, AUTH:
		return fmt.Sprintf("%s(rc=%02x)", n, p.Reason)
	}
	return n
}

// ---- decoding (client to server) ----------------------------------------------------------------------------------

var ErrShort = errors.New("incomplete")

type rd struct {
	b   []byte
	pos int
	err error
}

func (r *rd) fail(f string, a ...any) {
	if r.err == nil {
		r.err = fmt.Errorf(f, a...)
	}
}
func (r *rd) left() int { return len(r.b) - r.pos }
func (r *rd) u8() byte {
	if r.left() < 1 {
		r.fail("truncated")
		return 0
	}
	v := r.b[r.pos]
	r.pos++
	return v
}
func (r *rd) u16() uint16 { a := r.u8(); b := r.u8(); return uint16(a)<<8 | uint16(b) }
func (r *rd) u32() uint32 { a := r.u16(); b := r.u16(); return uint32(a)<<16 | uint32(b) }
func (r *rd) bin() string {
	n := int(r.u16())
	if r.left() < n {
		r.fail("truncated string")
		return ""
	}
	s := string(r.b[r.pos : r.pos+n])
	r.pos += n
	return s
}
func (r *rd) str() string {
	s := r.bin()
	if !utf8.ValidString(s) || strings.ContainsRune(s, 0) {
		r.fail("ill-formed UTF-8 string %q", s)
	}
	return s
}
func (r *rd) varint() uint32 {
	var v uint32
	for i := 0; i < 4; i++ {
		b := r.u8()
		v |= uint32(b&127) << (7 * i)
		if b&128 == 0 {
			if i > 0 && b == 0 {
				r.fail("non-minimal variable byte integer")
			}
			return v
		}
	}
	r.fail("variable byte integer too long")
	return 0
}

// property kinds: 1 byte, 2 bytes, 4 bytes, v varint, s string, b binary, u user
var propKind = map[byte]byte{
	0x01: '1', 0x02: '4', 0x03: 's', 0x08: 's', 0x09: 'b', 0x0B: 'v', 0x11: '4', 0x12: 's', 0x13: '2', 0x15: 's', 0x16: 'b',
	0x17: '1', 0x18: '4', 0x19: '1', 0x1A: 's', 0x1C: 's', 0x1F: 's', 0x21: '2', 0x22: '2', 0x23: '2', 0x24: '1', 0x25: '1',
	0x26: 'u', 0x27: '4', 0x28: '1', 0x29: '1', 0x2A: '1',
}

var (
	connectProps   = []byte{0x11, 0x15, 0x16, 0x17, 0x19, 0x21, 0x22, 0x26, 0x27}
	willProps      = []byte{0x01, 0x02, 0x03, 0x08, 0x09, 0x18, 0x26}
	publishProps   = []byte{0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x23, 0x26}
	ackProps       = []byte{0x1F, 0x26}
	subscribeProps = []byte{0x0B, 0x26}
	unsubProps     = []byte{0x26}
	discProps      = []byte{0x11, 0x1C, 0x1F, 0x26}
	authProps      = []byte{0x15, 0x16, 0x1F, 0x26}
)

func (r *rd) props(allowed []byte) (p Props) {
	n := int(r.varint())
	if r.err != nil {
		return
	}
	if r.left() < n {
		r.fail("property length %d exceeds the packet (%d left)", n, r.left())
		return
	}
	q := &rd{b: r.b[:r.pos+n], pos: r.pos}
	seen := map[byte]bool{}
	for q.left() > 0 && q.err == nil {
		id := byte(q.varint())
		ok := false
		for _, a := range allowed {
			ok = ok || a == id
		}
		if !ok {
			q.fail("property 0x%02x not allowed here", id)
			break
		}
		if seen[id] && id != 0x26 && id != 0x0B {
			q.fail("duplicate property 0x%02x", id)
			break
		}
		seen[id] = true
		switch propKind[id] {
		case '1':
			p.SetInt(id, uint32(q.u8()))
		case '2':
			p.SetInt(id, uint32(q.u16()))
		case '4':
			p.SetInt(id, q.u32())
		case 'v':
			p.SetInt(id, q.varint())
		case 's':
			p.SetStr(id, q.str())
		case 'b':
			p.SetStr(id, q.bin())
		case 'u':
			k := q.str()
			p.User = append(p.User, KV{k, q.str()})
		}
	}
	if q.err != nil {
		r.fail("properties: %v", q.err)
	}
	for _, id := range []byte{0x21, 0x23, 0x27, 0x0B} {
		if v, ok := p.Int[id]; ok && v == 0 {
			r.fail("property 0x%02x must not be zero", id)
		}
	}
	if strings.ContainsAny(p.Str[0x08], "+#") {
		r.fail("wildcard in response topic %q", p.Str[0x08])
	}
	for _, id := range []byte{0x17, 0x19, 0x01} {
		if v := p.Int[id]; v > 1 {
			r.fail("property 0x%02x must be 0 or 1", id)
		}
	}
	r.pos += n
	return
}

// Size returns the total length of the packet at the start of b, or ErrShort.
func Size(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, ErrShort
	}
	var v, i int
	for {
		if i == 4 {
			return 0, errors.New("malformed remaining length")
		}
		if 1+i >= len(b) {
			return 0, ErrShort
		}
		c := b[1+i]
		v |= int(c&127) << (7 * i)
		i++
		if c&128 == 0 {
			if i > 1 && c == 0 {
				return 0, errors.New("non-minimal remaining length")
			}
			break
		}
	}
	return 1 + i + v, nil
}

// Decode decodes one packet sent by a client from the start of b. It returns ErrShort when more bytes are needed.
func Decode(b []byte) (*Packet, int, error) {
	if len(b) > 0 {
		t := int(b[0] >> 4)
		fl := b[0] & 15
		want := byte(0)
		switch t {
		case CONNECT, PUBACK, PUBREC, PUBCOMP, PINGREQ, DISCONNECT, AUTH:
		case PUBREL, SUBSCRIBE, UNSUBSCRIBE:
			want = 2
		case PUBLISH:
			want = fl
			if fl>>1&3 == 3 {
				return nil, 0, errors.New("PUBLISH with QoS 3")
			}
		default:
			return nil, 0, fmt.Errorf("packet type %s may not be sent by a client", Names[t])
		}
		if fl != want {
			return nil, 0, fmt.Errorf("%s with fixed header flags %x", Names[t], fl)
		}
	}
	n, err := Size(b)
	if err != nil {
		return nil, 0, err
	}
	if len(b) < n {
		return nil, n, ErrShort
	}
	h := 1
	for b[h]&128 != 0 {
		h++
	}
	r := &rd{b: b[:n], pos: h + 1}
	p := &Packet{Type: int(b[0] >> 4), Flags: b[0] & 15}
	switch p.Type {
	case CONNECT:
		if s := r.str(); s != "MQTT" {
			r.fail("protocol name %q", s)
		}
		p.Version = r.u8()
		p.ConnFlags = r.u8()
		if p.ConnFlags&1 != 0 {
			r.fail("reserved connect flag set")
		}
		p.KeepAlive = r.u16()
		p.Props = r.props(connectProps)
		if _, d := p.Props.Str[0x16]; d {
			if _, m := p.Props.Str[0x15]; !m {
				r.fail("authentication data without method")
			}
		}
		p.ClientID = r.str()
		p.HasWill = p.ConnFlags&4 != 0
		p.WillQoS = p.ConnFlags >> 3 & 3
		p.WillRet = p.ConnFlags&32 != 0
		if p.HasWill {
			p.WillProps = r.props(willProps)
			p.WillTopic = r.str()
			p.WillMsg = r.bin()
			if p.WillQoS == 3 {
				r.fail("will QoS 3")
			}
			if p.WillTopic == "" || strings.ContainsAny(p.WillTopic, "+#") {
				r.fail("will topic %q", p.WillTopic)
			}
		} else if p.WillQoS != 0 || p.WillRet {
			r.fail("will QoS/retain without will")
		}
		if p.HasUser = p.ConnFlags&128 != 0; p.HasUser {
			p.User = r.str()
		}
		if p.HasPass = p.ConnFlags&64 != 0; p.HasPass {
			p.Pass = r.bin()
		}
	case PUBLISH:
		p.Dup, p.QoS, p.Retain = p.Flags&8 != 0, p.Flags>>1&3, p.Flags&1 != 0
		if p.Dup && p.QoS == 0 {
			r.fail("DUP on QoS 0")
		}
		p.Topic = r.str()
		if strings.ContainsAny(p.Topic, "+#") {
			r.fail("wildcard in topic name %q", p.Topic)
		}
		if p.QoS > 0 {
			if p.ID = r.u16(); p.ID == 0 {
				r.fail("packet identifier 0")
			}
		}
		p.Props = r.props(publishProps)
		if _, alias := p.Props.Int[0x23]; p.Topic == "" && !alias {
			r.fail("empty topic")
		}
		p.Payload = string(r.b[r.pos:])
		r.pos = len(r.b)
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		if p.ID = r.u16(); p.ID == 0 {
			r.fail("packet identifier 0")
		}
		if r.left() > 0 {
			p.Reason = r.u8()
			if r.left() > 0 {
				p.Props = r.props(ackProps)
			}
		}
	case SUBSCRIBE:
		if p.ID = r.u16(); p.ID == 0 {
			r.fail("packet identifier 0")
		}
		p.Props = r.props(subscribeProps)
		for r.left() > 0 && r.err == nil {
			s := Sub{Filter: r.str(), Opts: r.u8()}
			if s.Opts&0xC0 != 0 || s.Opts&3 == 3 || s.Opts>>4&3 == 3 {
				r.fail("subscription options %02x", s.Opts)
			}
			if s.Filter == "" {
				r.fail("empty topic filter")
			}
			if s.Opts&4 != 0 && strings.HasPrefix(s.Filter, "$share/") {
				r.fail("no-local on a shared subscription")
			}
			p.Subs = append(p.Subs, s)
		}
		if len(p.Subs) == 0 {
			r.fail("no topic filter")
		}
	case UNSUBSCRIBE:
		if p.ID = r.u16(); p.ID == 0 {
			r.fail("packet identifier 0")
		}
		p.Props = r.props(unsubProps)
		for r.left() > 0 && r.err == nil {
			p.Subs = append(p.Subs, Sub{Filter: r.str()})
			if p.Subs[len(p.Subs)-1].Filter == "" {
				r.fail("empty topic filter")
			}
		}
		if len(p.Subs) == 0 {
			r.fail("no topic filter")
		}
	case PINGREQ:
	case DISCONNECT:
		if r.left() > 0 {
			p.Reason = r.u8()
			if r.left() > 0 {
				p.Props = r.props(discProps)
			}
		}
	case AUTH:
		if r.left() > 0 {
			p.Reason = r.u8()
			p.Props = r.props(authProps)
		}
	}
	if r.err == nil && r.left() != 0 {
		r.fail("%d bytes left over", r.left())
	}
	if r.err != nil {
		return p, n, fmt.Errorf("%s: %w", Names[p.Type], r.err)
	}
	return p, n, nil
}

// ---- encoding (server to client) ----------------------------------------------------------------------------------

type wr struct{ b []byte }

func (w *wr) u8(v byte)    { w.b = append(w.b, v) }
func (w *wr) u16(v uint16) { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *wr) u32(v uint32) { w.u16(uint16(v >> 16)); w.u16(uint16(v)) }
func (w *wr) str(s string) { w.u16(uint16(len(s))); w.b = append(w.b, s...) }
func (w *wr) varint(v uint32) {
	for {
		c := byte(v & 127)
		v >>= 7
		if v > 0 {
			c |= 128
		}
		w.u8(c)
		if v == 0 {
			return
		}
	}
}

// EncodeProps encodes a property list, length first.
func EncodeProps(p Props) []byte {
	q := &wr{}
	var ids []int
	for k := range p.Int {
		ids = append(ids, int(k))
	}
	for k := range p.Str {
		ids = append(ids, int(k))
	}
	sort.Ints(ids)
	for _, i := range ids {
		id := byte(i)
		q.u8(id)
		switch propKind[id] {
		case '1':
			q.u8(byte(p.Int[id]))
		case '2':
			q.u16(uint16(p.Int[id]))
		case '4':
			q.u32(p.Int[id])
		case 'v':
			q.varint(p.Int[id])
		default:
			q.str(p.Str[id])
		}
	}
	for _, u := range p.User {
		q.u8(0x26)
		q.str(u.K)
		q.str(u.V)
	}
	w := &wr{}
	w.varint(uint32(len(q.b)))
	return append(w.b, q.b...)
}

// Frame puts a fixed header in front of a body.
func Frame(first byte, body []byte) []byte {
	w := &wr{}
	w.u8(first)
	w.varint(uint32(len(body)))
	return append(w.b, body...)
}

// Encode encodes a packet sent by a server. short selects the short forms the specification allows for
// acknowledgements and DISCONNECT.
func Encode(p *Packet, short bool) []byte {
	w := &wr{}
	first := byte(p.Type) << 4
	switch p.Type {
	case CONNACK:
		w.u8(p.AckFlags)
		w.u8(p.Reason)
		w.b = append(w.b, EncodeProps(p.Props)...)
	case PUBLISH:
		if p.Dup {
			first |= 8
		}
		if p.Retain {
			first |= 1
		}
		first |= p.QoS << 1
		w.str(p.Topic)
		if p.QoS > 0 {
			w.u16(p.ID)
		}
		w.b = append(w.b, EncodeProps(p.Props)...)
		w.b = append(w.b, p.Payload...)
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		if p.Type == PUBREL {
			first |= 2
		}
		w.u16(p.ID)
		if p.Props.Empty() && short {
			if p.Reason != 0 {
				w.u8(p.Reason)
			}
		} else {
			w.u8(p.Reason)
			w.b = append(w.b, EncodeProps(p.Props)...)
		}
	case SUBACK, UNSUBACK:
		w.u16(p.ID)
		w.b = append(w.b, EncodeProps(p.Props)...)
		w.b = append(w.b, p.Reasons...)
	case PINGRESP:
	case DISCONNECT, AUTH:
		if p.Props.Empty() && short {
			if p.Reason != 0 {
				w.u8(p.Reason)
			}
		} else {
			w.u8(p.Reason)
			w.b = append(w.b, EncodeProps(p.Props)...)
		}
	}
	return Frame(first, w.b)
}
