package wire

import "fmt"

// ---- decoding (server to client, structure only) -------------------------------------------------------------------

var connackProps = []byte{0x11, 0x12, 0x13, 0x15, 0x16, 0x1A, 0x1C, 0x1F, 0x21, 0x22, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A}

// looseVarint reads a variable byte integer of at most four bytes, minimal or not.
func (r *rd) looseVarint() uint32 {
	var v uint32
	for i := 0; i < 4; i++ {
		b := r.u8()
		v |= uint32(b&127) << (7 * i)
		if b&128 == 0 {
			return v
		}
	}
	r.fail("variable byte integer of more than four bytes")
	return 0
}

// looseProps reads a property list. A property that is repeated has its last value; zero values are left out.
func (r *rd) looseProps(allowed []byte) (p Props) {
	if r.left() == 0 {
		return // the length of the list may be left out with it
	}
	n := int(r.looseVarint())
	if r.err != nil {
		return
	}
	if r.left() < n {
		r.fail("property length %d exceeds the packet (%d left)", n, r.left())
		return
	}
	q := &rd{b: r.b[:r.pos+n], pos: r.pos}
	num, str := map[byte]uint32{}, map[byte]string{}
	user, keys := map[string]string{}, []string{}
	for q.left() > 0 && q.err == nil {
		id := q.u8()
		ok := false
		for _, a := range allowed {
			ok = ok || a == id
		}
		if !ok {
			q.fail("property 0x%02x not allowed here", id)
			break
		}
		switch propKind[id] {
		case '1':
			num[id] = uint32(q.u8())
		case '2':
			num[id] = uint32(q.u16())
		case '4':
			num[id] = q.u32()
		case 'v':
			num[id] = q.looseVarint()
		case 's', 'b':
			str[id] = q.bin()
		case 'u':
			k := q.bin()
			if _, ok := user[k]; !ok {
				keys = append(keys, k)
			}
			user[k] = q.bin()
		}
	}
	if q.err != nil {
		r.fail("properties: %v", q.err)
	}
	r.pos += n
	for id, v := range num {
		if v != 0 {
			p.SetInt(id, v)
		}
	}
	for id, v := range str {
		if v != "" {
			p.SetStr(id, v)
		}
	}
	for _, k := range keys {
		p.User = append(p.User, KV{k, user[k]})
	}
	return
}

// DecodeServer decodes the packet at the start of b as far as its structure goes: lengths, property lists, packet types,
// the fields without which a packet has no meaning. What the bytes say is not judged (UTF-8, reserved flags, reason codes,
// repeated properties, forms that are longer than necessary). The error is ErrShort if b ends before the packet.
func DecodeServer(b []byte) (*Packet, int, error) {
	if len(b) == 0 {
		return nil, 0, ErrShort
	}
	n, h := 0, 1
	for i := 0; ; i++ {
		if i == 4 {
			return nil, 0, fmt.Errorf("remaining length of more than four bytes")
		}
		if h >= len(b) {
			return nil, 0, ErrShort
		}
		n |= int(b[h]&127) << (7 * i)
		h++
		if b[h-1]&128 == 0 {
			break
		}
	}
	n += h
	if len(b) < n {
		return nil, n, ErrShort
	}
	r := &rd{b: b[:n], pos: h}
	p := &Packet{Type: int(b[0] >> 4), Flags: b[0] & 15}
	switch p.Type {
	case CONNACK:
		p.AckFlags = r.u8()
		p.Reason = r.u8()
		p.Props = r.looseProps(connackProps)
	case PUBLISH:
		p.Dup, p.QoS, p.Retain = p.Flags&8 != 0, p.Flags>>1&3, p.Flags&1 != 0
		if p.QoS == 3 {
			r.fail("QoS 3")
		}
		p.Topic = r.bin()
		if p.QoS > 0 {
			if p.ID = r.u16(); p.ID == 0 {
				r.fail("packet identifier 0")
			}
		}
		p.Props = r.looseProps(publishProps)
		delete(p.Props.Int, 0x01)
		p.Payload = string(r.b[r.pos:])
		r.pos = len(r.b)
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		p.ID = r.u16()
		if r.left() > 0 {
			p.Reason = r.u8()
			if r.left() > 0 {
				p.Props = r.looseProps(ackProps)
			}
		}
	case SUBACK, UNSUBACK:
		p.ID = r.u16()
		p.Props = r.looseProps(ackProps)
		if p.Reasons = append(p.Reasons, r.b[r.pos:]...); len(p.Reasons) == 0 {
			r.fail("no reason code")
		}
		r.pos = len(r.b)
	case PINGRESP:
	case DISCONNECT, AUTH:
		if r.left() > 0 {
			p.Reason = r.u8()
			if r.left() > 0 {
				p.Props = r.looseProps(map[int][]byte{DISCONNECT: discProps, AUTH: authProps}[p.Type])
			}
		}
	default:
		r.fail("a server may not send it")
	}
	if r.err == nil && r.left() != 0 {
		r.fail("%d bytes left over", r.left())
	}
	if r.err != nil {
		return p, n, fmt.Errorf("%s: %w", Names[p.Type], r.err)
	}
	return p, n, nil
}
