package harness

import (
	"fmt"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"verifsim/wire"
)

func setInt[T ~uint8 | ~uint16 | ~uint32](p *wire.Props, id byte, v T) {
	if v != 0 {
		p.SetInt(id, uint32(v))
	}
}

func setStr(p *wire.Props, id byte, v primitives.PrimitiveString) {
	if v != "" {
		p.SetStr(id, string(v))
	}
}

func setUser(p *wire.Props, m primitives.PrimitiveStringMap) {
	for k, v := range m {
		p.User = append(p.User, wire.KV{K: string(k), V: string(v)})
	}
}

func publishOf(p *packets.Publish) *wire.Packet {
	w := &wire.Packet{Type: wire.PUBLISH, Topic: string(p.Topic), QoS: byte(p.QoS), Dup: p.Duplicate, Retain: p.Retain,
		ID: uint16(p.PacketIdentifier), Payload: string(p.Payload)}
	setInt(&w.Props, 0x02, p.MessageExpiryInterval)
	setInt(&w.Props, 0x23, p.TopicAlias)
	setInt(&w.Props, 0x0B, p.SubscriptionIdentifier)
	setStr(&w.Props, 0x08, p.ResponseTopic)
	setStr(&w.Props, 0x09, p.CorrelationData)
	setStr(&w.Props, 0x03, p.ContentType)
	setUser(&w.Props, p.UserProperties)
	return w
}

func ackOf(typ int, p *packets.Puback) *wire.Packet {
	w := &wire.Packet{Type: typ, ID: uint16(p.PacketIdentifier), Reason: byte(p.ReasonCode)}
	setStr(&w.Props, 0x1F, p.ReasonString)
	setUser(&w.Props, p.UserProperties)
	return w
}

// convert turns an event into the packet it says was received.
func convert(e *mqtt.Event) (*wire.Packet, string) {
	if e == nil {
		return nil, "nil event"
	}
	var w *wire.Packet
	switch p := e.Data.(type) {
	case *packets.Connack:
		w = &wire.Packet{Type: wire.CONNACK, Reason: byte(p.ReasonCode), AckFlags: byte(p.Flags)}
		if p.SessionPresent != (w.AckFlags&1 != 0) {
			return nil, fmt.Sprintf("CONNACK SessionPresent=%v with flags %x", p.SessionPresent, w.AckFlags)
		}
		setInt(&w.Props, 0x11, p.SessionExpiryInterval)
		setInt(&w.Props, 0x21, p.ReceiveMaximum)
		setInt(&w.Props, 0x24, p.MaximumQoS)
		setInt(&w.Props, 0x25, p.RetainAvailable)
		setInt(&w.Props, 0x27, p.MaximumPacketSize)
		setStr(&w.Props, 0x12, p.ClientId)
		setInt(&w.Props, 0x22, p.TopicAliasMaximum)
		setStr(&w.Props, 0x1F, p.ReasonString)
		setInt(&w.Props, 0x28, p.WildcardSubscriptions)
		setInt(&w.Props, 0x29, p.SubscriptionIdentifiers)
		setInt(&w.Props, 0x2A, p.SharedSubscriptions)
		setInt(&w.Props, 0x13, p.ServerKeepAlive)
		setStr(&w.Props, 0x1A, p.ResponseInformation)
		setStr(&w.Props, 0x1C, p.ServerReference)
		setStr(&w.Props, 0x15, p.AuthenticationMethod)
		setStr(&w.Props, 0x16, p.AuthenticationData)
		setUser(&w.Props, p.UserProperties)
	case *packets.Publish:
		w = publishOf(p)
	case *packets.Puback:
		w = ackOf(wire.PUBACK, p)
	case *packets.Pubrec:
		w = ackOf(wire.PUBREC, &p.Puback)
	case *packets.Pubrel:
		w = ackOf(wire.PUBREL, &p.Puback)
	case *packets.Pubcomp:
		w = ackOf(wire.PUBCOMP, &p.Puback)
	case *packets.Suback:
		w = &wire.Packet{Type: wire.SUBACK, ID: uint16(p.PacketIdentifier), Reasons: append([]byte(nil), p.ReasonCodes...)}
		setStr(&w.Props, 0x1F, p.ReasonString)
		setUser(&w.Props, p.UserProperties)
	case *packets.Unsuback:
		w = &wire.Packet{Type: wire.UNSUBACK, ID: uint16(p.PacketIdentifier), Reasons: append([]byte(nil), p.ReasonCodes...)}
		setStr(&w.Props, 0x1F, p.ReasonString)
		setUser(&w.Props, p.UserProperties)
	case *packets.Disconnect:
		w = &wire.Packet{Type: wire.DISCONNECT, Reason: byte(p.ReasonCode)}
		setInt(&w.Props, 0x11, p.SessionExpiryInterval)
		setStr(&w.Props, 0x1F, p.ReasonString)
		setStr(&w.Props, 0x1C, p.ServerReference)
		setUser(&w.Props, p.UserProperties)
	case *packets.Auth:
		w = &wire.Packet{Type: wire.AUTH, Reason: byte(p.AuthenticateReasonCode)}
		setStr(&w.Props, 0x15, p.AuthenticationMethod)
		setStr(&w.Props, 0x16, p.AuthenticationData)
		setStr(&w.Props, 0x1F, p.ReasonString)
		setUser(&w.Props, p.UserProperties)
	default:
		return nil, fmt.Sprintf("event of type %d carries %T", e.PacketType, e.Data)
	}
	if int(e.PacketType) != w.Type {
		return nil, fmt.Sprintf("event of type %d carries %T", e.PacketType, e.Data)
	}
	return w, ""
}

func diff(a, b string) string {
	if len(a) > 80 || len(b) > 80 {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		s := func(x string) string {
			e := i + 40
			if e > len(x) {
				e = len(x)
			}
			return fmt.Sprintf("%q (at byte %d of %d)", x[i:e], i, len(x))
		}
		return s(a) + " against " + s(b)
	}
	return fmt.Sprintf("%q against %q", a, b)
}

// same compares a packet with what it should be and says what differs ("" when equal). The packet identifier is
// ignored when ignoreID is set.
func same(got, want *wire.Packet, ignoreID bool) string {
	var d []string
	add := func(n string, a, b any) {
		if a != b {
			d = append(d, fmt.Sprintf("%s: %v, want %v", n, a, b))
		}
	}
	str := func(n, a, b string) {
		if a != b {
			d = append(d, n+": "+diff(a, b))
		}
	}
	add("type", wire.Names[got.Type&15], wire.Names[want.Type&15])
	if len(d) > 0 {
		return d[0]
	}
	if !ignoreID {
		add("identifier", got.ID, want.ID)
	}
	add("reason", got.Reason, want.Reason)
	if got.Type == wire.CONNACK {
		// packets.Connack does not tell a property that is zero from one that is absent
		str("properties", nonZero(got.Props).Canon(), nonZero(want.Props).Canon())
	} else {
		str("properties", got.Props.Canon(), want.Props.Canon())
	}
	switch got.Type {
	case wire.CONNECT:
		add("version", got.Version, want.Version)
		add("connect flags", got.ConnFlags, want.ConnFlags)
		add("keep alive", got.KeepAlive, want.KeepAlive)
		str("client id", got.ClientID, want.ClientID)
		str("will properties", got.WillProps.Canon(), want.WillProps.Canon())
		str("will topic", got.WillTopic, want.WillTopic)
		str("will message", got.WillMsg, want.WillMsg)
		str("user", got.User, want.User)
		str("password", got.Pass, want.Pass)
	case wire.CONNACK:
		add("acknowledge flags", got.AckFlags, want.AckFlags)
	case wire.PUBLISH:
		str("topic", got.Topic, want.Topic)
		str("payload", got.Payload, want.Payload)
		add("QoS", got.QoS, want.QoS)
		add("DUP", got.Dup, want.Dup)
		add("retain", got.Retain, want.Retain)
	case wire.SUBSCRIBE, wire.UNSUBSCRIBE:
		add("number of filters", len(got.Subs), len(want.Subs))
		for i := range want.Subs {
			if i < len(got.Subs) {
				str("filter", got.Subs[i].Filter, want.Subs[i].Filter)
				add("options of "+want.Subs[i].Filter, got.Subs[i].Opts, want.Subs[i].Opts)
			}
		}
	case wire.SUBACK, wire.UNSUBACK:
		str("reason codes", string(got.Reasons), string(want.Reasons))
	}
	return strings.Join(d, "; ")
}

// matches is the topic matching of MQTT 5.0 section 4.7, written level by level.
func matches(topic, filter string) bool {
	if strings.HasPrefix(filter, "$share/") {
		rest := filter[len("$share/"):]
		i := strings.IndexByte(rest, '/')
		if i < 0 {
			return false
		}
		filter = rest[i+1:]
	}
	tl, fl := strings.Split(topic, "/"), strings.Split(filter, "/")
	if strings.HasPrefix(topic, "$") && (fl[0] == "+" || fl[0] == "#") {
		return false
	}
	for i, f := range fl {
		if f == "#" {
			return i == len(fl)-1
		}
		if i >= len(tl) {
			return false
		}
		if f != "+" && (strings.ContainsAny(f, "+#") || f != tl[i]) {
			return false
		}
	}
	return len(fl) == len(tl)
}

func nonZero(p wire.Props) wire.Props {
	m := map[byte]uint32{}
	for k, v := range p.Int {
		if v != 0 {
			m[k] = v
		}
	}
	p.Int = m
	return p
}
