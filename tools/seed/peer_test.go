package mqtt_test

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
)

// peer plays the server at the other end of a pipe.
type peer struct {
	t      *testing.T
	c      net.Conn
	hook   *hooked
	in     chan []byte
	client *mqtt.Client
	stop   chan struct{}
	wg     sync.WaitGroup
	pollMu sync.Mutex
	polls  []error
}

// hooked calls a function after each write of the client.
type hooked struct {
	net.Conn
	mu sync.Mutex
	fn func([]byte)
}

func (h *hooked) Write(b []byte) (int, error) {
	n, err := h.Conn.Write(b)
	h.mu.Lock()
	fn := h.fn
	h.mu.Unlock()
	if fn != nil && err == nil {
		fn(b)
	}
	return n, err
}

func (p *peer) onWrite(fn func([]byte)) {
	p.hook.mu.Lock()
	defer p.hook.mu.Unlock()
	p.hook.fn = fn
}

func newHookedPeer(t *testing.T) *peer { return newPeer(t) }

func newPeer(t *testing.T) *peer {
	a, b := net.Pipe()
	h := &hooked{Conn: a}
	p := &peer{t: t, c: b, hook: h, in: make(chan []byte, 100), client: mqtt.NewClient(h), stop: make(chan struct{})}
	go func() {
		defer close(p.in)
		for {
			h := make([]byte, 1)
			if _, err := io.ReadFull(b, h); err != nil {
				return
			}
			n, shift := 0, 0
			for {
				x := make([]byte, 1)
				if _, err := io.ReadFull(b, x); err != nil {
					return
				}
				n |= int(x[0]&127) << shift
				shift += 7
				if x[0] < 128 {
					break
				}
			}
			body := make([]byte, n)
			if _, err := io.ReadFull(b, body); err != nil {
				return
			}
			p.in <- append(h, body...)
		}
	}()
	t.Cleanup(func() {
		select {
		case <-p.stop:
		default:
			close(p.stop)
		}
		b.Close()
		a.Close()
	})
	return p
}

// send writes raw bytes to the client.
func (p *peer) send(b ...byte) {
	p.c.SetWriteDeadline(time.Now().Add(5 * time.Second))
	if _, err := p.c.Write(b); err != nil && !errors.Is(err, io.ErrClosedPipe) {
		p.t.Logf("peer write: %v", err)
	}
}

// pkt sends a control packet with the given first byte and body (shorter than 128 bytes).
func (p *peer) pkt(first byte, body ...byte) {
	p.send(append([]byte{first, byte(len(body))}, body...)...)
}

// next returns the next packet of the client, fixed header byte first, remaining length removed; nil after d.
func (p *peer) next(d time.Duration) []byte {
	select {
	case b := <-p.in:
		return b
	case <-time.After(d):
		return nil
	}
}

// expect returns the next packet of the given type, skipping others.
func (p *peer) expect(typ byte) []byte {
	p.t.Helper()
	end := time.After(5 * time.Second)
	for {
		select {
		case b, ok := <-p.in:
			if !ok {
				p.t.Fatalf("connection ended while waiting for packet type %d", typ)
			}
			if b[0]>>4 == typ {
				return b
			}
		case <-end:
			p.t.Fatalf("no packet of type %d", typ)
		}
	}
}

// connect performs the handshake; body is the CONNACK after the reason code (properties).
func (p *peer) connect(c *packets.Connect, connack ...byte) error {
	p.t.Helper()
	if c == nil {
		c = &packets.Connect{Version: packets.MQTT5, ClientId: "demo", KeepAlive: 60}
	}
	if len(connack) == 0 {
		connack = []byte{0, 0, 0}
	}
	done := make(chan error, 1)
	go func() {
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		defer cancel()
		done <- p.client.Connect(ctx, c)
	}()
	p.expect(1)
	p.pkt(0x20, connack...)
	select {
	case err := <-done:
		return err
	case <-time.After(6 * time.Second):
		p.t.Fatal("Connect does not return")
	}
	return nil
}

// poll polls until the test ends.
func (p *peer) poll() {
	go func() {
		for {
			select {
			case <-p.stop:
				return
			default:
			}
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Millisecond)
			err := p.client.Poll(ctx)
			cancel()
			if err != nil {
				p.pollMu.Lock()
				p.polls = append(p.polls, err)
				p.pollMu.Unlock()
				return
			}
			time.Sleep(time.Millisecond)
		}
	}()
}

func (p *peer) pollErr() error {
	p.pollMu.Lock()
	defer p.pollMu.Unlock()
	if len(p.polls) > 0 {
		return p.polls[0]
	}
	return nil
}

// pollOnce polls for up to a second.
func (p *peer) pollOnce() error {
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	return p.client.Poll(ctx)
}

// call runs f and fails the test if it does not return.
func (p *peer) call(what string, d time.Duration, f func() error) error {
	p.t.Helper()
	done := make(chan error, 1)
	go func() { done <- f() }()
	select {
	case err := <-done:
		return err
	case <-time.After(d):
		p.t.Fatalf("%s does not return", what)
		return os.ErrDeadlineExceeded
	}
}

func str(s string) []byte { return append([]byte{byte(len(s) >> 8), byte(len(s))}, s...) }

// publish is the body of a PUBLISH.
func publish(topic string, id uint16, payload string) []byte {
	b := str(topic)
	if id != 0 {
		b = append(b, byte(id>>8), byte(id))
	}
	b = append(b, 0)
	return append(b, payload...)
}

func within(d time.Duration) context.Context {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	_ = cancel
	return ctx
}

func id16(b []byte, at int) uint16 { return uint16(b[at])<<8 | uint16(b[at+1]) }
