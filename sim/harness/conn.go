package harness

import (
	"errors"
	"io"
	"math"
	"net"
	"os"
	"syscall"
	"time"

	simtime "verifsim/shim/time"
	"verifsim/simrt"
	"verifsim/wire"
)

// Conn is the simulated transport: the client's end of a TCP connection (net.Conn), with the deadline, short-read,
// partial-write, EOF, reset and close behaviour of the real thing, all of it decided by the run's choice streams.
type Conn struct {
	w  *World
	id int
	cl *Client

	// server to client
	sent      []byte   // everything the server has written
	in        []*InPkt // packets within sent
	arrived   int      // bytes of sent that have reached the client's socket
	rpos      int      // bytes the client has read
	lastAt    int64    // FIFO: arrival time of the latest segment
	eof       bool     // the server has closed its end (effective once everything arrived was read)
	rst       bool
	dead      bool // the network is gone: setting a deadline fails as well
	cutAt     int  // server bytes after which the connection breaks (-1: never)
	cutRST    bool
	cutDead   bool
	srvClosed bool

	// client to server
	out         []byte // everything accepted from the client
	outMeta     []outSeg
	parsed      int // bytes of out parsed into packets
	outP        []*OutPkt
	brokerAt    int // bytes of out that have reached the broker
	brokerP     int // packets of outP handed to the broker
	wLastAt     int64
	stallAt     int // accept no byte at or after this offset ... (-1: never)
	stallFor    int64
	stalled     bool
	stallEnd    int64
	wfailAt     int // a write failed part-way at this offset (-1: none)
	wErr        bool
	wErrSeq     uint64
	stalledEver bool
	lulled      bool
	badOut      bool

	rdl, wdl   int64
	closed     bool
	closedSeq  uint64
	closer     *Op // the call that closed the connection
	closedT    int64
	closeCalls int
	reading    bool
	writing    bool
	rsv, wsv   simrt.SyncVar

	brokenSeq uint64 // the transport failed (cut, reset)
	handed    bool   // the broker noticed the end
	frag      int
	onPacket  func(*Conn, *OutPkt)
	onEOF     func(*Conn)
}

type outSeg struct {
	from, to int
	seq      uint64
	task     *simrt.Task
	t        int64
}

// OutPkt is a packet the client wrote.
type OutPkt struct {
	Conn       *Conn
	From, To   int
	Seq0, Seq1 uint64
	T          int64
	Task       *simrt.Task
	P          *wire.Packet
	Err        error
	Op         *Op
	Matched    bool
	Reply      bool
	stored     storeSnap // storage state when the first byte was accepted
	acked      bool      // the client has read the final acknowledgement
	ackSeq     uint64
	ackIP      *InPkt
	recSeq     uint64 // the client has read a successful PUBREC
	auto       *Op    // sent again by the client itself
}

// InPkt is a packet the server wrote.
type InPkt struct {
	Conn     *Conn
	Idx      int
	From, To int
	SentT    int64
	P        *wire.Packet // nil for raw bytes
	Raw      bool
	Why      string
	loose    *wire.Packet // raw bytes: what they say
	ReadSeq  uint64       // the client read its last byte
	ReadT    int64
	FirstSeq uint64
	ArrivedT int64
	Arrived  bool
	extra    bool // not part of a conforming conversation
	poll     *Op  // the call that consumed it
	ev       *EvRec
	forOut   *OutPkt // the client's PUBLISH it acknowledges
	over     bool    // beyond the client's receive maximum
	again    bool    // an inbound QoS 2 identifier that is still in use
	dupOf    *InPkt
	msg      *SrvMsg
}

const never = math.MaxInt64

func (w *World) newConn() *Conn {
	c := &Conn{w: w, id: len(w.conns), cutAt: -1, stallAt: -1, wfailAt: -1, rdl: never, wdl: never}
	w.conns = append(w.conns, c)
	return c
}

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "192.0.2.1:1883" }

func (c *Conn) LocalAddr() net.Addr  { return addr{} }
func (c *Conn) RemoteAddr() net.Addr { return addr{} }

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: addr{}, Addr: addr{}, Err: err}
}

func (c *Conn) setDL(p *int64, t time.Time) error {
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	if t.IsZero() {
		*p = never
		return nil
	}
	*p = simtime.Ns(t)
	if *p == never {
		*p = never - 1
	}
	if *p > c.w.sim.Now() {
		c.w.sim.At(*p, func() {})
	}
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error {
	if simrt.Dying() {
		return net.ErrClosed
	}
	simrt.Yield()
	if c.dead && !c.closed {
		c.w.Stats.Fault("set-deadline-error")
		return opErr("set", os.NewSyscallError("setsockopt", syscall.ENETDOWN))
	}
	if err := c.setDL(&c.rdl, t); err != nil {
		return err
	}
	return c.setDL(&c.wdl, t)
}
func (c *Conn) SetReadDeadline(t time.Time) error  { simrt.Yield(); return c.setDL(&c.rdl, t) }
func (c *Conn) SetWriteDeadline(t time.Time) error { simrt.Yield(); return c.setDL(&c.wdl, t) }

func (c *Conn) rExpired() bool { return c.rdl <= c.w.sim.Now() }

// watchPing: a KeepAlive whose PINGREQ cannot be written gives up after some time.
func (c *Conn) watchPing(free func() bool) {
	w, cl := c.w, c.cl
	o := cl.cur[w.sim.Cur()]
	if o == nil || o.Kind != "KeepAlive" || !cl.kaKnown || cl.kaEff == 0 || cl.hostile || free() {
		return
	}
	w.sim.After(2*cl.kaEff+sec, func() {
		if w.phase < 2 && o.live() && o.Task.BlockedOn() == "conn write" && !free() {
			w.violate("C10", "no-deadline", "%s still waits for the network %s after it began to send, twice the keep alive interval and more", o.text(), secs(2*cl.kaEff+sec))
		}
	})
}

// watchWrite: a call whose packet the network does not take gives up at the deadline of its context.
func (c *Conn) watchWrite(free func() bool) {
	w, cl := c.w, c.cl
	o := cl.cur[w.sim.Cur()]
	if o == nil || o.dl == never || o.Kind == "Poll" || o.Kind == "KeepAlive" || cl.hostile || free() {
		return
	}
	w.sim.At(max(o.dl, w.sim.Now())+sec, func() {
		if w.phase < 2 && o.live() && o.Task.BlockedOn() == "conn write" && !free() {
			w.violate("C11", "deadline-ignored", "%s still waits for the network %s after the deadline of its context", o.text(), secs(w.sim.Now()-o.dl))
		}
	})
}

func (c *Conn) wExpired() bool { return c.wdl <= c.w.sim.Now() }

func (c *Conn) Read(p []byte) (n int, err error) {
	if simrt.Dying() {
		return 0, net.ErrClosed
	}
	defer func() {
		if err != nil && !errors.Is(err, os.ErrDeadlineExceeded) && !errors.Is(err, net.ErrClosed) && !simrt.Dying() {
			if op := c.cl.cur[c.w.sim.Cur()]; op != nil && op.endRead == "" {
				op.endRead = err.Error()
			}
		}
	}()
	simrt.Yield()
	if c.reading {
		simrt.Block("conn read lock", func() bool { return !c.reading || c.closed })
	}
	if c.closed {
		return 0, opErr("read", net.ErrClosed)
	}
	if len(p) == 0 {
		return 0, nil
	}
	c.rsv.Acquire()
	c.reading = true
	defer func() { c.rsv.Release(); c.reading = false }()
	if c.rExpired() {
		c.w.Stats.Fault("read-deadline")
		return 0, opErr("read", os.ErrDeadlineExceeded)
	}
	for {
		if c.closed {
			return 0, opErr("read", net.ErrClosed)
		}
		if c.rst {
			return 0, opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if c.arrived > c.rpos {
			n := c.arrived - c.rpos
			if n > len(p) {
				n = len(p)
			}
			if c.frag > 0 && n > 1 && !c.w.sim.Quiet && c.w.N.Chance(c.frag, 8) {
				k := 1 + c.w.N.Intn(n)
				if k < n {
					c.w.Stats.Fault("short-read")
				}
				n = k
			}
			copy(p, c.sent[c.rpos:c.rpos+n])
			c.consume(n)
			return n, nil
		}
		if c.eof {
			return 0, io.EOF
		}
		simrt.Block("conn read", func() bool {
			return c.closed || c.rst || c.eof || c.arrived > c.rpos || c.rExpired()
		})
		if c.closed {
			continue
		}
		if c.rExpired() && !(c.arrived > c.rpos && !c.w.N.Chance(1, 3)) {
			c.w.Stats.Fault("read-timeout")
			return 0, opErr("read", os.ErrDeadlineExceeded)
		}
	}
}

func (c *Conn) consume(n int) {
	from := c.rpos
	c.rpos += n
	seq := c.w.sim.NextSeq()
	for _, p := range c.in {
		if p.To <= from {
			continue
		}
		if p.From >= c.rpos {
			break
		}
		if p.FirstSeq == 0 {
			p.FirstSeq = seq
		}
		if p.To <= c.rpos && p.ReadSeq == 0 {
			p.ReadSeq = seq
			p.ReadT = c.w.sim.Now()
			c.w.log("conn%d: client read %s", c.id, p.text())
			c.w.onRead(p)
		}
	}
}

func (p *InPkt) text() string {
	if p.P == nil {
		return "raw(" + p.Why + ")"
	}
	return p.P.String()
}

func (c *Conn) Write(p []byte) (n int, err error) {
	if simrt.Dying() {
		return 0, net.ErrClosed
	}
	simrt.Yield()
	if c.writing {
		simrt.Block("conn write lock", func() bool { return !c.writing || c.closed })
	}
	c.wsv.Acquire()
	c.writing = true
	defer func() {
		c.wsv.Release()
		c.writing = false
		if err != nil && !simrt.Dying() {
			c.wErr = true
			if clean := n == 0 && isTimeout(err) && c.parsed == len(c.out); !clean && c.wErrSeq == 0 {
				c.wErrSeq = c.w.sim.NextSeq()
			}
			c.w.log("conn%d: write failed after %d of %d bytes: %v", c.id, n, len(p), err)
			if n > 0 && n < len(p) {
				c.wfailAt = len(c.out)
				c.w.Stats.Fault("partial-write")
			}
		}
	}()
	if c.closed {
		return 0, opErr("write", net.ErrClosed)
	}
	if c.wExpired() {
		c.w.Stats.Fault("write-deadline")
		return 0, opErr("write", os.ErrDeadlineExceeded)
	}
	for n < len(p) {
		if c.closed {
			return n, opErr("write", net.ErrClosed)
		}
		if c.rst || c.handed && c.eof {
			return n, opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		room := len(p) - n
		if c.stallAt >= 0 && len(c.out)+room > c.stallAt {
			room = c.stallAt - len(c.out)
		}
		if room > 1 && c.frag > 0 && !c.w.sim.Quiet && c.w.N.Chance(1, 8) {
			room = 1 + c.w.N.Intn(room)
		}
		if room > 0 {
			c.accept(p[n : n+room])
			n += room
			if n < len(p) {
				simrt.Yield()
				if c.wExpired() {
					return n, opErr("write", os.ErrDeadlineExceeded)
				}
			}
			continue
		}
		// the send buffer is full: the peer has stopped reading
		if !c.stalled {
			c.stalled, c.stalledEver = true, true
			c.stallEnd = never
			if c.stallFor > 0 {
				c.stallEnd = c.w.sim.Now() + c.stallFor
				c.w.sim.At(c.stallEnd, func() {})
			}
			c.w.Stats.Fault("write-stall")
			c.w.log("conn%d: send buffer full", c.id)
		}
		free := func() bool {
			return c.closed || c.rst || c.wExpired() || c.stallAt < 0 || c.w.sim.Now() >= c.stallEnd || c.handed && c.eof
		}
		c.watchPing(free)
		c.watchWrite(free)
		simrt.Block("conn write", free)
		if c.w.sim.Now() >= c.stallEnd {
			c.stallAt, c.stalled = -1, false
		}
		if c.wExpired() && !c.closed {
			c.w.Stats.Fault("write-timeout")
			return n, opErr("write", os.ErrDeadlineExceeded)
		}
	}
	return n, nil
}

func (c *Conn) accept(b []byte) {
	w := c.w
	seq := w.sim.NextSeq()
	if c.wfailAt >= 0 && !c.badOut {
		c.badOut = true
		w.violate("C01", "write-after-partial", "conn%d: client wrote %x after a write had failed in the middle of a packet", c.id, clip(b))
	}
	from := len(c.out)
	c.out = append(c.out, b...)
	c.outMeta = append(c.outMeta, outSeg{from, len(c.out), seq, w.sim.Cur(), w.sim.Now()})
	c.parse()
	if w.cfg.noBroker {
		return
	}
	at := w.sim.Now() + w.lat()
	if at < c.wLastAt {
		at = c.wLastAt
	}
	c.wLastAt = at
	upto := len(c.out)
	w.sim.At(at, func() {
		c.brokerAt = upto
		c.feed()
	})
}

func (c *Conn) metaAt(off int) outSeg {
	for i := len(c.outMeta) - 1; i >= 0; i-- {
		if c.outMeta[i].from <= off && off < c.outMeta[i].to {
			return c.outMeta[i]
		}
	}
	return outSeg{}
}

// parse decodes whatever is complete; protocol errors are reported once.
func (c *Conn) parse() {
	for c.parsed < len(c.out) && !c.badOut {
		// announce the packet at its first byte, so that oracles see the instant it starts
		if n := len(c.outP); n == 0 || c.outP[n-1].To != 0 {
			m := c.metaAt(c.parsed)
			op := &OutPkt{Conn: c, From: c.parsed, Seq0: m.seq, T: m.t, Task: m.task}
			op.stored = c.cl.store.snap()
			c.outP = append(c.outP, op)
		}
		o := c.outP[len(c.outP)-1]
		p, n, err := wire.Decode(c.out[c.parsed:])
		if errors.Is(err, wire.ErrShort) {
			return
		}
		if err != nil {
			c.badOut = true
			o.Err = err
			o.P = p
			o.To = len(c.out)
			if p != nil && p.ID == 0 && (p.Type == wire.PUBLISH || p.Type == wire.SUBSCRIBE || p.Type == wire.UNSUBSCRIBE) {
				c.w.violate("C17", "zero", "conn%d: client sent a packet with identifier 0: %v", c.id, err)
			}
			c.w.violate("C01", "malformed", "conn%d: client sent an invalid packet: %v (bytes %x)", c.id, err, clip(c.out[c.parsed:]))
			return
		}
		m := c.metaAt(c.parsed + n - 1)
		o.To, o.Seq1, o.P = c.parsed+n, m.seq, p
		c.parsed += n
		c.w.log("conn%d: client sent %s", c.id, p.String())
		c.w.Stats.Out[p.Type]++
		c.w.onOut(o)
	}
}

func clip(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

// feed hands complete packets to the broker.
func (c *Conn) feed() {
	for c.brokerP < len(c.outP) {
		o := c.outP[c.brokerP]
		if o.To == 0 || o.P == nil || o.To > c.brokerAt {
			break
		}
		c.brokerP++
		if o.Err == nil && c.onPacket != nil && !c.srvClosed {
			c.onPacket(c, o)
		}
	}
	if c.closed && c.brokerAt >= len(c.out) && !c.handed {
		c.handed = true
		if c.onEOF != nil {
			c.onEOF(c)
		}
	}
}

func (c *Conn) Close() error {
	if simrt.Dying() {
		return nil
	}
	simrt.Yield()
	c.closeCalls++
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.closedSeq = c.w.sim.NextSeq()
	c.closer = c.cl.cur[c.w.sim.Cur()]
	c.closedT = c.w.sim.Now()
	c.w.log("conn%d: client closed the connection", c.id)
	at := c.w.sim.Now() + c.w.lat()
	if at < c.wLastAt {
		at = c.wLastAt
	}
	c.w.sim.At(at, func() { c.brokerAt = len(c.out); c.feed() })
	simrt.Yield()
	if c.w.cfg.closeErr {
		// what a TLS connection does when the alert cannot be sent any more: it is closed all the same
		c.w.Stats.Fault("close-error")
		return opErr("close", errClose)
	}
	return nil
}

var errClose = errors.New("closing handshake failed (injected)")

// ---- server side --------------------------------------------------------------------------------------------------

// srvWrite appends bytes to the server-to-client stream and schedules their arrival.
func (c *Conn) srvWrite(b []byte) {
	w := c.w
	if c.srvClosed || c.rst {
		return
	}
	from := len(c.sent)
	c.sent = append(c.sent, b...)
	if c.cutAt >= 0 && from > c.cutAt {
		return
	}
	pos := from
	gaps := int64(0)
	for pos < len(c.sent) {
		n := len(c.sent) - pos
		if n > 1 && c.frag > 0 && w.N.Chance(c.frag, 8) {
			n = 1 + w.N.Intn(n)
			w.Stats.Fault("fragment")
		}
		pos += n
		at := w.sim.Now() + w.lat()
		if n < len(c.sent)-from && w.cfg.gapMax > 0 && w.phase < 2 && gaps < 20*sec && w.N.Chance(1, 3) {
			g := int64(w.N.Intn(w.cfg.gapMax)) * 1_000_000
			gaps += g // a packet never takes longer to arrive than the client is prepared to wait
			at = c.lastAt + g
			if at < w.sim.Now() {
				at = w.sim.Now()
			}
		}
		if at < c.lastAt {
			at = c.lastAt
		}
		if w.cfg.lull && pos < len(c.sent) && !c.lulled && w.phase < 2 && w.X.Chance(1, 6) {
			c.lulled = true
			w.sim.At(at, func() {
				w.Stats.Fault("stream-stall")
				w.log("conn%d: the stream stops in the middle of a packet", c.id)
				c.stalledEver = true
				if c.brokenSeq == 0 {
					c.brokenSeq = w.sim.NextSeq()
				}
			})
			c.lastAt = at + int64(31+w.X.Intn(70))*sec
		} else {
			c.lastAt = at
		}
		upto := pos
		if c.cutAt >= 0 && upto >= c.cutAt {
			upto = c.cutAt
			w.sim.At(at, func() { c.arrive(upto); c.breakNow() })
			return
		}
		w.sim.At(at, func() { c.arrive(upto) })
	}
}

func (c *Conn) arrive(upto int) {
	if c.rst || c.eof || upto <= c.arrived {
		return
	}
	c.arrived = upto
	for _, p := range c.in {
		if p.To <= upto && !p.Arrived {
			p.Arrived, p.ArrivedT = true, c.w.sim.Now()
		}
	}
}

// breakNow ends the connection from the server side.
func (c *Conn) breakNow() {
	if c.rst || c.eof {
		return
	}
	c.brokenSeq = c.w.sim.NextSeq()
	c.srvClosed = true
	if c.cutRST || c.cutDead {
		c.rst, c.dead = true, c.cutDead
		c.w.Stats.Fault("conn-reset")
		c.w.log("conn%d: connection reset", c.id)
	} else {
		c.eof = true
		c.w.Stats.Fault("conn-eof")
		c.w.log("conn%d: connection ended by the server after %d bytes", c.id, c.arrived)
		c.w.sim.After(c.w.lat(), func() { c.handed = true }) // later writes meet a reset
	}
	if c.onEOF != nil {
		c.onEOF(c)
	}
}

// srvClose closes after everything written so far has arrived.
func (c *Conn) srvClose(reset bool) {
	if c.srvClosed {
		return
	}
	c.srvClosed = true
	c.cutRST = reset
	at := c.w.sim.Now() + c.w.lat()
	if at < c.lastAt {
		at = c.lastAt
	}
	c.lastAt = at
	c.w.sim.At(at, func() { c.breakNow() })
}

// srvSend writes one packet.
// srvSend sends a packet; what is encoded can differ from what the client must see (topic aliases).
func (c *Conn) srvSend(p, sent *wire.Packet, short bool) *InPkt {
	ip := &InPkt{Conn: c, Idx: len(c.in), From: len(c.sent), SentT: c.w.sim.Now(), P: p}
	b := wire.Encode(sent, short)
	ip.To = ip.From + len(b)
	c.in = append(c.in, ip)
	if sent.Topic != p.Topic {
		c.w.log("conn%d: server uses a topic alias for %s", c.id, p.Topic)
	}
	c.w.log("conn%d: server sent %s", c.id, sent.String())
	c.w.Stats.In[p.Type]++
	c.srvWrite(b)
	return ip
}

// srvRaw writes bytes that are not a packet of the conversation.
func (c *Conn) srvRaw(b []byte, why string) *InPkt {
	ip := &InPkt{Conn: c, Idx: len(c.in), From: len(c.sent), To: len(c.sent) + len(b), SentT: c.w.sim.Now(), Raw: true, Why: why, extra: true}
	c.in = append(c.in, ip)
	c.w.log("conn%d: server sent raw %s: %x", c.id, why, b[:min(len(b), 300)])
	c.w.Stats.Fault("raw-" + why)
	c.srvWrite(b)
	return ip
}
