package harness

import (
	"fmt"
	"strings"

	"verifsim/simrt"
)

// Config is the swarm configuration of one run: sizes, mixes, enabled faults and their rates.
type Config struct {
	sched simrt.Config

	latMin, latUnit int64
	latSpan         int
	gapMax          int // ms between fragments
	frag            int // of 8
	noBroker        bool

	workers, opsPer     int
	pollClass           int
	useStore            bool
	sessions            int
	rng                 int
	wPub, wSub, wUnsub  int
	wChan, wKeep, wIs   int
	wSleep, wDisc, wSet int
	early               int  // tasks that use the client while it connects
	idReuse             bool // the server uses the lowest free identifier
	feed                int
	feedQ               [3]int
	feedWindow          int64
	kaApp               bool // a task that calls KeepAlive regularly

	// broker behaviour
	srvRM, srvKA   int // 0 = property absent; srvKA -1 = present with value 0
	ackFail        int // of 16
	holdAck        int // of 16
	resumes        int // times the server sends part of what it holds back
	subFail        int // of 16
	ackSpread      int // ms
	cliRM          int
	ka             int
	dupAck, unkAck int // of 16
	serverDisc     bool
	byeAck         int // the server ends the connection right after SUBACK or UNSUBACK (of 16)
	cut            int // 0 none 1 EOF 2 RST 3 network gone
	stall          int // 0 none 1 temporary 2 for good
	silentAt       int64
	lull           bool // once, a packet of the server stops in the middle for longer than the client waits
	overflow       bool
	overStall      bool // the server stops reading when it sends the PUBLISH that is too much
	dupQ2          int  // of 16: retransmitted inbound QoS 2
	wrongAck       int  // of 16
	malformed      int  // number of hostile injections
	connackBad     int
	storeFault     int // of 16
	bigPayload     bool
	richProps      bool
	again          int // publishes under identifiers chosen before, once all is settled
	cancel         int // of 8 ops get a cancelled context
	deadline       int // of 8 ops get a deadline
	runFor         int64
	lateDisc       bool
	republish      bool
	sessLost       bool
	smallChan      bool
	reuse          bool
	bulk           int  // messages or requests that are open at the same time
	huge           bool // strings up to the limit of the length prefix
	crowd          int  // event channels that exist beside the others
	many           bool // requests with hundreds of filters
	sameConnect    bool // one packets.Connect serves all connections
	linear         bool
	codec          bool
	idBase         uint16 // the server's packet identifiers begin after it
	topics         []string
	filters        []string
	closeErr       bool // closing the connection reports an error
	disk           bool // the storage keeps serialised packets
	conform        bool // the server follows the protocol
	rngSeed        int
	connAgain      bool
	crash          bool
	pollGap        int // ms between polls
}

func (c Config) String() string {
	return fmt.Sprintf("workers=%d ops=%d poll=%d store=%v disk=%v sessions=%d rng=%d feed=%d%v srvRM=%d srvKA=%d cliRM=%d ka=%d ackFail=%d hold=%d/%d dupAck=%d unkAck=%d cut=%d stall=%d silent=%d overflow=%v dupQ2=%d malformed=%d connackBad=%d storeFault=%d frag=%d gap=%d lat=%d+%dx%d sched{sw=%d/%d adv=%d pct=%v}",
		c.workers, c.opsPer, c.pollClass, c.useStore, c.disk, c.sessions, c.rng, c.feed, c.feedQ, c.srvRM, c.srvKA, c.cliRM, c.ka, c.ackFail, c.holdAck, c.resumes,
		c.dupAck, c.unkAck, c.cut, c.stall, c.silentAt/sec, c.overflow, c.dupQ2, c.malformed, c.connackBad, c.storeFault, c.frag, c.gapMax, c.latMin, c.latSpan, c.latUnit,
		c.sched.SwitchNum, c.sched.SwitchDen, c.sched.AdvanceNum, c.sched.PCT)
}

// holdReq is the denominator of holdAck for the answers to requests.
func (c *Config) holdReq() int {
	if c.bulk > 0 {
		return 16
	}
	return 32
}

// drawConfig draws the configuration of a run for a property. Every property sees the whole swarm; the weights are
// biased towards the situations in which that property is at stake.
func drawConfig(w *World) (c Config) {
	s := w.W
	pick := func(v ...int) int { return v[s.Intn(len(v))] }
	p := w.prop
	is := func(ids ...string) bool {
		for _, i := range ids {
			if i == p {
				return true
			}
		}
		return false
	}
	quotaAcks := false
	// schedule
	switch s.Pick(3, 3, 3, 2) {
	case 0:
		c.sched.SwitchNum, c.sched.SwitchDen = 1, 16
	case 1:
		c.sched.SwitchNum, c.sched.SwitchDen = 1, 4
	case 2:
		c.sched.SwitchNum, c.sched.SwitchDen = 1, 64
	case 3:
		c.sched.PCT = true
		c.sched.SwitchNum, c.sched.SwitchDen = 1, 50
	}
	c.sched.AdvanceNum = pick(0, 0, 2, 8, 30)
	c.sched.FreezeNum = pick(0, 0, 5, 50)
	c.sched.Hesitate = pick(0, 0, 0, 1, 16)
	c.sched.HesitateSelect = c.sched.Hesitate
	switch s.Intn(12) {
	case 0:
		c.sched.Hesitate, c.sched.HesitateSelect = 0, 56
	case 1:
		c.sched.Hesitate, c.sched.HesitateSelect, c.sched.HesitateUnlock = 0, 0, 24
	}
	c.sched.MaxSteps = 120_000
	// network
	switch s.Pick(4, 3, 2) {
	case 0:
		c.latMin, c.latUnit, c.latSpan = 100_000, 100_000, 20
	case 1:
		c.latMin, c.latUnit, c.latSpan = 1*ms, 1*ms, 50
	case 2:
		c.latMin, c.latUnit, c.latSpan = 10*ms, 10*ms, 100
	}
	c.frag = pick(0, 0, 1, 4, 8)
	if c.frag > 0 {
		c.gapMax = pick(0, 5, 50, 400, 2000)
	}
	// application
	c.workers = pick(1, 2, 2, 3)
	c.opsPer = 1 + s.Intn(6)
	c.pollClass = s.Intn(5)
	c.useStore = s.Chance(1, 2)
	c.sessions = 1
	c.rng = s.Pick(6, 1, 1, 1, 1, 1, 1)
	c.rngSeed = s.Intn(1 << 16)
	c.connAgain = s.Chance(1, 12)
	c.pollGap = pick(0, 0, 0, 5, 100)
	c.wPub, c.wSub, c.wUnsub, c.wChan, c.wKeep, c.wIs, c.wSleep = 6, 3, 1, 1, 1, 1, 2
	c.feed = pick(0, 1, 3, 6, 10)
	c.feedQ = [3]int{2, 2, 2}
	c.feedWindow = int64(pick(20, 200, 3000)) * ms
	c.kaApp = s.Chance(1, 3)
	c.ka = pick(0, 30, 60, 5, 2)
	c.srvKA = pick(0, 0, 0, 20, -1)
	c.srvRM = pick(0, 10, 3, 1, 2)
	c.cliRM = pick(0, 10, 3, 1, 2)
	c.idBase = uint16(pick(0, 0, 0, 253, 32766, 65533))
	c.topics, c.filters = topics, filters
	if n := 3; is("C04", "C18") && s.Chance(1, 2) || s.Chance(1, 8) {
		if is("C04") {
			n = 6
		}
		drawTopics(s, &c, n)
	}
	c.ackSpread = pick(0, 5, 50, 500)
	c.subFail = pick(0, 0, 2)
	c.ackFail = pick(0, 0, 2)
	c.richProps = s.Chance(1, 3)
	c.bigPayload = s.Chance(1, 8)
	c.runFor = int64(pick(2, 5, 20)) * sec
	c.deadline = pick(0, 2, 6)
	c.cancel = pick(0, 0, 2)
	c.smallChan = s.Chance(1, 3)
	c.idReuse = s.Chance(1, 2)
	c.early = pick(0, 0, 0, 1)
	c.lateDisc = s.Chance(3, 4)
	c.conform = true
	c.republish = s.Chance(1, 2)

	// faults: a subset of kinds per run
	x := w.X
	if x.Chance(2, 3) {
		if x.Chance(1, 4) {
			c.holdAck = []int{1, 4, 12}[x.Intn(3)]
		}
		if x.Chance(1, 5) {
			c.cut = 1 + x.Intn(3)
		}
		if x.Chance(1, 6) {
			c.stall = 1 + x.Intn(2)
		}
		if x.Chance(1, 10) {
			c.serverDisc = true
		}
		if x.Chance(1, 10) {
			c.silentAt = int64(1+x.Intn(8)) * sec
		}
		if c.useStore && x.Chance(1, 8) {
			c.storeFault = 1 + x.Intn(4)
		}
		if x.Chance(1, 6) {
			c.sessions = 2
			c.sessLost = x.Chance(1, 4)
		}
	}

	switch {
	case is("C01", "C02"):
		c.richProps = s.Chance(1, 2)
		c.bigPayload = s.Chance(1, 5)
		if x.Chance(1, 4) {
			c.stall = 1 + x.Intn(2)
		}
		c.wDisc = 1
	case is("C03"):
		c.feed = pick(3, 6, 10)
		c.frag = pick(4, 8, 8, 1, 0)
		c.gapMax = pick(0, 5, 50, 400, 2000)
		c.richProps = s.Chance(1, 2)
		c.bigPayload = s.Chance(1, 5)
	case is("C04"):
		c.feed = pick(6, 10, 16)
		c.wSub, c.wUnsub, c.wChan, c.wPub = 6, 3, 2, 1
		c.cut, c.stall, c.storeFault = 0, 0, 0
		c.opsPer = 2 + s.Intn(6)
	case is("C05", "C06"):
		c.feed = pick(3, 6, 10)
		c.feedQ = [3]int{1, 2, 4}
		if x.Chance(1, 2) {
			c.dupQ2 = []int{4, 8}[x.Intn(2)]
		}
		if is("C06") {
			c.sessions = pick(1, 2, 2, 3)
			c.useStore = s.Chance(3, 4)
			c.feedQ = [3]int{0, 1, 6}
			if x.Chance(2, 3) {
				c.cut = 1 + x.Intn(3)
			}
		}
	case is("C07"):
		c.srvRM = pick(1, 1, 2, 2, 3, 0, 5)
		c.sched.FreezeNum = pick(0, 5, 50, 200)
		c.sched.AdvanceNum = pick(1, 8, 30)
		c.sched.Hesitate = pick(0, 1, 16, 32)
		c.sched.HesitateSelect = c.sched.Hesitate
		if s.Chance(1, 2) {
			c.sched.Hesitate, c.sched.HesitateSelect = 0, 60
		}
		c.workers = pick(2, 3, 4, 5)
		c.opsPer = 2 + s.Intn(6)
		if s.Chance(1, 6) {
			c.sessions, c.useStore = 2, true
		}
		c.wPub, c.wSub, c.wUnsub, c.wChan, c.wKeep, c.wIs, c.wSleep = 12, s.Intn(2), 0, 0, s.Intn(2), 0, s.Intn(3)
		if x.Chance(2, 3) {
			c.holdAck = []int{1, 4, 8, 12}[x.Intn(4)]
		}
		c.ackFail = pick(0, 2, 8)
		quotaAcks = x.Chance(1, 3)
	case is("C08"):
		c.cliRM = pick(1, 2, 3, 0)
		c.feed = pick(3, 6, 10)
		c.feedQ = [3]int{2, 2, 4}
		c.overflow = x.Chance(1, 2)
		if c.overflow {
			c.cliRM = 1 + x.Intn(3)
			if c.overStall = x.Chance(1, 6); c.overStall {
				c.workers, c.opsPer, c.stall, c.sessions = 1, 1, 0, 1
				c.pollClass = s.Intn(3)
			}
		}
		if x.Chance(1, 2) || c.overStall {
			c.holdAck = []int{1, 4, 12}[x.Intn(3)]
		}
	case is("C09", "C20"):
		c.useStore = true
		c.wPub = 12
		c.sessions = pick(1, 2, 2, 3)
		if x.Chance(2, 3) {
			c.holdAck = []int{1, 4, 12}[x.Intn(3)]
		}
		c.republish = s.Chance(2, 3) || is("C20")
		if x.Chance(1, 3) {
			c.cut = 1 + x.Intn(3)
		}
		if is("C09") {
			if x.Chance(1, 3) {
				c.storeFault = 1 + x.Intn(6)
			}
			c.feed = pick(0, 3, 6)
			c.cancel = pick(0, 2, 4)
			c.srvRM = pick(0, 1, 2)
		} else {
			c.storeFault = 0
			if c.sessions < 2 {
				c.sessions = 2
			}
		}
	case is("C10"):
		c.ka = pick(1, 2, 5, 10, 0)
		c.srvKA = pick(0, 0, 1, 3, 8, -1)
		c.kaApp = s.Chance(4, 5)
		c.runFor = int64(pick(10, 30, 60)) * sec
		c.workers, c.opsPer = 1, 1+s.Intn(3)
		c.cut, c.stall, c.serverDisc = 0, 0, false
		if x.Chance(1, 6) {
			c.stall = 1 + x.Intn(2)
		}
		c.silentAt = 0
		if x.Chance(1, 2) {
			c.silentAt = int64(x.Intn(20)) * sec
		}
		c.pollClass = pick(2, 3, 4, 3)
	case is("C11"):
		c.workers = pick(2, 3, 4)
		if x.Chance(1, 3) {
			c.cut = 1 + x.Intn(3)
		}
		if x.Chance(1, 4) {
			c.stall = 1 + x.Intn(2)
		}
		if x.Chance(1, 4) {
			c.unkAck = 3
		}
		if x.Chance(1, 4) {
			c.dupAck = 3
		}
		if c.unkAck+c.dupAck > 0 {
			c.conform = false
		}
		c.wDisc = 1
		c.useStore = s.Chance(2, 3)
		c.srvRM = pick(1, 2, 0)
	case is("C12"):
		if x.Chance(5, 6) {
			c.malformed = 1 + x.Intn(3)
			c.conform = false
		}
		if x.Chance(1, 3) {
			c.unkAck, c.dupAck = 4, 4
			c.conform = false
		}
		c.wDisc = 1
		c.wChan = 2
		if x.Chance(1, 12) {
			c.connackBad = 4
		}
	case is("C13"):
		c.workers = pick(2, 3, 4)
		c.wDisc, c.wChan, c.wIs, c.wKeep, c.wSet = 1, 2, 2, 2, 1
		c.early = pick(0, 1, 2)
		c.sched.PCT = false
	case is("C14"):
		c.connackBad = x.Intn(7)
		c.opsPer = 1
	case is("C15"):
		c.wSub, c.wUnsub, c.wPub = 10, 4, 1
		c.workers = pick(1, 2, 3)
		c.subFail = pick(0, 2, 6)
		c.ackSpread = pick(0, 50, 500)
		if x.Chance(1, 8) {
			c.wrongAck = 4
		} else if x.Chance(1, 4) {
			c.dupAck = 3
			c.conform = false
		} else if x.Chance(1, 8) {
			c.byeAck = 6
		}
	case is("C16"):
		c.wDisc = 2
		c.serverDisc = x.Chance(1, 4)
		c.workers = pick(1, 2, 3)
	case is("C17"):
		c.rng = s.Pick(1, 3, 3, 3, 4, 3, 2)
		c.workers = pick(2, 3, 4)
		if x.Chance(2, 3) {
			c.holdAck = []int{4, 12}[x.Intn(2)]
		}
		c.sessions = pick(1, 1, 2)
		c.srvRM = pick(0, 10, 3)
	case is("C18"):
		c.wChan, c.wSub, c.wUnsub = 6, 4, 2
		c.feed = pick(3, 6, 10, 16)
		c.smallChan = true
		c.opsPer = 2 + s.Intn(6)
	case is("C19"):
		c.linear = true
		c.workers = 2 + s.Intn(3)
		c.opsPer = 2 + s.Intn(5)
	case is("C21"):
		c.codec = true
		c.richProps = true
		c.workers = 1 + s.Intn(3)
		c.opsPer = 1 + s.Intn(5)
	}
	if c.sessions > 1 {
		c.crash = x.Chance(1, 2)
		if c.sessions == 2 && x.Chance(1, 6) && !is("C20", "C06") {
			c.sessLost = true
		}
	}
	if is("C03", "C05", "C06", "C08") && s.Chance(1, 6) && c.sessions == 1 {
		// the application polls without a deadline: nothing else uses the connection
		c.workers, c.ka, c.srvKA, c.kaApp, c.connAgain = 0, 0, 0, false, false
	}
	if (c.ka > 0 && c.ka <= 10 || c.srvKA > 0) && s.Chance(7, 8) {
		c.kaApp = true
	}
	if c.cliRM == 0 && c.overflow {
		c.cliRM = 1
	}
	if c.holdAck > 0 {
		c.resumes = []int{0, 0, 1, 2, 5}[x.Intn(5)]
		if is("C07") {
			c.resumes *= 2
		}
	}
	if is("C03", "C11", "C13", "C14", "C16") && !c.overflow && x.Chance(1, 12) {
		c.lull, c.runFor = true, max(c.runFor, 60*sec)
	}
	if (c.stall > 0 || c.overStall) && x.Chance(1, 2) {
		c.runFor = max(c.runFor, 60*sec) // longer than the client waits for the rest of a packet
	}
	// values in which every byte matters
	big := func(v *int, vs ...int) {
		if *v > 0 && s.Chance(1, 12) {
			*v = vs[s.Intn(len(vs))]
		}
	}
	big(&c.ka, 255, 256, 257, 32767, 32768, 32769, 43691, 65535)
	big(&c.srvKA, 255, 256, 257, 32767, 32768, 32769, 43691, 65535)
	big(&c.srvRM, 255, 256, 257, 32768, 65535)
	if !c.overflow {
		big(&c.cliRM, 255, 256, 257, 32768, 65535)
	}
	if c.richProps {
		for i := 0; i < 4; i++ {
			n := []int{100, 105, 110, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 200, 16360, 16370, 16380}[s.Intn(17)]
			c.filters = append(c.filters[:len(c.filters):len(c.filters)], strings.Repeat("f", n)+[]string{"", "/#", "/+"}[i%3])
		}
	}
	c.huge = c.richProps && s.Chance(1, 10)
	c.many = s.Chance(1, 24)
	if is("C18", "C03", "C04", "C13") && s.Chance(1, 40) {
		c.crowd = 250 + s.Intn(60)
	}
	c.sameConnect = c.sessions > 1 && s.Chance(1, 3)
	c.disk = c.useStore && x.Chance(1, 3)
	c.closeErr = x.Chance(1, 6)
	if is("C07", "C08", "C04", "C05", "C09", "C17", "C20") {
		c.dupAck, c.unkAck = 0, 0
	}
	if quotaAcks {
		// acknowledgements that end no exchange
		c.dupAck, c.unkAck = []int{2, 8}[x.Intn(2)], []int{0, 2, 8}[x.Intn(3)]
	}
	if is("C11", "C17", "C07", "C15") && s.Chance(1, 4) {
		c.again = 1 + s.Intn(4)
	}
	if is("C01", "C03", "C05", "C06", "C07", "C08", "C09", "C11", "C15", "C17", "C18", "C20") && s.Chance(1, 160) && c.conform && c.connackBad == 0 && c.malformed == 0 && !c.overStall {
		// far more open exchanges than usual
		n := pick(40, 70, 140, 270, 300)
		c.bulk = n
		c.sched.MaxSteps *= 12
		c.latMin, c.latUnit, c.latSpan, c.ackSpread, c.gapMax = 100_000, 100_000, 20, 0, min(c.gapMax, 5)
		c.cut, c.stall, c.silentAt, c.serverDisc, c.byeAck, c.lull, c.storeFault = 0, 0, 0, false, 0, false, 0
		c.richProps, c.bigPayload, c.huge, c.many, c.crowd = false, false, false, false, 0
		c.ka, c.srvKA, c.kaApp = 0, 0, false
		c.holdAck, c.resumes = 16, pick(0, 0, 1, 2)
		c.runFor, c.pollGap = 40*sec, 0
		c.workers, c.opsPer = 1, 2
		c.sched.FreezeNum, c.sched.Hesitate, c.sched.HesitateSelect, c.sched.HesitateUnlock = 0, 0, 0, 0
		switch s.Intn(3) {
		case 0:
			c.feed, c.feedQ, c.feedWindow = n, [3]int{0, 1, 6}, 3000*ms
			c.cliRM = pick(0, n, n/2)
		case 1:
			c.workers, c.opsPer = 2, n*3/4
			if s.Chance(1, 3) {
				c.rng = 2 + s.Intn(2)
			}
			c.wPub, c.wSub, c.wUnsub, c.wChan, c.wKeep, c.wIs, c.wSleep, c.wDisc, c.wSet = 1, 0, 0, 0, 0, 0, 0, 0, 0
			c.srvRM, c.cancel, c.deadline = pick(0, 0, n), 0, 0
			c.feed = min(c.feed, 3)
		case 2:
			c.workers, c.opsPer = 3, n
			if s.Chance(1, 3) {
				c.rng = 2 + s.Intn(2)
			}
			c.wPub, c.wSub, c.wUnsub, c.wChan, c.wKeep, c.wIs, c.wSleep, c.wDisc, c.wSet = 0, 3, 1, 0, 0, 0, 0, 0, 0
			c.feed = min(c.feed, 3)
		}
	}
	c.sched.Horizon = 4000 * sec
	return c
}

// hugeStr is a string whose length uses both bytes of the length prefix.
func hugeStr(s *simrt.Stream, prefix string) string {
	n := []int{255, 256, 257, 32766, 32767, 32768, 32769, 65279, 65280, 65534, 65535}[s.Intn(11)]
	return prefix + strings.Repeat("h", n-len(prefix))
}

// drawTopics replaces the fixed topics and filters by random ones over a small alphabet of levels, most of the filters
// derived from one of the topics.
func drawTopics(s *simrt.Stream, c *Config, n int) {
	level := func() string { return []string{"", "a", "b", "ab", "ba", "aa", "c"}[s.Intn(7)] }
	c.topics, c.filters = nil, nil
	for i := 0; i < n; i++ {
		l := []string{level()}
		if s.Chance(1, 8) {
			l[0] = []string{"$a", "$", "$SYS"}[s.Intn(3)]
		}
		for j := s.Intn(4); j > 0; j-- {
			l = append(l, level())
		}
		if len(l) == 1 && l[0] == "" {
			l[0] = "a"
		}
		c.topics = append(c.topics, strings.Join(l, "/"))
	}
	for i := 0; i < 3*n; i++ {
		l := strings.Split(c.topics[s.Intn(n)], "/")
		for j := range l {
			switch s.Pick(6, 3, 1) {
			case 1:
				l[j] = "+"
			case 2:
				l[j] = level()
			}
		}
		switch s.Pick(5, 2, 1, 1, 1) {
		case 1:
			l = append(l[:s.Intn(len(l)+1)], "#")
		case 2:
			l = append(l, level())
		case 3:
			l = append(l, "+")
		case 4:
			l = l[:1+s.Intn(len(l))]
		}
		f := strings.Join(l, "/")
		if f == "" {
			f = "+"
		}
		if s.Chance(1, 8) {
			f = "$share/" + []string{"g", "a", "grp"}[s.Intn(3)] + "/" + f
		}
		c.filters = append(c.filters, f)
	}
}
