// Package time replaces the standard package in the simulated build: values are the standard ones, the clock and the
// timers are the simulator's.
package time

import (
	"time"

	"verifsim/simrt"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Parse(l, v string) (Time, error) { return time.Parse(l, v) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func Unix(s, ns int64) Time                    { return time.Unix(s, ns) }
func UnixMilli(ms int64) Time                  { return time.UnixMilli(ms) }
func UnixMicro(us int64) Time                  { return time.UnixMicro(us) }
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }
func LoadLocationFromTZData(n string, d []byte) (*Location, error) {
	return time.LoadLocationFromTZData(n, d)
}

// Base is the wall clock time at which every simulation starts.
const Base = 1_700_000_000

// At converts virtual nanoseconds into a time.
func At(ns int64) Time { return time.Unix(Base, 0).UTC().Add(Duration(ns)) }

// Ns converts a time into virtual nanoseconds.
func Ns(t Time) int64 { return t.Sub(time.Unix(Base, 0)).Nanoseconds() }

func now() int64 {
	if simrt.S == nil {
		return 0
	}
	return simrt.S.Now()
}

func Now() Time             { return At(now()) }
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { simrt.Sleep(int64(d)) }
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
func After(d Duration) <-chan Time { return NewTimer(d).C }

type Timer struct {
	C   <-chan Time
	c   chan Time
	f   func()
	gen int
	on  bool
}

func (t *Timer) arm(d Duration) {
	t.gen++
	t.on = true
	g := t.gen
	simrt.S.After(simrt.S.Late(int64(d)), func() {
		if t.gen != g || !t.on {
			return
		}
		t.on = false
		if t.f != nil {
			simrt.Go(t.f)
		} else {
			simrt.TrySendRaw(t.c, Now())
		}
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: simrt.Inherit(f)}
	t.arm(d)
	return t
}
func (t *Timer) Stop() bool {
	simrt.Yield()
	was := t.on
	t.on = false
	t.drain()
	return was
}
func (t *Timer) Reset(d Duration) bool {
	simrt.Yield()
	was := t.on
	t.drain()
	t.arm(d)
	return was
}
func (t *Timer) drain() { // Go 1.23: no stale values after Stop or Reset
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

type Ticker struct {
	C   <-chan Time
	c   chan Time
	gen int
	d   Duration
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.arm(d)
	return t
}
func (t *Ticker) arm(d Duration) {
	t.gen++
	t.d = d
	g := t.gen
	var tick func()
	tick = func() {
		if t.gen != g {
			return
		}
		simrt.TrySendRaw(t.c, Now())
		simrt.S.After(int64(t.d), tick)
	}
	simrt.S.After(int64(d), tick)
}
func (t *Ticker) Stop()            { t.gen++ }
func (t *Ticker) Reset(d Duration) { t.arm(d) }
