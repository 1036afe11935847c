// Package time is the simulated counterpart of the standard package: the only clock is the simulator's.
package time

import (
	"sync"
	"time"

	"github.com/fredbi/go-typeset/zsim/simrt"
)

type (
	Duration = time.Duration
	Time     = time.Time
	Month    = time.Month
	Weekday  = time.Weekday
	Location = time.Location
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

// Now moves on at every step, and sometimes jumps ahead.
func Now() Time                                { return time.Unix(1700000000, simrt.Clock()) }
func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func Sleep(d Duration)                         { simrt.Sleep(int64(d)) }
func Unix(s, n int64) Time                     { return time.Unix(s, n) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }

// After is a timer channel.
func After(d Duration) <-chan Time {
	c := make(chan Time, 1)
	simrt.Go(func() {
		simrt.Sleep(int64(d))
		simrt.Send(c, Now())
	})
	return c
}

func UnixMilli(ms int64) Time                     { return time.UnixMilli(ms) }
func UnixMicro(us int64) Time                     { return time.UnixMicro(us) }
func Parse(layout, value string) (Time, error)    { return time.Parse(layout, value) }
func FixedZone(name string, offset int) *Location { return time.FixedZone(name, offset) }
func Date(year int, month Month, day, hour, min, sec, nsec int, loc *Location) Time {
	return time.Date(year, month, day, hour, min, sec, nsec, loc)
}

// Timer fires once, at a simulated time.
type Timer struct {
	C <-chan Time

	c   chan Time
	f   func()
	mu  sync.Mutex // never contended: orders memory for the race detector
	gen int
	on  bool
}

func (t *Timer) start(d Duration) (was bool) {
	t.mu.Lock()
	was = t.on
	t.gen++
	t.on = true
	gen := t.gen
	t.mu.Unlock()
	simrt.Go(func() {
		simrt.Sleep(int64(d))
		t.mu.Lock()
		fire := t.on && t.gen == gen
		if fire {
			t.on = false
		}
		t.mu.Unlock()
		if !fire {
			return
		}
		if t.f != nil {
			t.f()
			return
		}
		if len(t.c) == 0 {
			simrt.Send(t.c, Now())
		}
	})
	return was
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// Stop the timer.
func (t *Timer) Stop() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	on := t.on
	t.on = false
	return on
}

// Reset the timer.
func (t *Timer) Reset(d Duration) bool { return t.start(d) }

// Ticker is simulated by a bounded number of ticks.
type Ticker struct {
	C <-chan Time

	c       chan Time
	mu      sync.Mutex
	stopped bool
	gen     int
}

func (t *Ticker) off(gen int) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.stopped || t.gen != gen
}

func (t *Ticker) start(d Duration) {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t.mu.Lock()
	t.gen++
	t.stopped = false
	gen := t.gen
	t.mu.Unlock()
	simrt.Go(func() {
		for i := 0; i < 1000 && !t.off(gen); i++ {
			simrt.Sleep(int64(d))
			if !t.off(gen) && len(t.c) == 0 {
				simrt.Send(t.c, Now())
			}
		}
	})
}

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

// Stop the ticker.
func (t *Ticker) Stop() {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.stopped = true
}

// Reset the ticker.
func (t *Ticker) Reset(d Duration) { t.start(d) }

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
