// Package stime stands in for package time: durations, times and formatting are
// the real thing, the clock and the timers are simulated.
package stime

import (
	"time"

	rt "verif.local/sim/simrt"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC

	Date            = time.Date
	Unix            = time.Unix
	UnixMilli       = time.UnixMilli
	UnixMicro       = time.UnixMicro
	Parse           = time.Parse
	ParseInLocation = time.ParseInLocation
	ParseDuration   = time.ParseDuration
	FixedZone       = time.FixedZone
	LoadLocation    = time.LoadLocation
)

// Now returns simulated wall-clock time.
func Now() Time { return rt.Base().Add(rt.ReadClock()) }

// instant is the present moment, for what timers send: the clock goes on when it
// is read by the code, not when a timer fires.
func instant() Time { return rt.Base().Add(rt.Now()) }

// Since is time.Since in simulated time.
func Since(t Time) Duration { return Now().Sub(t) }

// Until is time.Until in simulated time.
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep sleeps in simulated time.
func Sleep(d Duration) { rt.Sleep(d) }

// Timer is a simulated time.Timer.
type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	t  *rt.Timer
	ok bool
}

// NewTimer is time.NewTimer.
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c, ok: true}
	t.start(d)
	return t
}

func (t *Timer) start(d Duration) {
	t.t = rt.AddTimer(d, func() {
		if t.f != nil {
			rt.SpawnFromTimer("AfterFunc", t.f)
			return
		}
		rt.TimerSend(t.c, instant())
	})
}

// Stop is Timer.Stop (no stale values are received after it returns).
func (t *Timer) Stop() bool {
	if !t.ok {
		panic("time: Stop called on uninitialized Timer")
	}
	rt.Yield("Timer.Stop")
	was := t.t.Stop()
	if t.c != nil {
		if len(t.c) > 0 {
			was = true
		}
		rt.DrainTimer(t.c)
	}
	return was
}

// Reset is Timer.Reset.
func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// After is time.After.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// AfterFunc is time.AfterFunc.
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f, ok: true}
	t.start(d)
	return t
}

// Ticker is a simulated time.Ticker.
type Ticker struct {
	C <-chan Time
	c chan Time
	d Duration
	t *rt.Timer
}

// NewTicker is time.NewTicker.
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.next()
	return t
}

func (t *Ticker) next() {
	t.t = rt.AddTimer(t.d, func() {
		rt.TimerSend(t.c, instant())
		t.t = rt.AddTimer(t.d, t.again)
	})
}

func (t *Ticker) again() {
	rt.TimerSend(t.c, instant())
	t.t = rt.AddTimer(t.d, t.again)
}

// Stop is Ticker.Stop.
func (t *Ticker) Stop() { t.t.Stop(); rt.DrainTimer(t.c) }

// Reset is Ticker.Reset.
func (t *Ticker) Reset(d Duration) {
	t.Stop()
	t.d = d
	t.next()
}

// Tick is time.Tick.
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
