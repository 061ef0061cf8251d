// Package stime replaces time in code under simulation: types and formatting
// are the real ones, the clock and the timers are simulated.
package stime

import (
	"time"
	"unsafe"

	"verif.local/sim/simrt"
)

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Time       = time.Time
	Weekday    = time.Weekday
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC             = time.UTC
	Local           = time.UTC
	Date            = time.Date
	FixedZone       = time.FixedZone
	LoadLocation    = time.LoadLocation
	Parse           = time.Parse
	ParseDuration   = time.ParseDuration
	ParseInLocation = time.ParseInLocation
	Unix            = time.Unix
	UnixMicro       = time.UnixMicro
	UnixMilli       = time.UnixMilli
)

const epoch = 1_700_000_000

// Now returns the simulated time of day.
func Now() Time { return time.Unix(epoch, simrt.NowNanos()).UTC() }

func nowBox() unsafe.Pointer {
	t := Now()
	return unsafe.Pointer(&t)
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { simrt.Sleep(int64(d)) }

// Timer is time.Timer on the simulated clock.
type Timer struct {
	C  <-chan Time
	ct *simrt.ChanTimer
	ft *simrt.FuncTimer
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, ct: simrt.TimerChan(c, nowBox, 0)}
	t.ct.Arm(int64(d))
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{ft: simrt.NewFuncTimer(f)}
	t.ft.Arm(int64(d))
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.ft != nil {
		return t.ft.Stop()
	}
	return t.ct.Stop()
}

func (t *Timer) Reset(d Duration) bool {
	a := t.Stop()
	if t.ft != nil {
		t.ft.Arm(int64(d))
	} else {
		t.ct.Arm(int64(d))
	}
	return a
}

// Ticker is time.Ticker on the simulated clock.
type Ticker struct {
	C  <-chan Time
	c  chan Time
	ct *simrt.ChanTimer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, ct: simrt.TimerChan(c, nowBox, int64(d))}
	t.ct.Arm(int64(d))
	return t
}

func Tick(d Duration) <-chan Time { return NewTicker(d).C }

func (t *Ticker) Stop() { t.ct.Stop() }

func (t *Ticker) Reset(d Duration) {
	t.ct.Stop()
	t.ct = simrt.TimerChan(t.c, nowBox, int64(d))
	t.ct.Arm(int64(d))
}
