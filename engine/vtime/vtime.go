// Package vtime is the controlled replacement of package time: clocks and timers are
// virtual, everything else is package time.
package vtime

import (
	"time"

	"github.com/ti-mo/comfo/zzverif/vrt"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.Local
)

var base = time.Date(2024, 5, 17, 12, 0, 0, 0, time.UTC)

// Now is the virtual time.
func Now() Time { return base.Add(Duration(vrt.NowNS())) }

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) { vrt.Sleep(int64(d)) }

func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Unix(s, ns int64) Time                        { return time.Unix(s, ns) }
func UnixMilli(ms int64) Time                      { return time.UnixMilli(ms) }
func UnixMicro(us int64) Time                      { return time.UnixMicro(us) }
func Parse(l, v string) (Time, error)              { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error)     { return time.ParseDuration(s) }
func LoadLocation(n string) (*Location, error)     { return time.LoadLocation(n) }
func FixedZone(n string, o int) *Location          { return time.FixedZone(n, o) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}

// Timer replaces time.Timer.
type Timer struct {
	C *vrt.Chan[Time]
	t *vrt.Timer
}

func now() any { return Now() }

func NewTimer(d Duration) *Timer {
	c := vrt.MakeChan[Time](1)
	return &Timer{C: c, t: vrt.NewTimer(c, int64(d), 0, now, nil)}
}

func AfterFunc(d Duration, f func()) *Timer {
	return &Timer{t: vrt.NewTimer[Time](nil, int64(d), 0, now, f)}
}

func After(d Duration) *vrt.Chan[Time] { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	return t.t.Stop()
}

func (t *Timer) Reset(d Duration) bool {
	if t.t == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	return t.t.Reset(int64(d), 0)
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C *vrt.Chan[Time]
	t *vrt.Timer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := vrt.MakeChan[Time](1)
	return &Ticker{C: c, t: vrt.NewTimer(c, int64(d), int64(d), now, nil)}
}

func Tick(d Duration) *vrt.Chan[Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() {
	if t.t != nil {
		t.t.Stop()
	}
}

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if t.t == nil {
		panic("time: Reset called on uninitialized Ticker")
	}
	t.t.Reset(int64(d), int64(d))
}
