// Package vtime stands in for time: the clock can be set by a harness.
package vtime

import (
	"sync/atomic"
	"time"

	"verif/mc/sched"
)

type Time = time.Time
type Duration = time.Duration
type Month = time.Month
type Weekday = time.Weekday
type Location = time.Location
type Timer = time.Timer
type Ticker = time.Ticker
type ParseError = time.ParseError

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	RFC1123     = time.RFC1123
	ANSIC       = time.ANSIC
)

var UTC = time.UTC
var Local = time.Local

var virtual int32
var now int64 // unix nanoseconds

// OnSleep, if set, is called instead of sleeping.
var OnSleep func(d time.Duration)

// Set fixes the clock (unix nanoseconds).
func Set(ns int64) { atomic.StoreInt64(&now, ns); atomic.StoreInt32(&virtual, 1) }

// Advance moves the fixed clock.
func Advance(d time.Duration) { atomic.AddInt64(&now, int64(d)) }

// Real goes back to the real clock.
func Real() { atomic.StoreInt32(&virtual, 0) }

func Now() Time {
	sched.P()
	if atomic.LoadInt32(&virtual) != 0 {
		return time.Unix(0, atomic.LoadInt64(&now))
	}
	return time.Now()
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration) {
	if atomic.LoadInt32(&virtual) != 0 {
		if OnSleep != nil {
			OnSleep(d)
		}
		Advance(d)
		sched.P()
		return
	}
	time.Sleep(d)
}
func After(d Duration) <-chan Time {
	if atomic.LoadInt32(&virtual) != 0 {
		if OnSleep != nil {
			OnSleep(d)
		}
		Advance(d)
		c := make(chan Time, 1)
		c <- Now()
		return c
	}
	return time.After(d)
}
func Unix(s, ns int64) Time  { return time.Unix(s, ns) }
func UnixMilli(m int64) Time { return time.UnixMilli(m) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}
func NewTimer(d Duration) *Timer               { return time.NewTimer(d) }
func NewTicker(d Duration) *Ticker             { return time.NewTicker(d) }
func Tick(d Duration) <-chan Time              { return time.Tick(d) }
func AfterFunc(d Duration, f func()) *Timer    { return time.AfterFunc(d, f) }
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
