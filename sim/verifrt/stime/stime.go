// Package stime stands in for package time under the simulator: one step of the
// simulation is one microsecond, and sleeping costs simulated time only.
package stime

import (
	"time"

	"verifrt/simrt"
)

type (
	// Duration is time.Duration.
	Duration = time.Duration
	// Time is time.Time.
	Time = time.Time
	// Month is time.Month.
	Month = time.Month
)

// Units.
const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
)

var epoch = time.Unix(1_700_000_000, 0)

func Now() Time {
	simrt.UsesTime()
	return epoch.Add(Duration(simrt.Now()) * Microsecond)
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Unix(s, ns int64) Time { return time.Unix(s, ns) }

func steps(d Duration) uint64 {
	if d <= 0 {
		return 0
	}
	return uint64((d + Microsecond - 1) / Microsecond)
}

func Sleep(d Duration) {
	simrt.UsesTime()
	simrt.SleepUntil(simrt.Now() + steps(d))
}

// After is time.After.
func After(d Duration) <-chan Time {
	ch := simrt.MadeChan(0, make(chan Time, 1))
	simrt.UsesTime()
	simrt.Daemon(func() {
		Sleep(d)
		simrt.Send[Time](0, ch)(Now())
	})
	return ch
}

// Timer is time.Timer.
type Timer struct {
	C    <-chan Time
	gen  *int
	live *bool
	f    func()
	ch   chan Time
}

func (t *Timer) start(d Duration) {
	*t.gen++
	*t.live = true
	g := *t.gen
	simrt.UsesTime()
	simrt.Daemon(func() {
		Sleep(d)
		if *t.gen == g && *t.live {
			*t.live = false
			if t.f != nil {
				t.f()
			} else if simrt.ChLen[Time](t.ch) == 0 {
				simrt.Send[Time](0, t.ch)(Now())
			}
		}
	})
}

func NewTimer(d Duration) *Timer {
	ch := simrt.MadeChan(0, make(chan Time, 1))
	t := &Timer{C: ch, ch: ch, gen: new(int), live: new(bool)}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f, gen: new(int), live: new(bool)}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	simrt.SyncPoint(70)
	l := *t.live
	*t.live = false
	return l
}

func (t *Timer) Reset(d Duration) bool {
	l := t.Stop()
	t.start(d)
	return l
}
