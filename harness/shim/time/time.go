// Package time stands in for the standard package: the clock is an input of the harness and sleeping is a scheduling point.
package time

import (
	std "time"
	"trypo/zzverif/sym"
)

// NowFunc is the clock; harnesses replace it.
var NowFunc = func() std.Time { return std.Unix(1000, 500000000) }

// SleepFunc is called by Sleep; harnesses replace it.
var SleepFunc = func(d std.Duration) { sym.Yield() }

func Now() std.Time                 { return NowFunc() }
func Since(t std.Time) std.Duration { return Now().Sub(t) }
func Until(t std.Time) std.Duration { return t.Sub(Now()) }
func Sleep(d std.Duration)          { SleepFunc(d) }

type alarm struct {
	d       std.Duration
	c       chan std.Time
	stopped bool
}

// alarms are the timers that are running, in the order in which they were started; they go off when nothing else can happen.
var alarms chan *alarm

func arm(a *alarm) {
	if alarms == nil {
		q := make(chan *alarm, 1024)
		alarms = q
		go func() {
			for a := range q {
				a.wait()
				if !a.stopped {
					select {
					case a.c <- Now():
					default:
					}
				}
			}
		}()
	}
	alarms <- a
}

// wait sleeps; what sleeping set off is over before it ends.
func (a *alarm) wait() {
	if !a.stopped {
		SleepFunc(a.d)
		sym.Idle()
	}
}

func After(d std.Duration) <-chan std.Time { return NewTimer(d).C }

func Tick(d std.Duration) <-chan std.Time { return NewTicker(d).C }

type Timer struct {
	C <-chan std.Time
	a *alarm
}

func NewTimer(d std.Duration) *Timer {
	a := &alarm{d: d, c: make(chan std.Time, 1)}
	arm(a)
	return &Timer{C: a.c, a: a}
}

func (t *Timer) Stop() bool {
	was := !t.a.stopped
	t.a.stopped = true
	return was
}

func (t *Timer) Reset(d std.Duration) bool {
	was := t.Stop()
	t.a = &alarm{d: d, c: t.a.c}
	arm(t.a)
	return was
}

func AfterFunc(d std.Duration, f func()) *Timer {
	a := &alarm{d: d}
	go func() {
		a.wait()
		if !a.stopped {
			f()
		}
	}()
	return &Timer{a: a}
}

type Ticker struct {
	C <-chan std.Time
	c chan std.Time
	a *alarm
}

func NewTicker(d std.Duration) *Ticker {
	t := &Ticker{}
	t.c = make(chan std.Time, 1)
	t.C = t.c
	t.Reset(d)
	return t
}

func (t *Ticker) Stop() { t.a.stopped = true }

func (t *Ticker) Reset(d std.Duration) {
	if t.a != nil {
		t.a.stopped = true
	}
	a := &alarm{d: d}
	t.a = a
	c := t.c
	go func() {
		for a.wait(); !a.stopped; a.wait() {
			c <- Now()
		}
	}()
}
