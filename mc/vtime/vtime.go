// Package vtime replaces package time in instrumented code: clocks are virtual.
package vtime

import (
	"time"

	"verif/mc"
)

var base = time.Date(2020, time.May, 1, 12, 0, 0, 0, time.UTC)

func at(ns int64) time.Time { return base.Add(time.Duration(ns)) }

func Now() time.Time                         { return at(mc.Now()) }
func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { mc.Sleep(d) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Timer is time.Timer.
type Timer struct {
	C <-chan time.Time
	h *mc.TimerH
	c chan time.Time
}

func NewTimer(d time.Duration) *Timer {
	c := mc.MakeChan(make(chan time.Time), 1)
	t := &Timer{C: c, c: c}
	if mc.E != nil {
		t.h = mc.NewChanTimer(c, at)
		t.h.Reset(d, 0, "NewTimer")
	}
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{}
	if mc.E != nil {
		t.h = mc.NewFuncTimer("timerfunc", f)
		t.h.Reset(d, 0, "AfterFunc")
	}
	return t
}

func (t *Timer) Stop() bool {
	if t.h == nil {
		return false
	}
	return t.h.Stop("Timer.Stop")
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.h == nil {
		return false
	}
	return t.h.Reset(d, 0, "Timer.Reset")
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time
	h *mc.TimerH
	c chan time.Time
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := mc.MakeChan(make(chan time.Time), 1)
	t := &Ticker{C: c, c: c}
	if mc.E != nil {
		t.h = mc.NewChanTimer(c, at)
		t.h.Reset(d, d, "NewTicker")
	}
	return t
}

func (t *Ticker) Stop() {
	if t.h != nil {
		t.h.Stop("Ticker.Stop")
	}
}

func (t *Ticker) Reset(d time.Duration) {
	if t.h != nil {
		t.h.Reset(d, d, "Ticker.Reset")
	}
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
