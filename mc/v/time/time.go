// Package time has the names of the standard package that read the clock or wait.
package time

import (
	"time"

	"verif/rt"
)

func Now() time.Time                  { return rt.Now() }
func Since(t time.Time) time.Duration { return rt.Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(rt.Now()) }
func Sleep(d time.Duration)           { rt.Sleep(d) }

type Timer = rt.TimeTimer

func NewTimer(d time.Duration) *Timer            { return rt.NewTimer(d) }
func AfterFunc(d time.Duration, f func()) *Timer { return rt.AfterFunc(d, f) }
func After(d time.Duration) *rt.Chan[time.Time]  { return rt.NewTimer(d).C }
func Tick(d time.Duration) *rt.Chan[time.Time]   { return NewTicker(d).C }

// Ticker ticks a few times only, to keep executions finite.
type Ticker struct {
	C *rt.Chan[time.Time]
	t *rt.TimeTimer
}

// NewTicker makes a ticker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := rt.NewTimer(d)
	return &Ticker{C: t.C, t: t}
}

func (t *Ticker) Stop()                 { t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) { t.t.Reset(d) }
