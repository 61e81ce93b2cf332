// Package vtime replaces the clock.
package vtime

import "time"

// Fn, when set, supplies the current time.
var Fn func() time.Time

func Now() time.Time {
	if Fn != nil {
		return Fn()
	}
	return time.Unix(1600000000, 0)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           {}
