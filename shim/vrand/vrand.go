// Package vrand replaces the global pseudo random source by one the harness controls.
package vrand

// Fn, when set, supplies a number in [0,n).
var Fn func(n int) int

func pick(n int) int {
	if Fn != nil {
		return Fn(n)
	}
	return 0
}

func Seed(seed int64)      {}
func Intn(n int) int       { return pick(n) }
func Int31n(n int32) int32 { return int32(pick(int(n))) }
func Int63n(n int64) int64 { return int64(pick(int(n))) }
func Int() int             { return pick(1 << 30) }
func Int31() int32         { return int32(pick(1 << 30)) }
func Int63() int64         { return int64(pick(1 << 30)) }
func Uint32() uint32       { return uint32(pick(1 << 30)) }
