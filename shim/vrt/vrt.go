// Package vrt is the harness runtime. The symbolic engine intercepts these functions; natively they
// read the inputs of a replay from a JSON file.
package vrt

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"reflect"
)

type replay struct {
	Harness  string            `json:"harness"`
	Inputs   map[string]uint64 `json:"inputs"`
	Cases    map[string]int    `json:"cases"`
	Thorough bool              `json:"thorough"`
}

var cur replay

func val(name string, lo uint64) uint64 {
	if v, ok := cur.Inputs[name]; ok {
		return v
	}
	return lo
}

func U8(name string) uint8   { return uint8(val(name, 0)) }
func U16(name string) uint16 { return uint16(val(name, 0)) }
func U32(name string) uint32 { return uint32(val(name, 0)) }
func U64(name string) uint64 { return val(name, 0) }

// U8R is a byte in [lo,hi].
func U8R(name string, lo, hi int) uint8 { return uint8(val(name, uint64(lo))) }

// Int is an int in [lo,hi].
func Int(name string, lo, hi int) int {
	if lo < 0 {
		return lo + int(val(name, 0))
	}
	return int(val(name, uint64(lo)))
}

func Bool(name string) bool { return val(name, 0) == 1 }

// Bytes is a byte slice of length min..max with every byte in [lo,hi].
func Bytes(name string, min, max, lo, hi int) []byte {
	n := max
	if min != max {
		n = int(val(name+".len", uint64(min)))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s[%d]", name, i), uint64(lo)))
	}
	return b
}

// Str is a string of length min..max with every byte in [lo,hi].
func Str(name string, min, max, lo, hi int) string { return string(Bytes(name, min, max, lo, hi)) }

type assumeFail struct{}

func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

var failed bool

func Assert(c bool, label string) {
	if !c {
		failed = true
		fmt.Printf("VERIF-ASSERT-FAIL %s\n", label)
	}
}

func Reach(label string) {}

type obs struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

// Observe records a value for the comparison of the symbolic and the native run.
func Observe(name string, v interface{}) {
	var s string
	switch x := v.(type) {
	case nil:
		s = "nil"
	case string:
		s = hex.EncodeToString([]byte(x))
	case []byte:
		s = hex.EncodeToString(x)
	case bool:
		s = fmt.Sprint(x)
	default:
		r := reflect.ValueOf(v)
		switch r.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			bits := r.Type().Bits()
			u := uint64(r.Int())
			if bits < 64 {
				u &= 1<<uint(bits) - 1
			}
			s = fmt.Sprint(u)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			s = fmt.Sprint(r.Uint())
		case reflect.String:
			s = hex.EncodeToString([]byte(r.String()))
		case reflect.Bool:
			s = fmt.Sprint(r.Bool())
		default:
			return
		}
	}
	j, _ := json.Marshal(obs{name, s})
	fmt.Printf("VERIF-OBS %s\n", j)
}

func Symbolic() bool { return false }
func Thorough() bool { return cur.Thorough }

// Bound picks the bound of the tier.
func Bound(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Case is a concrete value in [lo,hi]; the engine runs the harness once per value.
func Case(name string, lo, hi int) int {
	if v, ok := cur.Cases[name]; ok {
		return v
	}
	return lo
}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFail); ok {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// NoPanic asserts that f returns normally.
func NoPanic(f func(), label string) { Assert(!Panics(f), label) }

// Main runs the replay named by VERIF_REPLAY.
func Main(hs map[string]func()) {
	data, err := ioutil.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		fmt.Println("VERIF-ERROR", err)
		return
	}
	if err := json.Unmarshal(data, &cur); err != nil {
		fmt.Println("VERIF-ERROR", err)
		return
	}
	h, ok := hs[cur.Harness]
	if !ok {
		fmt.Println("VERIF-ERROR no harness", cur.Harness)
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFail); ok {
				fmt.Println("VERIF-ASSUME-FAIL")
				return
			}
			fmt.Printf("VERIF-PANIC %v\n", r)
			return
		}
		if !failed {
			fmt.Println("VERIF-OK")
		}
	}()
	h()
}
