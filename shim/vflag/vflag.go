// Package vflag replaces the parsing of the command line: the harness sets what it would have found.
package vflag

import "time"

var (
	argv   []string
	strs   = map[string]*string{}
	parsed bool
)

// Given sets the arguments left after the flags.
func Given(a []string) { argv = a }

// Set sets the variable of a flag.
func Set(name, value string) bool {
	p := strs[name]
	if p == nil {
		return false
	}
	*p = value
	return true
}

var Usage = func() {}

func Parse()         { parsed = true }
func Parsed() bool   { return parsed }
func PrintDefaults() {}

func Args() []string { return argv }
func NArg() int      { return len(argv) }

func Arg(i int) string {
	if i < 0 || i >= len(argv) {
		return ""
	}
	return argv[i]
}

func StringVar(p *string, name, value, usage string) {
	*p = value
	strs[name] = p
}

func String(name, value, usage string) *string {
	p := new(string)
	StringVar(p, name, value, usage)
	return p
}

func BoolVar(p *bool, name string, value bool, usage string) { *p = value }
func IntVar(p *int, name string, value int, usage string)    { *p = value }
func DurationVar(p *time.Duration, name string, value time.Duration, usage string) {
	*p = value
}

func Bool(name string, value bool, usage string) *bool {
	p := new(bool)
	*p = value
	return p
}

func Int(name string, value int, usage string) *int {
	p := new(int)
	*p = value
	return p
}
