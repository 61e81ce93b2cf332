// Package vfmt records what the functions which print would print.
package vfmt

import (
	"fmt"
	"io"
	"os"
)

// Out holds the pieces printed: formats, and every argument in the form it would be printed in by %v.
var Out []string

func Reset() { Out = nil }

func add(format string, v []interface{}) {
	Out = append(Out, format)
	for _, x := range v {
		piece(x)
	}
}

func piece(x interface{}) {
	switch y := x.(type) {
	case string:
		Out = append(Out, y)
	case []byte:
		Out = append(Out, string(y))
	case []string:
		Out = append(Out, y...)
	case error:
		if y != nil {
			Out = append(Out, y.Error())
		}
	case fmt.Stringer:
		Out = append(Out, y.String())
	}
}

func Println(v ...interface{}) (int, error)               { add("", v); return 0, nil }
func Print(v ...interface{}) (int, error)                 { add("", v); return 0, nil }
func Printf(format string, v ...interface{}) (int, error) { add(format, v); return 0, nil }

func Fprintln(w io.Writer, v ...interface{}) (int, error) {
	if _, ok := w.(*os.File); ok {
		return Println(v...)
	}
	return fmt.Fprintln(w, v...)
}

func Fprint(w io.Writer, v ...interface{}) (int, error) {
	if _, ok := w.(*os.File); ok {
		return Print(v...)
	}
	return fmt.Fprint(w, v...)
}

func Fprintf(w io.Writer, format string, v ...interface{}) (int, error) {
	if _, ok := w.(*os.File); ok {
		return Printf(format, v...)
	}
	return fmt.Fprintf(w, format, v...)
}
