// Package vlog replaces the log functions that end the process.
package vlog

import (
	"fmt"

	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
)

func Fatal(v ...interface{})                 { vos.Exit(1) }
func Fatalf(format string, v ...interface{}) { vos.Exit(1) }
func Fatalln(v ...interface{})               { vos.Exit(1) }

var _ = fmt.Sprint
