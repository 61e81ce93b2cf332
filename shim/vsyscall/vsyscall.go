// Package vsyscall replaces the advisory file lock of package syscall by the lock table of the model.
package vsyscall

import "github.com/Ptt-official-app/go-bbs/zzverif/vos"

func Flock(fd int, how int) error { return vos.Flock(fd, how) }
