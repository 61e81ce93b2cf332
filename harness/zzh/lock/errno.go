package lock

import (
	"syscall"

	"github.com/Ptt-official-app/go-bbs/filelock"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HLockInterrupted: waiting for the lock is not over when a signal interrupts it, and a lock which the system
// refuses for any reason is no lock: nothing is written without it.
//
//verif:prop C29
func HLockInterrupted() {
	path, start, w := anyOp()
	vos.Put(path, start)
	kind := vrt.Case("kind", 0, 6)
	if kind < 3 {
		vos.Actor = 1
		f, err := vos.OpenFile(path, syscall.O_RDWR, 0644)
		vrt.Assert(err == nil && filelock.Lock(f) == nil, "lock-free")
		vos.Actor = 0
		vos.NoWait = true
	}
	n := 0
	vos.OnLock = func(p string) error {
		n++
		if kind < 3 {
			if n <= kind+1 {
				return syscall.EINTR
			}
			return nil
		}
		return []error{syscall.ENOLCK, syscall.EWOULDBLOCK, syscall.EBADF, syscall.EINVAL}[kind-3]
	}
	err := w(path)
	vos.OnLock = nil
	b, ok := vos.Get(path)
	vrt.Assert(err != nil, "failure-reported")
	vrt.Assert(ok && string(b) == string(start), "unchanged-without-lock")
}
