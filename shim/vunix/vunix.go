// Package vunix replaces golang.org/x/sys/unix: file mappings are views of the model's files, System V
// segments live in a table (in the replay too, so that no real segment is ever touched).
package vunix

import (
	"syscall"
	"unsafe"

	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// Seg is one System V segment.
type Seg struct {
	Key  int32
	Data []byte
	gone bool
}

var Segs []*Seg

// Calls lists the System V calls made.
var Calls []Call

type Call struct {
	Name    string
	A, B, C int64
}

// Fail makes the n-th System V call fail.
var Fail int

// Attached counts attached segments, Mapped mapped files.
var Attached, Mapped int

// MapFails makes every mapping fail.
var MapFails bool

func Mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	if MapFails || length <= 0 || offset < 0 {
		return nil, syscall.EINVAL
	}
	shared := flags&syscall.MAP_SHARED != 0
	if !vrt.Symbolic() {
		b, err := syscall.Mmap(fd, offset, length, prot, flags)
		if err == nil {
			Mapped++
		}
		return b, err
	}
	data, flag, ok := vos.ByFd(fd)
	if !ok {
		return nil, syscall.EBADF
	}
	mode := flag & (syscall.O_WRONLY | syscall.O_RDWR)
	if mode == syscall.O_WRONLY || shared && prot&syscall.PROT_WRITE != 0 && mode != syscall.O_RDWR {
		return nil, syscall.EACCES
	}
	if page := (int64(len(data)) + 4095) / 4096 * 4096; offset+int64(length) > int64(len(data)) && offset+int64(length) <= page {
		data = vos.Room(fd, int(offset)+length)
	}
	if offset+int64(length) > int64(len(data)) {
		vrt.Assert(false, "mapping-inside-the-file") // touching the rest would be a bus error
		return nil, syscall.EINVAL
	}
	Mapped++
	if !shared || prot&syscall.PROT_WRITE == 0 {
		return append([]byte(nil), data[offset:offset+int64(length)]...), nil
	}
	return data[offset : offset+int64(length) : offset+int64(length)], nil
}

func Munmap(b []byte) error {
	if len(b) == 0 {
		return syscall.EINVAL
	}
	Mapped--
	if !vrt.Symbolic() {
		return syscall.Munmap(b)
	}
	return nil
}

func poke64(addr uintptr, off int, v uint64) {
	*(*uint64)(unsafe.Pointer(addr + uintptr(off))) = v
}

const pageSize = 4096

func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	name := ""
	switch trap {
	case syscall.SYS_SHMGET:
		name = "shmget"
	case syscall.SYS_SHMAT:
		name = "shmat"
	case syscall.SYS_SHMDT:
		name = "shmdt"
	case syscall.SYS_SHMCTL:
		name = "shmctl"
	default:
		panic("vunix: system call")
	}
	Calls = append(Calls, Call{name, int64(a1), int64(a2), int64(a3)})
	if Fail > 0 && len(Calls) == Fail {
		return ^uintptr(0), 0, syscall.EACCES
	}
	switch name {
	case "shmget":
		key := int32(a1) // key_t
		for i, s := range Segs {
			if !s.gone && s.Key == key && key != 0 {
				if a2 > uintptr(len(s.Data)) {
					return ^uintptr(0), 0, syscall.EINVAL
				}
				return uintptr(i + 1), 0, 0
			}
		}
		if a3&01000 == 0 && key != 0 {
			return ^uintptr(0), 0, syscall.ENOENT
		}
		if a2 == 0 {
			return ^uintptr(0), 0, syscall.EINVAL
		}
		Segs = append(Segs, &Seg{Key: key, Data: make([]byte, int(a2))})
		return uintptr(len(Segs)), 0, 0
	case "shmat":
		if a1 == 0 || a1 > uintptr(len(Segs)) || Segs[a1-1].gone || a2 != 0 {
			return ^uintptr(0), 0, syscall.EINVAL
		}
		Attached++
		return uintptr(unsafe.Pointer(&Segs[a1-1].Data[0])), 0, 0
	case "shmdt":
		for _, s := range Segs {
			if uintptr(unsafe.Pointer(&s.Data[0])) == a1 {
				Attached--
				return 0, 0, 0
			}
		}
		return ^uintptr(0), 0, syscall.EINVAL
	}
	if a1 == 0 || a1 > uintptr(len(Segs)) || Segs[a1-1].gone {
		return ^uintptr(0), 0, syscall.EINVAL
	}
	switch a2 {
	case 0: // IPC_RMID
		Segs[a1-1].gone = true
		return 0, 0, 0
	case 2: // IPC_STAT: struct shmid_ds has its size at offset 48
		poke64(a3, 48, uint64(len(Segs[a1-1].Data)))
		return 0, 0, 0
	}
	return ^uintptr(0), 0, syscall.EINVAL
}
