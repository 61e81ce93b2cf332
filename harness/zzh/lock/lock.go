// Package lock holds the checks of writers which work on one file at the same time.
package lock

import (
	"errors"
	"syscall"

	"github.com/Ptt-official-app/go-bbs/filelock"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

const brd, dir, art = "/bbs/.BRD", "/bbs/boards/t/test/.DIR", "/bbs/boards/t/test/M.1"

func zzdigit(i int) string { return string([]byte{byte('0' + i)}) }

func cat(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }

// board and header are records whose name is symbolic.
func board(nm string) []byte {
	b := make([]byte, 256)
	copy(b, "b"+nm)
	b[4] = vrt.U8R("board."+nm, 'a', 'z')
	b[255] = vrt.U8("boardend." + nm)
	return b
}

func header(nm string) []byte {
	b := make([]byte, 128)
	copy(b, "M."+nm)
	b[10] = vrt.U8R("header."+nm, 'a', 'z')
	b[127] = vrt.U8("headerend." + nm)
	return b
}

// op is one writer: what it does, to which file.
type op func(path string) error

func appendBoard(nm string) op {
	b, err := pttbbs.UnmarshalBoardHeader(board(nm))
	vrt.Assert(err == nil, "decodes")
	return func(p string) error { return (&pttbbs.Connector{}).AddBoardRecordFileRecord(p, b) }
}

func removeBoard(i int) op {
	return func(p string) error { return pttbbs.RemoveBoardHeaderFileRecord(p, i) }
}

func appendHeader(nm string) op {
	f, err := pttbbs.NewFileHeaderWithByte(header(nm))
	vrt.Assert(err == nil, "decodes")
	return func(p string) error { return (&pttbbs.Connector{}).AddArticleRecordFileRecord(p, f) }
}

func updateHeader(nm string, i uint) op {
	f, err := pttbbs.NewFileHeaderWithByte(header(nm))
	vrt.Assert(err == nil, "decodes")
	return func(p string) error { return (&pttbbs.Connector{}).UpdateArticleRecordFileRecord(p, i, f) }
}

func writeArticle(b []byte) op {
	return func(p string) error { return (&pttbbs.Connector{}).WriteBoardArticleFile(p, b) }
}

func appendArticle(b []byte) op {
	return func(p string) error { return (&pttbbs.Connector{}).AppendBoardArticleFile(p, b) }
}

type outcome struct {
	a, b error
	data []byte
	has  bool
}

func (x outcome) same(y outcome) bool {
	return (x.a == nil) == (y.a == nil) && (x.b == nil) == (y.b == nil) && x.has == y.has && string(x.data) == string(y.data)
}

var notRun = errors.New("not run")

// serial is what the writers leave one after the other; first is 0 or 1; only says that the other is refused.
func serial(path string, start []byte, exists bool, a, b op, first int, only bool) outcome {
	p := path + ".serial" + zzdigit(first)
	if only {
		p += "only"
	}
	if exists {
		vos.Put(p, start)
	}
	o := outcome{a: notRun, b: notRun}
	if first == 0 || !only {
		if first == 0 {
			o.a = a(p)
		} else {
			o.b = b(p)
		}
	}
	if first == 1 && only {
		o.b = b(p)
	}
	if !only {
		if first == 0 {
			o.b = b(p)
		} else {
			o.a = a(p)
		}
	}
	o.data, o.has = vos.Get(p)
	return o
}

// race runs b when a is about to make its k-th system call.
func race(path string, start []byte, exists bool, a, b op, k int) {
	orders := []outcome{serial(path, start, exists, a, b, 0, false), serial(path, start, exists, a, b, 1, false)}
	if exists {
		vos.Put(path, start)
	}
	n := 0
	ran := false
	var x outcome
	step := func() {
		n++
		if n == k {
			ran = true
			vos.Actor = 1
			x.b = b(path)
			vos.Actor = 0
		}
	}
	vos.Before = func(op, p string) error { step(); return nil }
	vos.OnLock = func(p string) error { step(); return nil }
	x.a = a(path)
	vos.Before, vos.OnLock = nil, nil
	vrt.Assume(ran)
	x.data, x.has = vos.Get(path)
	vrt.Reach("both-ran")
	good := x.same(orders[0]) || x.same(orders[1])
	if !good && vos.Refused {
		// a writer may also give up when the file is locked
		for i := 0; i < 2; i++ {
			good = good || x.same(serial(path, start, exists, a, b, i, true))
		}
	}
	vrt.Assert(good, "some-serial-order")
	vrt.Assert(!vos.Locked(path), "lock-released")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HLockBoards: writers of the board records.
//
//verif:prop C29
func HLockBoards() {
	n := vrt.Case("n", 0, vrt.Bound(3, 5))
	vos.PutDir("/bbs")
	var start []byte
	for i := 0; i < n; i++ {
		start = cat(start, board("s"+zzdigit(i)))
	}
	pick := func(nm string) op {
		k := vrt.Case(nm, 0, n)
		if k == n {
			return appendBoard(nm)
		}
		return removeBoard(k)
	}
	a, b := pick("a"), pick("b")
	race(brd, start, n > 0, a, b, vrt.Case("at", 1, 12+2*n))
}

// HLockHeaders: writers of the article records of a board.
//
//verif:prop C29
func HLockHeaders() {
	n := vrt.Case("n", 0, vrt.Bound(3, 5))
	vos.PutDir("/bbs/boards/t/test")
	var start []byte
	for i := 0; i < n; i++ {
		start = cat(start, header("s"+zzdigit(i)))
	}
	pick := func(nm string) op {
		k := vrt.Case(nm, 0, n)
		if k == n {
			return appendHeader(nm)
		}
		return updateHeader(nm, uint(k))
	}
	a, b := pick("a"), pick("b")
	race(dir, start, n > 0, a, b, vrt.Case("at", 1, 6))
}

// HLockArticle: writers of one article.
//
//verif:prop C29
func HLockArticle() {
	vos.PutDir("/bbs/boards/t/test")
	exists := vrt.Case("exists", 0, 1) == 1
	start := vrt.Bytes("start", 0, vrt.Bound(2, 4), 0, 255)
	appends := 0
	pick := func(nm string) op {
		data := vrt.Bytes(nm, 0, vrt.Bound(3, 5), 0, 255)
		if vrt.Case(nm+".op", 0, 1) == 0 {
			return writeArticle(data)
		}
		appends++
		return appendArticle(data)
	}
	a, b := pick("a"), pick("b")
	if appends > 0 {
		// what is appended to does exist
		vrt.Assume(exists)
	}
	race(art, start, exists, a, b, vrt.Case("at", 1, 6))
}

// anyOp is one of the writers, its file and what that holds.
func anyOp() (path string, start []byte, w op) {
	vos.PutDir("/bbs/boards/t/test")
	path = dir
	what := vrt.Case("op", 0, 5)
	switch what {
	case 0, 1:
		path = brd
		start = cat(board("s0"), board("s1"))
		w = appendBoard("n")
		if what == 1 {
			w = removeBoard(0)
		}
	case 2, 3:
		start = cat(header("s0"), header("s1"))
		w = appendHeader("n")
		if what == 3 {
			w = updateHeader("n", 1)
		}
	default:
		path = art
		start = vrt.Bytes("start", 2, 2, 0, 255)
		w = writeArticle(start)
		if what == 5 {
			w = appendArticle(start)
		}
	}
	return path, start, w
}

// HLockFaults: a writer which fails does not keep the lock.
//
//verif:prop C29
func HLockFaults() {
	path, start, w := anyOp()
	vos.Put(path, start)
	k, n, fired := vrt.Case("fail", 1, 14), 0, false
	step := func() error {
		n++
		if n == k {
			fired = true
			return syscall.EIO
		}
		return nil
	}
	vos.Before = func(op, p string) error { return step() }
	vos.OnLock = func(p string) error { return step() }
	err := w(path)
	vos.Before, vos.OnLock = nil, nil
	vrt.Assume(fired)
	vrt.Assert(err != nil, "failure-reported")
	vrt.Assert(!vos.Locked(path), "lock-released")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
	vos.Actor = 1
	vrt.Assert(w(path) == nil, "next-writer-gets-in")
}

// HLockExcluded: a writer changes nothing before it has the lock, and does not get it while somebody else
// holds it, for writing or for reading.
//
//verif:prop C29
func HLockExcluded() {
	path, start, w := anyOp()
	vos.Put(path, start)
	vos.Actor = 1
	f, err := vos.OpenFile(path, syscall.O_RDWR, 0644)
	vrt.Assert(err == nil, "opens")
	if vrt.Case("shared", 0, 1) == 1 {
		err = filelock.RLock(f)
	} else {
		err = filelock.Lock(f)
	}
	vrt.Assert(err == nil, "lock-free")
	vos.Actor = 0
	vos.OnLock = func(p string) error {
		b, ok := vos.Get(path)
		vrt.Assert(ok && string(b) == string(start), "unchanged-before-lock")
		return nil
	}
	vos.NoWait = true
	err = w(path)
	vos.OnLock = nil
	// the lock is never given back, so that the writer waits, or gives up at last
	b, ok := vos.Get(path)
	vrt.Assert(err != nil, "waits-for-lock")
	vrt.Assert(ok && string(b) == string(start), "unchanged-without-lock")
}
