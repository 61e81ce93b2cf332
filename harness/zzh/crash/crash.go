// Package crash holds the checks of what is left when a process dies in the middle of a write.
package crash

import (
	"errors"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrand"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

func digit(i int) string { return string([]byte{byte('0' + i)}) }

const brd, dir, art = "/bbs/.BRD", "/bbs/boards/t/ta/.DIR", "/bbs/boards/t/ta/M.1"

// records are n records of which the first, one in the middle and the last byte are symbolic.
func records(n, size int, nm string) (b []byte) {
	for i := 0; i < n; i++ {
		r := make([]byte, size)
		copy(r, "x"+nm)
		r[0] = vrt.U8R(nm+"first"+digit(i), 'a', 'z')
		r[size/2] = vrt.U8(nm + "middle" + digit(i))
		r[size-1] = vrt.U8(nm + "last" + digit(i))
		b = append(b, r...)
	}
	return b
}

type file struct {
	path string
	data []byte
}

// home is a BBS home; it returns its files.
func home(n int) (*bbs.DB, []file) {
	vos.PutDir("/bbs/home/p/pichu")
	l := []file{
		{brd, records(n, 256, "b")},
		{dir, records(n, 128, "a")},
		{art, vrt.Bytes("article", 3, 3, 0, 255)},
		{"/bbs/boards/t/ta/M.2", vrt.Bytes("other", 2, 2, 0, 255)},
		{"/bbs/boards/t/tb/.DIR", records(1, 128, "o")},
		{"/bbs/home/p/pichu/buf.0", vrt.Bytes("draft", 2, 2, 0, 255)},
		{"/bbs/home/p/pichu/buf.1", vrt.Bytes("draft1", 2, 2, 0, 255)},
	}
	for _, f := range l {
		vos.Put(f.path, f.data)
	}
	draws := 0
	vrand.Fn = func(n int) int { draws++; return draws % n }
	db, err := bbs.Open("pttbbs", "file:///bbs")
	vrt.Assert(err == nil, "opens")
	return db, l
}

// die runs f in a process which dies at its k-th system call: from then on nothing it does has an effect. When that
// call is a write, a part of it is done.
func die(f func()) {
	k := vrt.Case("call", 1, 24)
	part := vrt.Case("part", 0, 3)
	gone := errors.New("the process is gone")
	n, dead, torn := 0, false, false
	vos.Before = func(op, path string) error {
		if dead {
			return gone
		}
		n++
		if n == k {
			if op == "write" && part > 0 {
				torn = true
				return nil
			}
			vrt.Assume(part == 0)
			dead = true
			return gone
		}
		return nil
	}
	vos.OnWrite = func(path string, l int) (int, error) {
		if dead {
			return 0, gone
		}
		if torn {
			torn, dead = false, true
			m := []int{0, 1, l / 2, l - 1}[part]
			if m < 0 || m > l {
				m = l
			}
			return m, gone
		}
		return l, nil
	}
	f()
	vos.Before, vos.OnWrite = nil, nil
	vrt.Assume(dead)
}

// kept asserts that every file but one is as it was.
func kept(l []file, but string) {
	for _, f := range l {
		if f.path != but {
			got, ok := vos.Get(f.path)
			vrt.Assert(ok && string(got) == string(f.data), "other-files-kept")
		}
	}
}

func left(path string) []byte {
	b, ok := vos.Get(path)
	vrt.Assert(ok, "file-kept")
	return b
}

func starts(b, with []byte) bool { return len(b) >= len(with) && string(b[:len(with)]) == string(with) }

// HCrashAppend: whatever is appended, what was there stays.
//
//verif:prop C36
func HCrashAppend() {
	db, l := home(vrt.Case("records", 0, vrt.Bound(2, 3)))
	which := vrt.Case("which", 0, 2)
	f := l[which]
	switch which {
	case 0:
		r, err := db.NewBoardRecord(map[string]interface{}{"board_id": "tc", "title": "title"})
		vrt.Assert(err == nil, "makes-record")
		die(func() { db.AddBoardRecord(r) })
	case 1:
		a := pttbbs.NewFileHeader()
		a.SetFilename("M.3")
		die(func() { db.AddArticleRecordFileRecord("ta", a) })
	case 2:
		text := vrt.Bytes("text", 4, 4, 0, 255)
		die(func() { db.AppendBoardArticleFile("ta", "M.1", text) })
	}
	vrt.Assert(starts(left(f.path), f.data), "existing-content-kept")
	kept(l, f.path)
}

// HCrashUpdate: the other records stay.
//
//verif:prop C36
func HCrashUpdate() {
	n := vrt.Bound(3, 4)
	_, l := home(n)
	i := vrt.Case("index", 0, n-1)
	c := &pttbbs.Connector{}
	a := pttbbs.NewFileHeader()
	a.SetFilename("M.3")
	die(func() { c.UpdateArticleRecordFileRecord(dir, uint(i), a) })
	got, was := left(dir), l[1].data
	vrt.Assert(len(got) == len(was), "length-kept")
	for j := 0; j < n; j++ {
		if j != i {
			vrt.Assert(string(got[128*j:128*j+128]) == string(was[128*j:128*j+128]), "other-records-kept")
		}
	}
	kept(l, dir)
}

// HCrashRemove: every other board is still there, in order.
//
//verif:prop C36
func HCrashRemove() {
	n := vrt.Case("records", 1, vrt.Bound(3, 5))
	_, l := home(n)
	i := vrt.Case("index", 0, vrt.Bound(3, 5)-1)
	vrt.Assume(i < n)
	die(func() { pttbbs.RemoveBoardHeaderFileRecord(brd, i) })
	got, was := left(brd), l[0].data
	// the records but the i-th are found one after the other: at[j] tells whether the first j of them are
	var rest [][]byte
	for j := 0; j < n; j++ {
		if j != i {
			rest = append(rest, was[256*j:256*j+256])
		}
	}
	at := make([]bool, len(rest)+1)
	at[0] = true
	for k := 0; k+256 <= len(got); k += 256 {
		for j := len(rest) - 1; j >= 0; j-- {
			if at[j] && string(got[k:k+256]) == string(rest[j]) {
				at[j+1] = true
			}
		}
	}
	vrt.Assert(at[len(rest)], "other-boards-kept")
	kept(l, brd)
}

// HCrashWrite: only the file which is written can be lost.
//
//verif:prop C36
func HCrashWrite() {
	db, l := home(2)
	text := vrt.Bytes("text", 0, 4, 0, 255)
	switch vrt.Case("which", 0, 4) {
	case 0:
		die(func() { db.WriteBoardArticleFile("ta", "M.1", text) })
		kept(l, art)
	case 1:
		die(func() { db.WriteUserDraft("pichu", "0", bbs.NewUserDraft(text)) })
		kept(l, "/bbs/home/p/pichu/buf.0")
	case 2:
		die(func() { db.DeleteUserDraft("pichu", "0") })
		kept(l, "/bbs/home/p/pichu/buf.0")
	case 3:
		die(func() { db.CreateArticleRecord("ta", "pichu", " 9/13", "title") })
		kept(l, "")
	case 4:
		c := &pttbbs.Connector{}
		vrt.Assert(c.Open("/bbs") == nil, "opens")
		die(func() {
			c.NewArticleRecordWithMap(map[string]interface{}{"owner": "pichu", "date": " 9/13", "title": "title", "board_id": "ta"})
		})
		kept(l, "")
	}
}
