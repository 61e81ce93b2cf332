// Package reads holds the checks that reading changes nothing.
package reads

import (
	"errors"

	bbs "github.com/Ptt-official-app/go-bbs"
	formosabbs "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

func digit(i int) string { return string([]byte{byte('0' + i)}) }

type file struct {
	path string
	data []byte
}

// record is a record with a name at its place and one symbolic byte.
func record(size, off int, name string, at int, sym string) []byte {
	b := make([]byte, size)
	copy(b[off:], name)
	b[at] = vrt.U8R(sym, 'a', 'z')
	return b
}

// article is the record of an article of pichu with a symbolic byte in the title.
func article() []byte {
	b := record(128, 0, "M.1", 54, "a0")
	copy(b[34:], "pichu")
	return b
}

const comment = "\x1b[1;31m+ \x1b[33mpichu\x1b[m\x1b[33m:hi \x1b[m  05/15 01:06\n"

// home is a BBS home and the files in it.
func home() []file {
	fav := []byte{0xa6, 0x0d, 1, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	return []file{
		{"/bbs/.PASSWDS", append(record(512, 4, "pichu", 9, "u0"), record(512, 4, "pich", 8, "u1")...)},
		{"/bbs/.BRD", append(record(256, 0, "ta", 13, "b0"), record(256, 0, "ALLPOST", 13, "b1")...)},
		{"/bbs/home/p/pichu/.fav", fav},
		{"/bbs/boards/t/ta/.DIR", article()},
		{"/bbs/man/boards/t/ta/D/.DIR", record(128, 0, "M.", 2, "t0")},
		{"/bbs/boards/t/ta/M.1", []byte(comment + "text\n")},
		{"/bbs/man/boards/t/ta/D/M.1", vrt.Bytes("treasure", 2, 2, 0, 255)},
		{"/bbs/home/p/pichu/buf.0", vrt.Bytes("draft", 2, 2, 0, 255)},
		{"/bbs/logins.bad", []byte(" pichu       [05/15/2020 01:06:00 Fri] ?@1.2.3.4\n[05/15/2020 01:06:00 Fri] a\n")},
		{"/bbs/logins.recent", []byte("05/15/2020 01:06:00 1.2.3.4\n")},
		{"/bbs/formosa", record(248, 0, "M.", 2, "f0")},
	}
}

const reads = 13

// read is the result of the k-th way to read.
func read(db *bbs.DB, k int) (l []string, err error) {
	add := func(s ...string) { l = append(l, s...) }
	articles := func(rs []bbs.ArticleRecord) {
		for _, r := range rs {
			add(r.Filename(), r.Owner(), r.Title())
		}
	}
	switch k {
	case 0:
		rs, e := db.ReadUserRecords()
		for _, r := range rs {
			add(r.UserID())
		}
		err = e
	case 1:
		rs, e := db.ReadUserFavoriteRecords("pichu")
		for _, r := range rs {
			add(r.BoardID())
		}
		err = e
	case 2:
		rs, e := db.ReadBoardRecords()
		for _, r := range rs {
			add(r.BoardID(), r.Title())
		}
		err = e
	case 3:
		rs, e := db.ReadBoardArticleRecordsFile("ta")
		articles(rs)
		err = e
	case 4:
		rs, e := db.ReadBoardTreasureRecordsFile("ta", []string{"D"})
		articles(rs)
		err = e
	case 5:
		b, e := db.ReadBoardArticleFile("ta", "M.1")
		add(string(b))
		err = e
	case 6:
		b, e := db.ReadBoardTreasureFile("ta", []string{"D"}, "M.1")
		add(string(b))
		err = e
	case 7:
		rs, e := db.GetUserArticleRecordFile("pichu")
		for _, r := range rs {
			add(r.BoardID(), r.ArticleID(), r.Title())
		}
		err = e
	case 8:
		rs, e := db.GetUserCommentRecordFile("pichu")
		for _, r := range rs {
			add(r.BoardID(), r.Filename(), r.Owner(), r.Comment())
		}
		err = e
	case 9:
		d, e := db.GetUserDrafts("pichu", "0")
		if e == nil {
			add(string(d.Raw()))
		}
		err = e
	case 10:
		rs, e := pttbbs.OpenBadLoginFile("/bbs/logins.bad")
		for _, r := range rs {
			add(r.UserID, r.FromHost)
		}
		err = e
	case 11:
		rs, e := pttbbs.OpenLoginRecentFile("/bbs/logins.recent")
		for _, r := range rs {
			add(r.FromHost)
		}
		err = e
	case 12:
		rs, e := formosabbs.OpenFormosaBBSFileHeaderFile("/bbs/formosa")
		for _, r := range rs {
			add(r.Filename)
		}
		err = e
	}
	return l, err
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// HReadOnly: reading, whatever of the home is there and whichever call fails, leaves everything as it is, and the same
// home is read the same again.
//
//verif:prop C37
func HReadOnly() {
	l := home()
	k := vrt.Case("read", 0, reads-1)
	// one of the files is missing, or none, or there are none at all, or not even directories
	missing := vrt.Case("missing", -3, len(l)-1)
	if missing == -3 {
		missing = -2
	} else {
		vos.PutDir("/bbs/home/p/pichu")
		vos.PutDir("/bbs/boards/t/ta")
	}
	for i, f := range l {
		if missing != -2 && missing != i {
			vos.Put(f.path, f.data)
		}
	}
	paths := len(vos.Paths())
	db, err := bbs.Open("pttbbs", "file:///bbs")
	vrt.Assert(err == nil, "opens")
	first, err1 := read(db, k)
	if missing == -1 {
		vrt.Assert(err1 == nil && len(first) > 0, "reads")
	}
	// the second time a call fails
	fail := vrt.Case("fail", 0, vrt.Bound(6, 12))
	n, failed := 0, false
	fault := errors.New("fault")
	vos.Before = func(op, path string) error {
		n++
		if n == fail {
			failed = true
			return fault
		}
		return nil
	}
	if fail > 0 {
		read(db, k)
		vrt.Assume(failed)
	}
	vos.Before = nil
	again, err2 := read(db, k)
	vrt.Assert((err1 == nil) == (err2 == nil) && same(first, again), "reads-the-same-again")
	vrt.Assert(len(vos.Paths()) == paths, "no-file-appears-or-goes")
	for i, f := range l {
		got, ok := vos.Get(f.path)
		if missing == -2 || missing == i {
			vrt.Assert(!ok, "no-file-appears")
		} else {
			vrt.Assert(ok && string(got) == string(f.data), "content-as-it-was")
		}
		vrt.Assert(!vos.Locked(f.path), "nothing-locked")
	}
	vrt.Assert(vos.DescriptorsClosed(), "files-closed")
}

// HReadNothing: opening what is not there is an error and leaves nothing behind, whichever kind of file it is.
//
//verif:prop C37
func HReadNothing() {
	n := vrt.Case("n", 1, vrt.Bound(4, 12))
	name := vrt.Str("name", n, n, 'a', 'z')
	dir := []string{"/bbs/", "/bbs/no/", "no/", ""}[vrt.Case("dir", 0, 3)]
	vos.PutDir("/bbs")
	before := len(vos.Paths())
	path := dir + name
	var err error
	switch vrt.Case("kind", 0, 6) {
	case 0:
		_, err = pttbbs.OpenUserecFile(path)
	case 1:
		_, err = pttbbs.OpenBoardHeaderFile(path)
	case 2:
		_, err = pttbbs.OpenFileHeaderFile(path)
	case 3:
		_, err = pttbbs.OpenFavFile(path)
	case 4:
		_, err = pttbbs.OpenBadLoginFile(path)
	case 5:
		_, err = pttbbs.OpenLoginRecentFile(path)
	case 6:
		_, err = formosabbs.OpenFormosaBBSFileHeaderFile(path)
	}
	vrt.Assert(err != nil, "error-without-the-file")
	vrt.Assert(len(vos.Paths()) == before, "nothing-made")
	vrt.Assert(!vos.Has(path), "no-file-made")
	vrt.Assert(vos.DescriptorsClosed(), "files-closed")
}
