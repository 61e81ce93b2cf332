package store

import (
	"syscall"
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzh/h"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrand"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
	"github.com/Ptt-official-app/go-bbs/zzverif/vtime"
)

// HContent: every sequence of write, append, read and delete leaves exactly the bytes it should.
//
//verif:prop C12
func HContent() {
	c := &pttbbs.Connector{}
	has := vrt.Case("prior", 0, 1) == 1
	var cur []byte
	vos.PutDir("/bbs/x")
	vos.Put(other, []byte("other"))
	if has {
		cur = vrt.Bytes("p", 0, 6, 0, 255)
		vos.Put(path, cur)
	}
	steps := vrt.Bound(3, 4)
	vos.MaxOps = 100
	for i := 0; i < steps; i++ {
		nm := string(rune('a' + i))
		op := vrt.Case("op"+nm, 0, 5)
		switch op {
		case 0, 1:
			b := vrt.Bytes(nm, 0, 4, 0, 255)
			var err error
			if op == 0 {
				err = c.WriteBoardArticleFile(path, b)
			} else {
				err = c.WriteUserDraft(path, b)
			}
			vrt.Assert(err == nil, "writes")
			cur, has = b, true
		case 2:
			b := vrt.Bytes(nm, 0, 4, 0, 255)
			err := c.AppendBoardArticleFile(path, b)
			if has {
				vrt.Assert(err == nil, "appends")
				cur = cat(cur, b)
			} else if err == nil {
				// creating the file is as good as refusing
				cur, has = b, true
			}
		case 3:
			b, err := c.ReadBoardArticleFile(path)
			if has {
				vrt.Assert(err == nil && eq(b, cur), "reads-article")
			} else {
				vrt.Assert(err != nil, "missing-article-reported")
			}
		case 4:
			b, err := c.ReadUserDraft(path)
			if has {
				vrt.Assert(err == nil && eq(b, cur), "reads-draft")
			} else {
				vrt.Assert(len(b) == 0, "missing-draft-empty")
			}
		case 5:
			err := c.DeleteUserDraft(path)
			vrt.Assert(has == (err == nil), "deletes-draft")
			has, cur = false, nil
		}
		now, ok := vos.Get(path)
		vrt.Assert(ok == has && eq(now, cur), "content-exact")
	}
	o, ok := vos.Get(other)
	vrt.Assert(ok && string(o) == "other", "nothing-else-touched")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HContentFaults: a failing system call of any content operation is reported.
//
//verif:prop C12
func HContentFaults() {
	c := &pttbbs.Connector{}
	op := vrt.Case("op", 0, 5)
	cur := vrt.Bytes("p", 3, 3, 0, 255)
	b := vrt.Bytes("b", 4, 4, 0, 255)
	vos.Put(path, cur)
	vos.Put(other, []byte("other"))
	mode := vrt.Case("mode", 1, 9)
	e := setup(mode, nil)
	e.interfere = 0
	rd := &reads{}
	if mode > 7 {
		rd.kind, rd.k = 2, mode-7
	}
	vos.OnRead = rd.on
	var err error
	var got []byte
	switch op {
	case 0:
		err = c.WriteBoardArticleFile(path, b)
	case 1:
		err = c.WriteUserDraft(path, b)
	case 2:
		err = c.AppendBoardArticleFile(path, b)
	case 3:
		got, err = c.ReadBoardArticleFile(path)
	case 4:
		got, err = c.ReadUserDraft(path)
	case 5:
		err = c.DeleteUserDraft(path)
	}
	vos.Before, vos.OnWrite, vos.OnRead = nil, nil, nil
	now, ok := vos.Get(path)
	vrt.Observe("err", err != nil)
	if e.failed() || rd.fired {
		vrt.Assert(err != nil, "failure-reported")
	} else {
		vrt.Assert(err == nil, "no-spurious-error")
		switch op {
		case 0, 1:
			vrt.Assert(ok && eq(now, b), "content-exact")
		case 2:
			vrt.Assert(ok && eq(now, cat(cur, b)), "content-exact")
		case 3, 4:
			vrt.Assert(eq(got, cur) && eq(now, cur), "content-exact")
		case 5:
			vrt.Assert(!ok, "content-exact")
		}
	}
	o, ok := vos.Get(other)
	vrt.Assert(ok && string(o) == "other", "nothing-else-touched")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

const bdir = "/bbs/boards/t/test"

func hex3(n int) string {
	d := "0123456789ABCDEF"
	return string([]byte{d[n>>8&15], d[n>>4&15], d[n&15]})
}

func dec(n int64) string {
	s := ""
	for n > 0 {
		s = string([]byte{byte('0' + n%10)}) + s
		n /= 10
	}
	return s
}

// world is a board directory with some articles in it, a clock and a source of random draws.
type world struct {
	c     *pttbbs.Connector
	names []string
	draws int
	prev  []int
}

// newWorld uses clock readings that fall in one second or move on, and draws of which the first ones may
// name existing articles; draw number `free` and later ones are free.
func newWorld(existing, free int) *world {
	w := &world{c: &pttbbs.Connector{}}
	w.c.Open("file:///bbs")
	vos.PutDir(bdir)
	vos.Put(bdir+"/.DIR", []byte("dir"))
	t := int64(1600000000)
	r := []int{0x7ff, 9}[vrt.Case("r", 0, vrt.Bound(0, 1))]
	for i := 0; i < existing; i++ {
		n := "M." + dec(t) + ".A." + hex3((r+i)&0xfff)
		w.names = append(w.names, n)
		vos.Put(bdir+"/"+n, []byte("old"))
	}
	vtime.Fn = func() time.Time { return time.Unix(t, 0) }
	vrand.Fn = func(n int) int {
		w.draws++
		d := vrt.Int("draw"+dec(int64(w.draws)), 0, 0xfff)
		if w.draws >= free {
			for i := 0; i < existing; i++ {
				vrt.Assume(d != (r+i)&0xfff)
			}
			for _, p := range w.prev {
				vrt.Assume(d != p)
			}
		}
		w.prev = append(w.prev, d)
		vrt.Assume(d < n)
		return d
	}
	vos.MaxOps = 40
	return w
}

func (w *world) oldKept() bool {
	ok := true
	for _, n := range w.names {
		b, have := vos.Get(bdir + "/" + n)
		if !have || string(b) != "old" {
			ok = false
		}
	}
	d, have := vos.Get(bdir + "/.DIR")
	return ok && have && string(d) == "dir"
}

func goodName(s string) bool {
	if len(s) != 18 || s[:2] != "M." || s[12:15] != ".A." {
		return false
	}
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case i >= 2 && i < 12:
			ok = ok && c >= '0' && c <= '9'
		case i >= 15:
			ok = ok && (c >= '0' && c <= '9' || c >= 'A' && c <= 'F')
		}
	}
	return ok
}

// HNewName: a new article gets a name of its own, whatever exists and whatever another writer creates.
//
//verif:prop C13
func HNewName() {
	how := vrt.Case("how", 0, 1)
	existing := vrt.Case("existing", 0, vrt.Bound(2, 3))
	w := newWorld(existing, vrt.Bound(2, 3))
	steal := vrt.Case("steal", 0, 1)
	stolen := ""
	opens := 0
	vos.Before = func(op, p string) error {
		if op == "open" {
			opens++
			// another writer takes the chosen name just before it is opened
			if opens == steal && !vos.Has(p) {
				stolen = p
				vos.Put(p, []byte("thief"))
			}
		}
		return nil
	}
	name, err := create(w, how)
	vos.Before = nil
	vrt.Observe("err", err != nil)
	vrt.Observe("name", name)
	vrt.Assert(err == nil, "creates")
	vrt.Assert(goodName(name), "name-form")
	for _, n := range w.names {
		vrt.Assert(n != name, "name-unique")
	}
	vrt.Assert(w.oldKept(), "existing-articles-kept")
	if stolen != "" {
		b, ok := vos.Get(stolen)
		vrt.Assert(ok && string(b) == "thief" && stolen != bdir+"/"+name, "other-writer-kept")
	}
	b, ok := vos.Get(bdir + "/" + name)
	vrt.Assert(ok, "file-created")
	if how == 0 {
		vrt.Assert(len(b) == 0, "file-empty")
	}
	extra := 1
	if stolen != "" {
		extra = 2
	}
	vrt.Assert(vos.Count(bdir) == existing+1+extra, "one-new-file")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

func create(w *world, how int) (string, error) {
	if how == 0 {
		return w.c.CreateBoardArticleFilename("test")
	}
	r, err := w.c.NewArticleRecordWithMap(map[string]interface{}{"owner": "pichu", "date": "9/13", "title": "hello", "board_id": "test"})
	if err != nil {
		return "", err
	}
	return r.Filename(), nil
}

// HNewNameFaults: when the file cannot be created the call ends with an error.
//
//verif:prop C13
func HNewNameFaults() {
	how := vrt.Case("how", 0, 1)
	w := newWorld(1, 1)
	errs := []error{syscall.EACCES, syscall.ENOENT, syscall.ENOSPC, syscall.EMFILE, syscall.EIO}
	e := errs[vrt.Case("errno", 0, 4)]
	vos.Before = func(op, p string) error {
		if op == "open" {
			return e
		}
		return nil
	}
	_, err := create(w, how)
	vos.Before = nil
	vrt.Assert(err != nil, "failure-reported")
	vrt.Assert(w.oldKept() && vos.Count(bdir) == 2, "nothing-created")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HNewArticle: a new article record carries what the caller gave and its file starts with that header.
//
//verif:prop C13
func HNewArticle() {
	w := newWorld(0, 1)
	owner := vrt.Str("owner", 1, 3, 33, 126)
	title := vrt.Str("title", 0, 3, 32, 126)
	date := vrt.Str("date", 1, 3, 33, 126)
	r, err := w.c.NewArticleRecordWithMap(map[string]interface{}{"owner": owner, "date": date, "title": title, "board_id": "test"})
	vrt.Assert(err == nil, "creates")
	vrt.Assert(r.Owner() == owner && r.Title() == title && r.Date() == date, "record-fields")
	f, ok := r.(*pttbbs.FileHeader)
	vrt.Assert(ok, "own-record-type")
	b, err := f.MarshalToByte()
	vrt.Assert(err == nil && h.Text(b, h.Span{Off: 0, N: 28}) == r.Filename(), "record-filename")
	data, ok := vos.Get(bdir + "/" + r.Filename())
	vrt.Assert(ok, "file-created")
	want := "作者: " + owner + " 看板: test\n標題: " + title + " \n時間: " + date + "\n"
	vrt.Assert(string(data) == want, "file-header")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HNewArticleArgs: a missing argument is an error and creates nothing.
//
//verif:prop C13
func HNewArticleArgs() {
	w := newWorld(0, 1)
	args := map[string]interface{}{"owner": "o", "date": "d", "title": "t", "board_id": "test"}
	k := []string{"owner", "date", "title", "board_id"}[vrt.Case("missing", 0, 3)]
	if vrt.Case("how", 0, 1) == 0 {
		delete(args, k)
	} else {
		args[k] = 7
	}
	_, err := w.c.NewArticleRecordWithMap(args)
	vrt.Assert(err != nil && vos.Count(bdir) == 1, "missing-argument-reported")
}

// HNewWriteFaults: when the new file cannot be locked or written the call ends with an error and no record.
//
//verif:prop C13
func HNewWriteFaults() {
	how := vrt.Case("how", 0, 1)
	w := newWorld(1, 1)
	at, ops := vrt.Case("at", 1, 6), 0
	m := vrt.Case("written", 0, 2) * 10
	failed := false
	fail := func() bool { ops++; failed = failed || ops == at; return ops == at }
	vos.Before = func(op, p string) error {
		if op == "open" && fail() {
			return syscall.EIO
		}
		return nil
	}
	vos.OnWrite = func(p string, n int) (int, error) {
		if fail() {
			if m < n {
				n = m
			}
			return n, syscall.ENOSPC
		}
		return n, nil
	}
	vos.OnLock = func(p string) error {
		if fail() {
			return syscall.ENOLCK
		}
		return nil
	}
	var r bbs.ArticleRecord
	var name string
	var err error
	vrt.NoPanic(func() {
		if how == 0 {
			name, err = w.c.CreateBoardArticleFilename("test")
		} else {
			r, err = w.c.NewArticleRecordWithMap(map[string]interface{}{"owner": "pichu", "date": "9/13", "title": "hello", "board_id": "test"})
		}
	}, "no-crash")
	vos.Before, vos.OnWrite, vos.OnLock = nil, nil, nil
	vrt.Assert(!failed || err != nil || how == 0, "failure-reported")
	if err == nil && how == 1 {
		vrt.Assert(r != nil, "record-or-error")
		name = r.Filename()
	}
	if err == nil {
		_, ok := vos.Get(bdir + "/" + name)
		vrt.Assert(ok, "file-created")
	}
	vrt.Assert(w.oldKept(), "existing-articles-kept")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}
