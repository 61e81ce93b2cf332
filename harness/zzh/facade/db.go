package facade

import (
	"errors"
	"os"
	"strings"
	"syscall"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// asked checks what the driver was asked, in order.
func asked(d *driver, want ...string) {
	vrt.Assert(len(d.calls) == len(want), "driver-calls")
	for i, w := range want {
		vrt.Assert(d.calls[i] == w, "driver-arguments")
	}
}

func reported(err error) {
	vrt.Assert(err != nil && strings.Contains(err.Error(), errDriver.Error()), "error-reported")
}

// HRead: every read returns what the driver returns for the path the driver gives, or its error.
//
//verif:prop C15
func HRead() {
	n := vrt.Case("n", 0, 2)
	a := text("a", 0, vrt.Bound(2, 5))
	b := text("b", 0, vrt.Bound(1, 3))
	t := []string{}
	for i := vrt.Case("tr", 0, 2); i > 0; i-- {
		t = append(t, text("t"+digit(i), 0, 1))
	}
	ta := strings.Join(append([]string{a}, t...), "|")
	d := &driver{failAt: vrt.Case("fail", 0, 2), articles: map[string][]bbs.ArticleRecord{}, files: map[string][]byte{}}
	db := open(d, vrt.Case("cap", capNone, capNone))
	var err error
	k := 0
	switch vrt.Case("op", 0, 6) {
	case 0:
		for i := 0; i < n; i++ {
			d.users = append(d.users, &user{id: digit(i)})
		}
		var r []bbs.UserRecord
		r, err = db.ReadUserRecords()
		if err == nil {
			asked(d, "userspath ", "users userspath/")
			vrt.Assert(len(r) == n, "result")
			for i := range r {
				vrt.Assert(r[i] == d.users[i], "result")
			}
		}
		k = len(r)
	case 1:
		for i := 0; i < n; i++ {
			d.favorites = append(d.favorites, &favorite{})
		}
		var r []bbs.FavoriteRecord
		r, err = db.ReadUserFavoriteRecords(a)
		if err == nil {
			asked(d, "favpath "+a, "fav favpath/"+a)
			vrt.Assert(len(r) == n, "result")
			for i := range r {
				vrt.Assert(r[i] == d.favorites[i], "result")
			}
		}
		k = len(r)
	case 2:
		for i := 0; i < n; i++ {
			d.boards = append(d.boards, &board{id: digit(i)})
		}
		var r []bbs.BoardRecord
		r, err = db.ReadBoardRecords()
		if err == nil {
			asked(d, "boardspath ", "boards boardspath/")
			vrt.Assert(len(r) == n, "result")
			for i := range r {
				vrt.Assert(r[i] == d.boards[i], "result")
			}
		}
		k = len(r)
	case 3, 4:
		p := "articlespath/" + a
		var l []bbs.ArticleRecord
		for i := 0; i < n; i++ {
			l = append(l, &article{name: digit(i)})
		}
		var r []bbs.ArticleRecord
		if vrt.Case("treasure", 0, 1) == 0 {
			d.articles[p] = l
			r, err = db.ReadBoardArticleRecordsFile(a)
			if err == nil {
				asked(d, "articlespath "+a, "articles "+p)
			}
		} else {
			p = "treasurespath/" + ta
			d.articles[p] = l
			r, err = db.ReadBoardTreasureRecordsFile(a, t)
			if err == nil {
				asked(d, "treasurespath "+ta, "articles "+p)
			}
		}
		if err == nil {
			vrt.Assert(len(r) == n, "result")
			for i := range r {
				vrt.Assert(r[i] == l[i], "result")
			}
		}
		k = len(r)
	case 5:
		p := "articlepath/" + a + "|" + b
		d.files[p] = []byte(text("c", 0, 2))
		var r []byte
		r, err = db.ReadBoardArticleFile(a, b)
		if err == nil {
			asked(d, "articlepath "+a+"|"+b, "article "+p)
			vrt.Assert(string(r) == string(d.files[p]), "result")
		}
		k = len(r)
	case 6:
		p := "treasurepath/" + ta + "|" + b
		d.files[p] = []byte(text("c", 0, 2))
		var r []byte
		r, err = db.ReadBoardTreasureFile(a, t, b)
		if err == nil {
			asked(d, "treasurepath "+ta+"|"+b, "article "+p)
			vrt.Assert(string(r) == string(d.files[p]), "result")
		}
		k = len(r)
	}
	vrt.Assert((err != nil) == (d.failAt > 0), "no-spurious-error")
	if err != nil {
		reported(err)
		vrt.Assert(k == 0, "no-result-with-error")
	}
}

// HMissing: a missing article index is an empty list, no other missing file is.
//
//verif:prop C15
func HMissing() {
	e := []error{
		&os.PathError{Op: "open", Path: "x", Err: syscall.ENOENT},
		&os.PathError{Op: "open", Path: "x", Err: syscall.EACCES},
		&os.PathError{Op: "read", Path: "x", Err: syscall.EIO},
		&os.PathError{Op: "open", Path: "x", Err: syscall.ENOTDIR},
		&os.PathError{Op: "open", Path: "x", Err: syscall.EMFILE},
		errors.New("unexpected EOF"),
		errors.New(""),
		errors.New("no such board"),
		errors.New("no such file"),
		errors.New("file or directory"),
		&os.PathError{Op: "open", Path: "x", Err: syscall.ENXIO},
		&os.PathError{Op: "open", Path: "x", Err: syscall.ESRCH},
		&os.PathError{Op: "open", Path: "x", Err: syscall.EISDIR},
		&os.PathError{Op: "open", Path: "x", Err: syscall.ENAMETOOLONG},
	}[vrt.Case("err", 0, 13)]
	missing := vrt.Case("err", 0, 13) == 0
	d := &driver{failAt: 2, err: e}
	db := open(d, capNone)
	var err error
	switch vrt.Case("op", 0, 6) {
	case 0:
		var r []bbs.ArticleRecord
		r, err = db.ReadBoardArticleRecordsFile("b")
		if missing {
			vrt.Assert(err == nil && r != nil && len(r) == 0, "missing-index-empty")
			return
		}
	case 1:
		_, err = db.ReadBoardTreasureRecordsFile("b", []string{"t"})
	case 2:
		_, err = db.ReadBoardArticleFile("b", "f")
	case 3:
		_, err = db.ReadBoardTreasureFile("b", nil, "f")
	case 4:
		_, err = db.ReadUserRecords()
	case 5:
		_, err = db.ReadUserFavoriteRecords("u")
	case 6:
		_, err = db.ReadBoardRecords()
	}
	vrt.Assert(err != nil, "error-reported")
}

// HWrite: every write reaches the driver as given, every error the caller, and a driver without the
// capability gives an error.
//
//verif:prop C15
func HWrite() {
	op := vrt.Case("op", 0, 8)
	needs := []int{capBoards, capBoards, capArticles, capArticles, capArticles, capArticles, capDrafts, capDrafts, capDrafts}[op]
	capability := vrt.Case("cap", capNone, capDrafts)
	fail := vrt.Case("fail", 0, 2)
	a := text("a", 0, vrt.Bound(2, 4))
	b := text("b", 0, vrt.Bound(1, 3))
	c := []byte(text("c", 0, vrt.Bound(2, 4)))
	d := &driver{failAt: fail}
	db := open(d, capability)
	steps := 2
	brd := &board{id: "x"}
	art := &article{name: "x"}
	var err error
	var want []string
	switch op {
	case 0:
		steps = 1
		var r bbs.BoardRecord
		r, err = db.NewBoardRecord(map[string]interface{}{"id": a})
		want = []string{"newboard " + a}
		if err == nil {
			vrt.Assert(r != nil && r.BoardID() == a, "result")
		}
	case 1:
		err = db.AddBoardRecord(brd)
		want = []string{"boardspath ", "addboard boardspath/"}
		if err == nil {
			vrt.Assert(d.rec == interface{}(bbs.BoardRecord(brd)), "written")
		}
	case 2:
		var r bbs.ArticleRecord
		r, err = db.CreateArticleRecord(a, b, "d", string(c))
		want = []string{"createname " + a, "newarticle M." + a + "|" + b + "|d|" + string(c)}
		if err == nil {
			vrt.Assert(r != nil && r.Filename() == "M."+a && r.Owner() == b && r.Title() == string(c), "result")
		}
	case 3:
		err = db.AddArticleRecordFileRecord(a, art)
		want = []string{"articlespath " + a, "addarticle articlespath/" + a}
		if err == nil {
			vrt.Assert(d.rec == interface{}(bbs.ArticleRecord(art)), "written")
		}
	case 4:
		err = db.WriteBoardArticleFile(a, b, c)
		want = []string{"articlepath " + a + "|" + b, "writearticle articlepath/" + a + "|" + b}
	case 5:
		err = db.AppendBoardArticleFile(a, b, c)
		want = []string{"articlepath " + a + "|" + b, "appendarticle articlepath/" + a + "|" + b}
	case 6:
		d.content = c
		var r bbs.UserDraft
		r, err = db.GetUserDrafts(a, b)
		want = []string{"draftpath " + a + "|" + b, "readdraft draftpath/" + a + "|" + b}
		if err == nil {
			vrt.Assert(r != nil && string(r.Raw()) == string(c), "result")
		}
	case 7:
		err = db.DeleteUserDraft(a, b)
		want = []string{"draftpath " + a + "|" + b, "deletedraft draftpath/" + a + "|" + b}
	case 8:
		err = db.WriteUserDraft(a, b, bbs.NewUserDraft(c))
		want = []string{"draftpath " + a + "|" + b, "writedraft draftpath/" + a + "|" + b}
	}
	if capability != needs {
		vrt.Assert(err != nil, "missing-capability-reported")
		return
	}
	if fail > 0 && fail <= steps {
		reported(err)
		return
	}
	vrt.Assert(err == nil, "no-spurious-error")
	asked(d, want...)
	if op == 4 || op == 5 || op == 8 {
		vrt.Assert(string(d.content) == string(c), "written")
	}
}

// HUnsupported: calls no driver supports give an error.
//
//verif:prop C15
func HUnsupported() {
	d := &driver{}
	db := open(d, vrt.Case("cap", capNone, capDrafts))
	i := uint(vrt.U32("i"))
	var b bbs.BoardRecord = &board{}
	vrt.Assert(db.UpdateBoardRecord(i, &b) != nil, "unsupported-reported")
	r, err := db.ReadBoardRecord(i)
	vrt.Assert(r == nil && err != nil, "unsupported-reported")
	vrt.Assert(db.RemoveBoardRecord(i) != nil, "unsupported-reported")
}

// HOpenDriver: a handle comes from the registered driver with exactly the given source.
//
//verif:prop C30
func HOpenDriver() {
	one, two := &driver{}, &driver{}
	a := text("a", 0, vrt.Bound(3, 6))
	b := text("b", 0, vrt.Bound(2, 6))
	ask := text("ask", 0, vrt.Bound(3, 6))
	src := text("src", 0, vrt.Bound(3, 8))
	bbs.Register(a, one)
	bbs.Register(b, two)
	fail := vrt.Case("fail", 0, 1)
	one.failAt, two.failAt = fail, fail
	vrt.Assume(ask != "pttbbs")
	db, err := bbs.Open(ask, src)
	switch {
	case ask == b:
		vrt.Assert(len(one.calls) == 0, "other-driver-untouched")
		asked(two, "open "+src)
	case ask == a:
		vrt.Assert(len(two.calls) == 0, "other-driver-untouched")
		asked(one, "open "+src)
	default:
		vrt.Assert(len(one.calls) == 0 && len(two.calls) == 0, "other-driver-untouched")
		vrt.Assert(db == nil && err != nil, "unknown-driver-reported")
		return
	}
	if fail > 0 {
		vrt.Assert(db == nil, "no-handle-on-error")
		reported(err)
		return
	}
	vrt.Assert(db != nil && err == nil, "opens")
	// the handle is one of this driver
	one.calls, two.calls = nil, nil
	_, err = db.ReadBoardRecords()
	vrt.Assert(err == nil, "handle-of-driver")
	if ask == b {
		vrt.Assert(len(two.calls) == 2 && len(one.calls) == 0, "handle-of-driver")
	} else {
		vrt.Assert(len(one.calls) == 2 && len(two.calls) == 0, "handle-of-driver")
	}
}

// HTwoHandles: handles opened on different drivers stay apart.
//
//verif:prop C30
func HTwoHandles() {
	one, two := &driver{}, &driver{}
	one.boards = []bbs.BoardRecord{&board{id: "1"}}
	two.boards = []bbs.BoardRecord{&board{id: "2"}}
	bbs.Register("one", one)
	bbs.Register("two", two)
	d1, err1 := bbs.Open("one", text("s1", 0, 2))
	d2, err2 := bbs.Open("two", text("s2", 0, 2))
	vrt.Assert(err1 == nil && err2 == nil && d1 != d2, "opens")
	r1, err1 := d1.ReadBoardRecords()
	r2, err2 := d2.ReadBoardRecords()
	vrt.Assert(err1 == nil && err2 == nil, "opens")
	vrt.Assert(len(r1) == 1 && r1[0] == one.boards[0], "handles-apart")
	vrt.Assert(len(r2) == 1 && r2[0] == two.boards[0], "handles-apart")
}
