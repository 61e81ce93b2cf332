// Package multi holds the checks of several databases which are open at the same time.
package multi

import (
	bbs "github.com/Ptt-official-app/go-bbs"
	_ "github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrand"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

func digit(i int) string { return string([]byte{byte('0' + i)}) }

// home is a BBS home with the content that belongs to it.
type home struct {
	dir, source string
	db          *bbs.DB
	users       string
	boards      []string
	articles    []string
	text, draft []byte
	hasDraft    bool
}

func rec(size, off int, name string) []byte {
	b := make([]byte, size)
	copy(b[off:], name)
	return b
}

func build(i int) *home {
	d := "/h" + digit(i)
	h := &home{dir: d, source: []string{"file://" + d, d, "file://" + d + "?UTMP=1993"}[vrt.Case("source"+digit(i), 0, 2)]}
	vos.PutDir(d + "/home/p/pichu")
	h.users = string(vrt.Bytes("user"+digit(i), 2, 2, 'a', 'z'))
	h.boards = []string{string(vrt.Bytes("board"+digit(i), 2, 2, 'a', 'z'))}
	h.articles = []string{"M." + string(vrt.Bytes("art"+digit(i), 1, 1, 'a', 'z'))}
	h.text = vrt.Bytes("text"+digit(i), 2, 2, 0, 255)
	vos.Put(d+"/.PASSWDS", rec(512, 4, h.users))
	vos.Put(d+"/.BRD", rec(256, 0, h.boards[0]))
	vos.Put(d+"/boards/t/ta/.DIR", rec(128, 0, h.articles[0]))
	vos.Put(d+"/boards/t/ta/M.1", h.text)
	vos.Put(d+"/home/p/pichu/.fav", []byte{0xa6, 0x0d, 1, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	vos.Put(d+"/man/boards/t/ta/D/M.1", []byte(h.users))
	vos.Put(d+"/man/boards/t/ta/D/.DIR", rec(128, 0, h.articles[0]))
	return h
}

func (h *home) open() {
	db, err := bbs.Open("pttbbs", h.source)
	vrt.Assert(err == nil && db != nil, "opens")
	h.db = db
}

// check reads one kind of content.
func (h *home) check(what int) {
	switch what {
	case 0:
		l, err := h.db.ReadUserRecords()
		vrt.Assert(err == nil && len(l) == 1 && l[0].UserID() == h.users, "users-of-this-home")
	case 1:
		l, err := h.db.ReadBoardRecords()
		vrt.Assert(err == nil && len(l) == len(h.boards), "boards-of-this-home")
		for i, b := range l {
			vrt.Assert(b.BoardID() == h.boards[i], "board-of-this-home")
		}
	case 2:
		l, err := h.db.ReadBoardArticleRecordsFile("ta")
		vrt.Assert(err == nil && len(l) == len(h.articles), "articles-of-this-home")
		for i, a := range l {
			vrt.Assert(a.Filename() == h.articles[i], "article-of-this-home")
		}
	case 3:
		b, err := h.db.ReadBoardArticleFile("ta", "M.1")
		vrt.Assert(err == nil && string(b) == string(h.text), "text-of-this-home")
	case 4:
		d, err := h.db.GetUserDrafts("pichu", "0")
		vrt.Assert(err == nil && string(d.Raw()) == string(h.draft), "draft-of-this-home")
	case 5:
		l, err := h.db.ReadUserFavoriteRecords("pichu")
		vrt.Assert(err == nil && len(l) == 1 && l[0].BoardID() == h.boards[0], "favorites-of-this-home")
	case 6:
		l, err := h.db.ReadBoardTreasureRecordsFile("ta", []string{"D"})
		vrt.Assert(err == nil && len(l) == 1 && l[0].Filename() == h.articles[0], "treasure-of-this-home")
	case 7:
		b, err := h.db.ReadBoardTreasureFile("ta", []string{"D"}, "M.1")
		vrt.Assert(err == nil && string(b) == h.users, "treasure-text-of-this-home")
	}
}

// step writes something.
func (h *home) step(nm string) {
	switch vrt.Case("op"+nm, 0, 5) {
	case 0:
		r, err := h.db.NewBoardRecord(map[string]interface{}{"board_id": "nb" + nm, "title": "title"})
		vrt.Assert(err == nil && h.db.AddBoardRecord(r) == nil, "adds-board")
		h.boards = append(h.boards, "nb"+nm)
	case 1:
		r, err := h.db.CreateArticleRecord("ta", "pichu", " 9/13", "title")
		vrt.Assert(err == nil && h.db.AddArticleRecordFileRecord("ta", r) == nil, "adds-article")
		h.articles = append(h.articles, r.Filename())
		vrt.Assert(vos.Has(h.dir+"/boards/t/ta/"+r.Filename()), "article-in-this-home")
	case 2:
		h.text = vrt.Bytes("text"+nm, 0, 3, 0, 255)
		vrt.Assert(h.db.WriteBoardArticleFile("ta", "M.1", h.text) == nil, "writes-article")
	case 3:
		t := vrt.Bytes("more"+nm, 0, 2, 0, 255)
		vrt.Assert(h.db.AppendBoardArticleFile("ta", "M.1", t) == nil, "appends-article")
		h.text = append(append([]byte{}, h.text...), t...)
	case 4:
		h.draft, h.hasDraft = vrt.Bytes("draft"+nm, 0, 2, 0, 255), true
		vrt.Assert(h.db.WriteUserDraft("pichu", "0", bbs.NewUserDraft(h.draft)) == nil, "writes-draft")
	case 5:
		err := h.db.DeleteUserDraft("pichu", "0")
		vrt.Assert((err == nil) == h.hasDraft, "deletes-draft")
		h.draft, h.hasDraft = nil, false
	}
}

// HHomes: databases which are open at the same time each read and write their own home, whatever is done to the others.
//
//verif:prop C35
func HHomes() {
	draws := 0
	vrand.Fn = func(n int) int { draws++; return draws % n }
	hs := []*home{build(0), build(1)}
	early := vrt.Case("early", 0, 1)
	hs[0].open()
	if early == 1 {
		hs[0].step("e")
	}
	hs[1].open()
	n := vrt.Bound(1, 2)
	for i := 0; i < n; i++ {
		hs[vrt.Case("on"+digit(i), 0, 1)].step(digit(i))
	}
	for what := 0; what < 8; what++ {
		hs[0].check(what)
		hs[1].check(what)
	}
	vrt.Assert(vos.DescriptorsClosed(), "files-closed")
}

// HSameHome: two databases of one home see each other's writes.
//
//verif:prop C35
func HSameHome() {
	draws := 0
	vrand.Fn = func(n int) int { draws++; return draws % n }
	h := build(0)
	h.open()
	first := h.db
	for what := 0; what < 8; what++ {
		h.check(what)
	}
	h.open()
	second := h.db
	n := vrt.Bound(2, 3)
	for i := 0; i < n; i++ {
		h.db = []*bbs.DB{first, second}[vrt.Case("by"+digit(i), 0, 1)]
		h.step(digit(i))
	}
	for what := 0; what < 8; what++ {
		h.db = first
		h.check(what)
		h.db = second
		h.check(what)
	}
	vrt.Assert(vos.DescriptorsClosed(), "files-closed")
}

// HFailedOpen: a database which cannot be opened does not affect the open ones.
//
//verif:prop C35
func HFailedOpen() {
	h := build(0)
	h.open()
	_, err := bbs.Open(string(vrt.Bytes("driver", 0, 7, 'a', 'z')), "/h1")
	vrt.Reach("after-open")
	_ = err
	for what := 0; what < 8; what++ {
		h.check(what)
	}
}
