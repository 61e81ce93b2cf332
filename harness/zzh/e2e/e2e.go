// Package e2e holds the checks of the whole: the database over a BBS home.
package e2e

import (
	bbs "github.com/Ptt-official-app/go-bbs"
	_ "github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrand"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

func digit(i int) string { return string([]byte{byte('0' + i)}) }

func eq(a, b []byte) bool { return string(a) == string(b) }

func cat(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }

func open(source string) *bbs.DB {
	db, err := bbs.Open("pttbbs", source)
	vrt.Assert(err == nil && db != nil, "opens")
	vos.PutDir("/bbs/boards/t/ta")
	vos.PutDir("/bbs/boards/t/tb")
	vos.PutDir("/bbs/boards/t/tc")
	vos.PutDir("/bbs/home/p/pichu")
	draws := 0
	vrand.Fn = func(n int) int { draws++; return draws % n }
	vos.MaxOps = 400
	return db
}

var names = []string{"ta", "tb", "tc"}

// item is an article as it should be.
type item struct {
	name, owner, date, title string
	text                     []byte
}

// model is what the database should hold.
type model struct {
	boards []string
	titles []string
	items  [3][]*item
	drafts [2][]byte
	has    [2]bool
}

// step does one operation on the database and on the model.
func (m *model) step(db *bbs.DB, nm string) {
	b := vrt.Case("board"+nm, 0, 1)
	l := m.items[b]
	switch vrt.Case("op"+nm, 0, 5) {
	case 0:
		title := string(vrt.Bytes("title"+nm, 1, 1, 1, 127))
		r, err := db.NewBoardRecord(map[string]interface{}{"board_id": names[b], "title": title})
		vrt.Assert(err == nil, "makes-board")
		vrt.Assert(db.AddBoardRecord(r) == nil, "adds-board")
		m.boards, m.titles = append(m.boards, names[b]), append(m.titles, title)
	case 1:
		it := &item{owner: string(vrt.Bytes("owner"+nm, 1, 1, 1, 127)), date: " 9/13", title: string(vrt.Bytes("title"+nm, 1, 1, 1, 127))}
		r, err := db.CreateArticleRecord(names[b], it.owner, it.date, it.title)
		vrt.Assert(err == nil, "makes-article")
		it.name = r.Filename()
		vrt.Assert(db.AddArticleRecordFileRecord(names[b], r) == nil, "adds-article")
		for i := range m.items {
			for _, o := range m.items[i] {
				vrt.Assert(i != b || o.name != it.name, "own-file")
			}
		}
		m.items[b] = append(l, it)
	case 2, 3:
		// the newest article is written, the oldest is appended to
		vrt.Assume(len(l) > 0)
		text := vrt.Bytes("text"+nm, 0, 2, 0, 255)
		if vrt.Case("append"+nm, 0, 1) == 0 {
			it := l[len(l)-1]
			vrt.Assert(db.WriteBoardArticleFile(names[b], it.name, text) == nil, "writes-article")
			it.text = text
		} else {
			it := l[0]
			vrt.Assert(db.AppendBoardArticleFile(names[b], it.name, text) == nil, "appends-article")
			it.text = cat(it.text, text)
		}
	case 4:
		text := vrt.Bytes("draft"+nm, 0, 2, 0, 255)
		vrt.Assert(db.WriteUserDraft("pichu", digit(b), bbs.NewUserDraft(text)) == nil, "writes-draft")
		m.drafts[b], m.has[b] = text, true
	case 5:
		vrt.Assume(m.has[b])
		vrt.Assert(db.DeleteUserDraft("pichu", digit(b)) == nil, "deletes-draft")
		m.drafts[b], m.has[b] = nil, false
	}
}

// check reads everything back.
func (m *model) check(db *bbs.DB) {
	if len(m.boards) > 0 {
		l, err := db.ReadBoardRecords()
		vrt.Assert(err == nil && len(l) == len(m.boards), "boards")
		for i, r := range l {
			vrt.Assert(r.BoardID() == m.boards[i] && r.Title() == m.titles[i], "board")
		}
	}
	for b, items := range m.items {
		l, err := db.ReadBoardArticleRecordsFile(names[b])
		vrt.Assert(err == nil && len(l) == len(items), "articles")
		for i, r := range l {
			it := items[i]
			vrt.Assert(r.Filename() == it.name && r.Owner() == it.owner && r.Date() == it.date && r.Title() == it.title, "article")
			text, err := db.ReadBoardArticleFile(names[b], it.name)
			vrt.Assert(err == nil && eq(text, it.text), "article-text")
		}
		if b < 2 && m.has[b] {
			d, err := db.GetUserDrafts("pichu", digit(b))
			vrt.Assert(err == nil && eq(d.Raw(), m.drafts[b]), "draft")
		}
	}
	vrt.Assert(vos.DescriptorsClosed(), "files-closed")
}

// HHistory: whatever is written through the database is what is read through it.
//
//verif:prop C32
func HHistory() {
	db := open("file:///bbs")
	m := &model{}
	n := vrt.Case("steps", 0, vrt.Bound(3, 4))
	early := vrt.Case("early", 0, 1)
	for i := n; i > 0; i-- {
		m.step(db, digit(i))
		if early == 1 {
			// what was read before does not count later
			m.check(db)
		}
	}
	m.check(db)
}

// HHistoryOwner: the articles and comments of a user are those written through the database.
//
//verif:prop C32
func HHistoryOwner() {
	db := open("file:///bbs")
	m := &model{}
	for _, b := range names {
		r, err := db.NewBoardRecord(map[string]interface{}{"board_id": b, "title": "title"})
		vrt.Assert(err == nil && db.AddBoardRecord(r) == nil, "adds-board")
	}
	users := []string{"pichu", []string{"Pichu", "chu"}[vrt.Case("other", 0, 1)]}
	type comment struct {
		board, name, text string
		order             int
	}
	var want []comment
	for b := range names {
		n := vrt.Case("articles"+digit(b), 0, 1)
		for j := 0; j < n; j++ {
			nm := digit(b) + digit(j)
			it := &item{owner: users[vrt.Case("owner"+nm, 0, 1)], date: " 9/13", title: string(vrt.Bytes("title"+nm, 1, 1, 1, 127))}
			r, err := db.CreateArticleRecord(names[b], it.owner, it.date, it.title)
			vrt.Assert(err == nil && db.AddArticleRecordFileRecord(names[b], r) == nil, "adds-article")
			it.name = r.Filename()
			vrt.Assert(db.WriteBoardArticleFile(names[b], it.name, []byte("text\n--\n")) == nil, "writes-article")
			m.items[b] = append(m.items[b], it)
			for k := vrt.Case("comments"+nm, 0, vrt.Bound(1, 2)); k > 0; k-- {
				u := users[vrt.Case("by"+nm+digit(k), 0, 1)]
				text := string(vrt.Bytes("said"+nm+digit(k), 1, 1, 'a', 'z'))
				line := "\x1b[1;31m+ \x1b[33m" + u + "\x1b[m\x1b[33m:" + text + " \x1b[m  05/15 01:06\n"
				vrt.Assert(db.AppendBoardArticleFile(names[b], it.name, []byte(line)) == nil, "appends-article")
				if u == users[0] {
					want = append(want, comment{names[b], it.name, text, 0})
				}
			}
		}
	}
	l, err := db.GetUserArticleRecordFile(users[0])
	vrt.Assert(err == nil, "articles-of-user")
	n := 0
	for b, items := range m.items {
		for _, it := range items {
			if it.owner == users[0] {
				vrt.Assert(n < len(l), "articles-of-user")
				vrt.Assert(l[n].BoardID() == names[b] && l[n].ArticleID() == it.name && l[n].Title() == it.title && l[n].Owner() == it.owner, "article-of-user")
				n++
			}
		}
	}
	vrt.Assert(n == len(l), "articles-of-user")
	c, err := db.GetUserCommentRecordFile(users[0])
	vrt.Assert(err == nil && len(c) == len(want), "comments-of-user")
	for i, r := range c {
		w := want[i]
		vrt.Assert(r.Owner() == users[0] && r.BoardID() == w.board && r.Filename() == w.name && r.Comment() == w.text, "comment-of-user")
	}
	n = 0
	for _, w := range want {
		if w.board == "ta" {
			n++
		}
	}
	c, err = db.GetBoardUserCommentRecord("ta", users[0])
	vrt.Assert(err == nil && len(c) == n, "comments-in-board")
}

// put places a record file of n records made by f.
func put(path string, n int, f func(i int) []byte) {
	var b []byte
	for i := 0; i < n; i++ {
		b = cat(b, f(i))
	}
	vos.Put(path, b)
}

func named(size, off, n int, name string) []byte {
	b := make([]byte, size)
	copy(b[off:], vrt.Bytes(name, n, n, 1, 127))
	return b
}

// HHome: what stands in a BBS home is read from its place.
//
//verif:prop C32
func HHome() {
	db := open([]string{"file:///bbs", "/bbs", "file:///bbs?UTMP=1993"}[vrt.Case("source", 0, 2)])
	n := vrt.Case("n", 1, vrt.Bound(2, 3))
	what := vrt.Case("what", 0, 5)
	switch what {
	case 0:
		put("/bbs/.PASSWDS", n, func(i int) []byte { return named(512, 4, 3, "user"+digit(i)) })
		l, err := db.ReadUserRecords()
		vrt.Assert(err == nil && len(l) == n, "users")
		for i, u := range l {
			vrt.Assert(u.UserID() == string(vrt.Bytes("user"+digit(i), 3, 3, 1, 127)), "user")
		}
	case 1:
		put("/bbs/.BRD", n, func(i int) []byte { return named(256, 0, 3, "brd"+digit(i)) })
		l, err := db.ReadBoardRecords()
		vrt.Assert(err == nil && len(l) == n, "boards")
		for i, b := range l {
			vrt.Assert(b.BoardID() == string(vrt.Bytes("brd"+digit(i), 3, 3, 1, 127)), "board")
		}
	case 2, 3:
		path := "/bbs/boards/t/ta/.DIR"
		if what == 3 {
			path = "/bbs/man/boards/t/ta/D1/D2/.DIR"
		}
		put(path, n, func(i int) []byte { return named(128, 0, 3, "art"+digit(i)) })
		var l []bbs.ArticleRecord
		var err error
		if what == 2 {
			l, err = db.ReadBoardArticleRecordsFile("ta")
		} else {
			l, err = db.ReadBoardTreasureRecordsFile("ta", []string{"D1", "D2"})
		}
		vrt.Assert(err == nil && len(l) == n, "articles")
		for i, a := range l {
			vrt.Assert(a.Filename() == string(vrt.Bytes("art"+digit(i), 3, 3, 1, 127)), "article")
		}
	case 4:
		text := vrt.Bytes("text", n, n, 0, 255)
		vos.Put("/bbs/man/boards/t/ta/D1/M.1", text)
		got, err := db.ReadBoardTreasureFile("ta", []string{"D1"}, "M.1")
		vrt.Assert(err == nil && eq(got, text), "treasure-text")
	case 5:
		put("/bbs/.BRD", n, func(i int) []byte { return named(256, 0, 3, "brd"+digit(i)) })
		f := []byte{0xa6, 0x0d, byte(n), 0, 0, 0}
		for i := 0; i < n; i++ {
			f = append(f, 1, 1, byte(n-i), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
		}
		vos.Put("/bbs/home/p/pichu/.fav", f)
		l, err := db.ReadUserFavoriteRecords("pichu")
		vrt.Assert(err == nil && len(l) == n, "favorites")
		for i, r := range l {
			vrt.Assert(r.Type() == bbs.FavoriteTypeBoard && r.BoardID() == string(vrt.Bytes("brd"+digit(n-1-i), 3, 3, 1, 127)), "favorite")
		}
	}
	vrt.Assert(vos.DescriptorsClosed(), "files-closed")
}

// HHomeLarge: a home of many boards, articles and users, and long texts, read and extended.
//
//verif:prop C32
func HHomeLarge() {
	db := open("file:///bbs")
	vos.MaxOps = 20000
	n := []int{40, 300, 600}[vrt.Case("n", 0, 2)]
	name := func(i int) string { return string([]byte{'n', byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)}) }
	fill := func(size, off int) []byte {
		b := make([]byte, n*size)
		for i := 0; i < n; i++ {
			copy(b[i*size+off:], name(i))
		}
		copy(b[n/2*size+off:], vrt.Bytes("mid", 4, 4, 1, 127))
		return b
	}
	is := func(i int, s string) bool {
		if i == n/2 {
			return s == string(vrt.Bytes("mid", 4, 4, 1, 127))
		}
		return s == name(i)
	}
	switch vrt.Case("what", 0, 4) {
	case 0:
		vos.Put("/bbs/.PASSWDS", fill(512, 4))
		l, err := db.ReadUserRecords()
		vrt.Assert(err == nil && len(l) == n, "users")
		for i, u := range l {
			vrt.Assert(is(i, u.UserID()), "user")
		}
	case 1:
		vos.Put("/bbs/.BRD", fill(256, 0))
		r, err := db.NewBoardRecord(map[string]interface{}{"board_id": "new", "title": "title"})
		vrt.Assert(err == nil && db.AddBoardRecord(r) == nil, "adds-board")
		l, err := db.ReadBoardRecords()
		vrt.Assert(err == nil && len(l) == n+1 && l[n].BoardID() == "new", "boards")
		for i := 0; i < n; i++ {
			vrt.Assert(is(i, l[i].BoardID()), "board")
		}
	case 2:
		vos.Put("/bbs/boards/t/ta/.DIR", fill(128, 0))
		a, err := db.CreateArticleRecord("ta", "pichu", " 9/13", "title")
		vrt.Assert(err == nil && db.AddArticleRecordFileRecord("ta", a) == nil, "adds-article")
		l, err := db.ReadBoardArticleRecordsFile("ta")
		vrt.Assert(err == nil && len(l) == n+1 && l[n].Filename() == a.Filename(), "articles")
		for i := 0; i < n; i++ {
			vrt.Assert(is(i, l[i].Filename()), "article")
		}
	case 3:
		text := fill(256, 0)
		more := vrt.Bytes("more", 3, 3, 0, 255)
		vrt.Assert(db.WriteBoardArticleFile("ta", "M.1", text) == nil, "writes-article")
		for k := 0; k < 3; k++ {
			vrt.Assert(db.AppendBoardArticleFile("ta", "M.1", more) == nil, "appends-article")
			text = cat(text, more)
		}
		got, err := db.ReadBoardArticleFile("ta", "M.1")
		vrt.Assert(err == nil && eq(got, text), "article-text")
	case 4:
		text := fill(256, 0)
		vrt.Assert(db.WriteUserDraft("pichu", "1", bbs.NewUserDraft(text)) == nil, "writes-draft")
		d, err := db.GetUserDrafts("pichu", "1")
		vrt.Assert(err == nil && eq(d.Raw(), text), "draft-text")
		short := vrt.Bytes("more", 3, 3, 0, 255)
		vrt.Assert(db.WriteUserDraft("pichu", "1", bbs.NewUserDraft(short)) == nil, "writes-draft")
		d, err = db.GetUserDrafts("pichu", "1")
		vrt.Assert(err == nil && eq(d.Raw(), short), "draft-text")
	}
	vrt.Assert(vos.DescriptorsClosed(), "files-closed")
}
