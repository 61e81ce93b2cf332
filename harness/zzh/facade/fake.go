// Package facade checks the database handle over a driver that answers anything.
package facade

import (
	"errors"
	"strings"
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

func digit(i int) string { return string([]byte{byte('0' + i)}) }

// text is a text of min to max characters; every length is a case.
func text(nm string, min, max int) string {
	n := vrt.Case(nm+"len", min, max)
	return string(vrt.Bytes(nm, n, n, 0, 127))
}

type user struct {
	id string
}

func (u *user) UserID() string                { return u.id }
func (u *user) HashedPassword() string        { return "hash" }
func (u *user) VerifyPassword(p string) error { return nil }
func (u *user) Nickname() string              { return "nick" }
func (u *user) RealName() string              { return "real" }
func (u *user) NumLoginDays() int             { return 1 }
func (u *user) NumPosts() int                 { return 2 }
func (u *user) Money() int                    { return 3 }
func (u *user) LastLogin() time.Time          { return time.Unix(4, 0) }
func (u *user) LastHost() string              { return "host" }
func (u *user) UserFlag() uint32              { return 5 }

type board struct {
	id, title, classID string
	class              bool
	bms                []string
}

func (b *board) BoardID() string { return b.id }
func (b *board) Title() string   { return b.title }
func (b *board) IsClass() bool   { return b.class }
func (b *board) ClassID() string { return b.classID }
func (b *board) BM() []string    { return b.bms }

type article struct {
	name, title, owner string
	other              int // everything else
}

func (a *article) Filename() string        { return a.name }
func (a *article) Modified() time.Time     { return time.Unix(1+int64(a.other), 0) }
func (a *article) SetModified(t time.Time) {}
func (a *article) Recommend() int          { return 7 + a.other }
func (a *article) Date() string            { return "12/34"[:5-a.other&5] }
func (a *article) Title() string           { return a.title }
func (a *article) Money() int              { return 9 + a.other }
func (a *article) Owner() string           { return a.owner }

type favorite struct{}

func (f *favorite) Title() string                 { return "title" }
func (f *favorite) Type() bbs.FavoriteType        { return bbs.FavoriteTypeBoard }
func (f *favorite) BoardID() string               { return "board" }
func (f *favorite) Records() []bbs.FavoriteRecord { return nil }

type stored struct{ board, title, owner, article string }

func (s *stored) BoardID() string   { return s.board }
func (s *stored) Title() string     { return s.title }
func (s *stored) Owner() string     { return s.owner }
func (s *stored) ArticleID() string { return s.article }

type comment struct {
	owner string
}

func (c *comment) CommentOrder() uint32   { return 1 }
func (c *comment) CommentTime() time.Time { return time.Unix(2, 0) }
func (c *comment) Owner() string          { return c.owner }
func (c *comment) IP() string             { return "ip" }
func (c *comment) Comment() string        { return "comment" }
func (c *comment) String() string         { return "string" }
func (c *comment) BoardID() string        { return "board" }
func (c *comment) Filename() string       { return "file" }

// call is one call the driver got, its arguments joined.
type driver struct {
	calls   []string // what the driver was asked
	failAt  int      // the call which fails, counted from 1
	err     error
	content []byte // what a write gave

	users     []bbs.UserRecord
	favorites []bbs.FavoriteRecord
	boards    []bbs.BoardRecord
	articles  map[string][]bbs.ArticleRecord
	files     map[string][]byte
	missing   bool // the article index does not exist
	rec       interface{}
}

var errDriver = errors.New("driver failure")

func (d *driver) did(what string, args ...string) error {
	d.calls = append(d.calls, what+" "+strings.Join(args, "|"))
	if len(d.calls) == d.failAt {
		if d.err != nil {
			return d.err
		}
		return errDriver
	}
	return nil
}

func (d *driver) path(what string, args ...string) (string, error) {
	p := what + "/" + strings.Join(args, "|")
	if err := d.did(what, args...); err != nil {
		return "", err
	}
	return p, nil
}

func (d *driver) Open(src string) error                { return d.did("open", src) }
func (d *driver) GetUserRecordsPath() (string, error)  { return d.path("userspath") }
func (d *driver) GetBoardRecordsPath() (string, error) { return d.path("boardspath") }
func (d *driver) GetUserFavoriteRecordsPath(u string) (string, error) {
	return d.path("favpath", u)
}
func (d *driver) GetBoardArticleRecordsPath(b string) (string, error) {
	return d.path("articlespath", b)
}
func (d *driver) GetBoardTreasureRecordsPath(b string, t []string) (string, error) {
	return d.path("treasurespath", append([]string{b}, t...)...)
}
func (d *driver) GetBoardArticleFilePath(b, f string) (string, error) {
	return d.path("articlepath", b, f)
}
func (d *driver) GetBoardTreasureFilePath(b string, t []string, f string) (string, error) {
	return d.path("treasurepath", append(append([]string{b}, t...), f)...)
}
func (d *driver) ReadUserRecordsFile(p string) ([]bbs.UserRecord, error) {
	return d.users, d.did("users", p)
}
func (d *driver) ReadUserFavoriteRecordsFile(p string) ([]bbs.FavoriteRecord, error) {
	return d.favorites, d.did("fav", p)
}
func (d *driver) ReadBoardRecordsFile(p string) ([]bbs.BoardRecord, error) {
	return d.boards, d.did("boards", p)
}
func (d *driver) ReadArticleRecordsFile(p string) ([]bbs.ArticleRecord, error) {
	if err := d.did("articles", p); err != nil {
		return nil, err
	}
	return d.articles[p], nil
}
func (d *driver) ReadBoardArticleFile(p string) ([]byte, error) {
	if err := d.did("article", p); err != nil {
		return nil, err
	}
	return d.files[p], nil
}

// The optional capabilities.
type boardWriter struct{ d *driver }

func (w boardWriter) NewBoardRecord(args map[string]interface{}) (bbs.BoardRecord, error) {
	id, _ := args["id"].(string)
	if err := w.d.did("newboard", id); err != nil {
		return nil, err
	}
	return &board{id: id}, nil
}
func (w boardWriter) AddBoardRecordFileRecord(p string, b bbs.BoardRecord) error {
	w.d.rec = b
	return w.d.did("addboard", p)
}
func (w boardWriter) UpdateBoardRecordFileRecord(p string, i uint, b bbs.BoardRecord) error {
	return w.d.did("updateboard", p)
}
func (w boardWriter) ReadBoardRecordFileRecord(p string, i uint) (bbs.BoardRecord, error) {
	return nil, w.d.did("readboard", p)
}
func (w boardWriter) RemoveBoardRecordFileRecord(p string, i uint) error {
	return w.d.did("removeboard", p)
}

type articleWriter struct{ d *driver }

func (w articleWriter) CreateBoardArticleFilename(b string) (string, error) {
	if err := w.d.did("createname", b); err != nil {
		return "", err
	}
	return "M." + b, nil
}
func (w articleWriter) NewArticleRecord(f, owner, date, title string) (bbs.ArticleRecord, error) {
	if err := w.d.did("newarticle", f, owner, date, title); err != nil {
		return nil, err
	}
	return &article{name: f, owner: owner, title: title}, nil
}
func (w articleWriter) AddArticleRecordFileRecord(p string, a bbs.ArticleRecord) error {
	w.d.rec = a
	return w.d.did("addarticle", p)
}
func (w articleWriter) UpdateArticleRecordFileRecord(p string, i uint, a bbs.ArticleRecord) error {
	return w.d.did("updatearticle", p)
}
func (w articleWriter) WriteBoardArticleFile(p string, c []byte) error {
	w.d.content = append([]byte{}, c...)
	return w.d.did("writearticle", p)
}
func (w articleWriter) AppendBoardArticleFile(p string, c []byte) error {
	w.d.content = append([]byte{}, c...)
	return w.d.did("appendarticle", p)
}

type articleCache struct {
	d    *driver
	list []bbs.UserArticleRecord
}

func (w articleCache) GetUserArticleRecordsPath(u string) (string, error) {
	return w.d.path("uapath", u)
}
func (w articleCache) ReadUserArticleRecordFile(p string) ([]bbs.UserArticleRecord, error) {
	return w.list, w.d.did("ua", p)
}
func (w articleCache) WriteUserArticleRecordFile(p string, r []bbs.UserArticleRecord) error {
	return w.d.did("writeua", p)
}
func (w articleCache) AppendUserArticleRecordFile(p string, r bbs.UserArticleRecord) error {
	return w.d.did("appendua", p)
}

type commentCache struct {
	d    *driver
	list []bbs.UserCommentRecord
}

func (w commentCache) GetUserCommentRecordsPath(u string) (string, error) {
	return w.d.path("ucpath", u)
}
func (w commentCache) ReadUserCommentRecordFile(p string) ([]bbs.UserCommentRecord, error) {
	return w.list, w.d.did("uc", p)
}

type drafts struct{ d *driver }

func (w drafts) GetUserDraftPath(u, id string) (string, error) { return w.d.path("draftpath", u, id) }
func (w drafts) ReadUserDraft(p string) ([]byte, error) {
	return w.d.content, w.d.did("readdraft", p)
}
func (w drafts) DeleteUserDraft(p string) error { return w.d.did("deletedraft", p) }
func (w drafts) WriteUserDraft(p string, c []byte) error {
	w.d.content = append([]byte{}, c...)
	return w.d.did("writedraft", p)
}

type (
	withBoards struct {
		*driver
		boardWriter
	}
	withArticles struct {
		*driver
		articleWriter
	}
	withArticleCache struct {
		*driver
		articleCache
	}
	withCommentCache struct {
		*driver
		commentCache
	}
	withDrafts struct {
		*driver
		drafts
	}
)

const (
	capNone = iota
	capBoards
	capArticles
	capArticleCache
	capCommentCache
	capDrafts
)

// open returns a handle on the driver with one of the optional capabilities.
func open(d *driver, capability int) *bbs.DB {
	var c bbs.Connector = d
	switch capability {
	case capBoards:
		c = &withBoards{d, boardWriter{d}}
	case capArticles:
		c = &withArticles{d, articleWriter{d}}
	case capArticleCache:
		c = &withArticleCache{d, articleCache{d: d}}
	case capCommentCache:
		c = &withCommentCache{d, commentCache{d: d}}
	case capDrafts:
		c = &withDrafts{d, drafts{d}}
	}
	return handle(d, c)
}

func handle(d *driver, c bbs.Connector) *bbs.DB {
	bbs.Register("fake", c)
	k := d.failAt
	d.failAt = 0
	db, err := bbs.Open("fake", "src")
	vrt.Assert(err == nil && db != nil, "opens")
	d.failAt = k
	d.calls = nil
	return db
}
