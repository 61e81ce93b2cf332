package main

import (
	"errors"
	"strings"
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vflag"
	"github.com/Ptt-official-app/go-bbs/zzverif/vfmt"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

type zzUser struct {
	bbs.UserRecord
	id string
}

func (u *zzUser) UserID() string { return u.id }

type zzBoard struct {
	bbs.BoardRecord
	id, title string
}

func (b *zzBoard) BoardID() string { return b.id }
func (b *zzBoard) Title() string   { return b.title }

type zzArticle struct{ name, owner, date, title string }

func (a *zzArticle) Filename() string        { return a.name }
func (a *zzArticle) Modified() time.Time     { return time.Unix(1, 0) }
func (a *zzArticle) SetModified(t time.Time) {}
func (a *zzArticle) Recommend() int          { return 7 }
func (a *zzArticle) Date() string            { return a.date }
func (a *zzArticle) Title() string           { return a.title }
func (a *zzArticle) Money() int              { return 9 }
func (a *zzArticle) Owner() string           { return a.owner }

type zzOwn struct{ board, title, owner, article string }

func (s *zzOwn) BoardID() string   { return s.board }
func (s *zzOwn) Title() string     { return s.title }
func (s *zzOwn) Owner() string     { return s.owner }
func (s *zzOwn) ArticleID() string { return s.article }

type zzComment struct {
	bbs.UserCommentRecord
	text string
}

func (c *zzComment) String() string { return c.text }

type zzDriver struct {
	calls    []string
	failAt   int
	failed   bool
	users    []bbs.UserRecord
	boards   []bbs.BoardRecord
	articles []bbs.ArticleRecord
	own      []bbs.UserArticleRecord
	comments []bbs.UserCommentRecord
	content  []byte
	args     map[string]interface{}
}

var zzErr = errors.New("driver failure")

func (d *zzDriver) did(what string, args ...string) error {
	d.calls = append(d.calls, what+" "+strings.Join(args, "|"))
	if len(d.calls) == d.failAt {
		d.failed = true
		return zzErr
	}
	return nil
}

func (d *zzDriver) path(what string, args ...string) (string, error) {
	if err := d.did(what, args...); err != nil {
		return "", err
	}
	return what + "/" + strings.Join(args, "|"), nil
}

func (d *zzDriver) Open(src string) error                { return d.did("open", src) }
func (d *zzDriver) GetUserRecordsPath() (string, error)  { return d.path("userspath") }
func (d *zzDriver) GetBoardRecordsPath() (string, error) { return d.path("boardspath") }
func (d *zzDriver) GetUserFavoriteRecordsPath(u string) (string, error) {
	return d.path("favpath", u)
}
func (d *zzDriver) GetBoardArticleRecordsPath(b string) (string, error) {
	return d.path("articlespath", b)
}
func (d *zzDriver) GetBoardTreasureRecordsPath(b string, t []string) (string, error) {
	return d.path("treasurespath", append([]string{b}, t...)...)
}
func (d *zzDriver) GetBoardArticleFilePath(b, f string) (string, error) {
	return d.path("articlepath", b, f)
}
func (d *zzDriver) GetBoardTreasureFilePath(b string, t []string, f string) (string, error) {
	return d.path("treasurepath", append(append([]string{b}, t...), f)...)
}

func (d *zzDriver) ReadUserRecordsFile(p string) ([]bbs.UserRecord, error) {
	if err := d.did("users", p); err != nil {
		return nil, err
	}
	return d.users, nil
}
func (d *zzDriver) ReadUserFavoriteRecordsFile(p string) ([]bbs.FavoriteRecord, error) {
	return nil, d.did("fav", p)
}
func (d *zzDriver) ReadBoardRecordsFile(p string) ([]bbs.BoardRecord, error) {
	if err := d.did("boards", p); err != nil {
		return nil, err
	}
	return d.boards, nil
}
func (d *zzDriver) ReadArticleRecordsFile(p string) ([]bbs.ArticleRecord, error) {
	if err := d.did("articles", p); err != nil {
		return nil, err
	}
	return d.articles, nil
}
func (d *zzDriver) ReadBoardArticleFile(p string) ([]byte, error) {
	if err := d.did("article", p); err != nil {
		return nil, err
	}
	return d.content, nil
}

// zzFull has the optional capabilities.
type zzFull struct{ *zzDriver }

func (w zzFull) NewBoardRecord(args map[string]interface{}) (bbs.BoardRecord, error) {
	w.args = args
	if err := w.did("newboard"); err != nil {
		return nil, err
	}
	id, ok := args["board_id"].(string)
	if !ok {
		return nil, errors.New("board_id must not be empty")
	}
	title, ok := args["title"].(string)
	if !ok {
		return nil, errors.New("title must not be empty")
	}
	return &zzBoard{id: id, title: title}, nil
}
func (w zzFull) AddBoardRecordFileRecord(p string, b bbs.BoardRecord) error {
	if err := w.did("addboard", p); err != nil {
		return err
	}
	w.boards = append(w.boards, b)
	return nil
}
func (w zzFull) UpdateBoardRecordFileRecord(p string, i uint, b bbs.BoardRecord) error {
	return w.did("updateboard", p)
}
func (w zzFull) ReadBoardRecordFileRecord(p string, i uint) (bbs.BoardRecord, error) {
	return nil, w.did("readboard", p)
}
func (w zzFull) RemoveBoardRecordFileRecord(p string, i uint) error {
	return w.did("removeboard", p)
}
func (w zzFull) CreateBoardArticleFilename(b string) (string, error) {
	if err := w.did("createname", b); err != nil {
		return "", err
	}
	return "M.1", nil
}
func (w zzFull) NewArticleRecord(f, owner, date, title string) (bbs.ArticleRecord, error) {
	if err := w.did("newarticle", f, owner, date, title); err != nil {
		return nil, err
	}
	return &zzArticle{name: f, owner: owner, date: date, title: title}, nil
}
func (w zzFull) AddArticleRecordFileRecord(p string, a bbs.ArticleRecord) error {
	if err := w.did("addarticle", p); err != nil {
		return err
	}
	w.articles = append(w.articles, a)
	return nil
}
func (w zzFull) UpdateArticleRecordFileRecord(p string, i uint, a bbs.ArticleRecord) error {
	return w.did("updatearticle", p)
}
func (w zzFull) WriteBoardArticleFile(p string, c []byte) error {
	if err := w.did("writearticle", p); err != nil {
		return err
	}
	w.content = append([]byte{}, c...)
	return nil
}
func (w zzFull) AppendBoardArticleFile(p string, c []byte) error {
	return w.did("appendarticle", p)
}
func (w zzFull) GetUserArticleRecordsPath(u string) (string, error) { return w.path("uapath", u) }
func (w zzFull) ReadUserArticleRecordFile(p string) ([]bbs.UserArticleRecord, error) {
	if err := w.did("ua", p); err != nil {
		return nil, err
	}
	return w.own, nil
}
func (w zzFull) WriteUserArticleRecordFile(p string, r []bbs.UserArticleRecord) error {
	return w.did("writeua", p)
}
func (w zzFull) AppendUserArticleRecordFile(p string, r bbs.UserArticleRecord) error {
	return w.did("appendua", p)
}
func (w zzFull) GetUserCommentRecordsPath(u string) (string, error) { return w.path("ucpath", u) }
func (w zzFull) ReadUserCommentRecordFile(p string) ([]bbs.UserCommentRecord, error) {
	if err := w.did("uc", p); err != nil {
		return nil, err
	}
	return w.comments, nil
}

var zzCommands = []string{"show_board_list", "add_board", "show_user_list", "show_user_article_list", "show_user_comment_list",
	"show_board_article_list", "add_board_article", "show_board_article", "unknown"}

// the options a command cannot do without
var zzNeeds = [][]string{nil, {"board_id", "title"}, nil, {"user_id"}, {"user_id"}, {"board"}, {"board", "owner", "date", "title"}, {"board", "filename"}, nil}

// the steps of a command at which the database is made to fail (0: none)
var zzSteps = []int{3, 4, 3, 8, 8, 3, 8, 3, 0}

func zzDigit(i int) string { return string([]byte{byte('0' + i)}) }

func zzPair(nm string) string { return string(vrt.Bytes(nm, 2, 2, 1, 127)) }

// zzRun runs the tool on a driver; a wanted exit counts as an end.
func zzRun(d *zzDriver, full bool, args []string) {
	vfmt.Reset()
	if full {
		bbs.Register("fake", zzFull{d})
	} else {
		bbs.Register("fake", d)
	}
	ok := vflag.Set("driver", "fake") && vflag.Set("bbshome", "/home")
	vrt.Assert(ok, "flags")
	vflag.Given(args)
	crashed := vrt.Panics(func() {
		defer func() {
			if x := recover(); x != nil {
				if _, exit := x.(vos.ExitPanic); !exit {
					panic(x)
				}
			}
		}()
		main()
	})
	vrt.Assert(!crashed, "no-crash")
}

func zzPrinted(s string) bool {
	for _, p := range vfmt.Out {
		if p == s {
			return true
		}
	}
	for _, p := range vfmt.Out {
		if strings.Contains(p, s) {
			return true
		}
	}
	return false
}

func zzFilled(n int) *zzDriver {
	d := &zzDriver{}
	for i := 0; i < n; i++ {
		k := zzDigit(i)
		d.users = append(d.users, &zzUser{id: zzPair("id" + k)})
		d.boards = append(d.boards, &zzBoard{id: "b" + k, title: zzPair("bt" + k)})
		d.articles = append(d.articles, &zzArticle{"M." + k, zzPair("o" + k), zzPair("d" + k), zzPair("t" + k)})
		d.own = append(d.own, &zzOwn{title: zzPair("ut" + k)})
		d.comments = append(d.comments, &zzComment{text: zzPair("c" + k)})
	}
	d.content = vrt.Bytes("content", 2, 2, 1, 127)
	return d
}

// HTool: with all its options a command prints what was asked for, or does it; when the database fails at any
// point, or lacks the capability, it prints the error.
//
//verif:prop C25
func HTool() {
	cmd := vrt.Case("cmd", 0, len(zzCommands)-1)
	home := vrt.Case("home", 0, 2)
	switch home {
	case 0:
		vos.PutDir("/home")
	case 1:
		vos.Put("/home", []byte("x"))
	}
	n, full, fail := 1, true, 0
	if home == 0 && zzCommands[cmd] != "unknown" {
		n = vrt.Case("n", 0, 2)
		full = vrt.Case("full", 0, 1) == 1
		fail = vrt.Case("fail", 0, zzSteps[cmd])
	}
	d := zzFilled(n)
	d.failAt = fail
	user, brd := zzPair("user"), zzPair("brd")
	for _, a := range d.articles {
		vrt.Assume(a.Owner() != user)
	}
	text := string(vrt.Bytes("text", 2, 2, 1, 127))
	title, date, owner, file := zzPair("nt"), zzPair("nd"), zzPair("no"), zzPair("nf")
	args := []string{zzCommands[cmd], "--user_id", user, "--board", brd, "--board_id", brd, "--title", title, "--date", date,
		"--owner", owner, "--filename", file, "--content", text}
	before := append([]bbs.ArticleRecord{}, d.articles...)
	content := append([]byte{}, d.content...)
	zzRun(d, full, args)
	if zzCommands[cmd] == "unknown" {
		vrt.Assert(zzPrinted("unknown") && len(d.calls) == 0, "unknown-command-reported")
		return
	}
	if home != 0 {
		vrt.Assert(len(d.calls) == 0, "no-database-without-its-directory")
		vrt.Assert(zzPrinted("no such file") || zzPrinted("not exist") || zzPrinted("not dir") || zzPrinted("not a dir"), "bad-directory-reported")
		return
	}
	vrt.Assert(len(d.calls) > 0 && d.calls[0] == "open file:///home", "opens-the-directory")
	if d.failed {
		vrt.Assert(zzPrinted(zzErr.Error()), "failure-reported")
		return
	}
	switch zzCommands[cmd] {
	case "show_board_list":
		for _, b := range d.boards {
			vrt.Assert(zzPrinted(b.Title()), "shows-every-board")
		}
	case "show_user_list":
		for _, u := range d.users {
			vrt.Assert(zzPrinted(u.UserID()), "shows-every-user")
		}
	case "show_user_article_list":
		if full && n > 0 {
			vrt.Assert(d.calls[1] == "uapath "+user, "asks-for-the-user")
			for _, a := range d.own {
				vrt.Assert(zzPrinted(a.Title()), "shows-every-article-of-the-user")
			}
		}
	case "show_user_comment_list":
		if full && n > 0 {
			vrt.Assert(d.calls[1] == "ucpath "+user, "asks-for-the-user")
			for _, c := range d.comments {
				vrt.Assert(zzPrinted(c.String()), "shows-every-comment-of-the-user")
			}
		}
	case "show_board_article_list":
		vrt.Assert(d.calls[1] == "articlespath "+brd, "asks-for-the-board")
		for _, a := range before {
			vrt.Assert(zzPrinted(a.Title()) && zzPrinted(a.Filename()) && zzPrinted(a.Owner()) && zzPrinted(a.Date()), "shows-every-article")
		}
	case "show_board_article":
		vrt.Assert(d.calls[1] == "articlepath "+brd+"|"+file, "asks-for-the-article")
		vrt.Assert(zzPrinted(string(content)), "shows-the-article")
	case "add_board":
		if !full {
			vrt.Assert(zzPrinted("addboard: ") || zzPrinted("support") || zzPrinted("error"), "missing-capability-reported")
			return
		}
		vrt.Assert(len(d.boards) == n+1, "adds-the-board")
		b := d.boards[n].(*zzBoard)
		vrt.Assert(b.id == brd && b.title == title, "adds-the-board")
	case "add_board_article":
		if !full {
			vrt.Assert(zzPrinted("rticleRecord") || zzPrinted("support") || zzPrinted("error"), "missing-capability-reported")
			return
		}
		vrt.Assert(len(d.articles) == n+1, "adds-the-article")
		a := d.articles[n].(*zzArticle)
		vrt.Assert(a.owner == owner && a.date == date && a.title == title, "adds-the-article")
		vrt.Assert(string(d.content) == text, "writes-the-article")
		vrt.Assert(d.calls[len(d.calls)-1] == "writearticle articlepath/"+brd+"|"+a.name, "writes-the-article")
		vrt.Assert(zzPrinted(a.name), "tells-the-new-name")
	}
}

// HOptions: any list of arguments, with options missing, repeated or without value.
//
//verif:prop C25
func HOptions() {
	cmd := vrt.Case("cmd", 1, len(zzCommands)-2)
	vos.PutDir("/home")
	d := zzFilled(1)
	args := []string{zzCommands[cmd]}
	words := []string{"--", "x", "", "-"}
	for _, w := range zzNeeds[cmd] {
		words = append(words, "--"+w)
	}
	n := vrt.Case("words", 0, vrt.Bound(3, 4))
	for i := 0; i < n; i++ {
		args = append(args, words[vrt.Case("w"+zzDigit(i), 0, len(words)-1)])
	}
	given := map[string]string{}
	for i := 1; i < len(args); i++ {
		if strings.HasPrefix(args[i], "--") && i+1 < len(args) {
			given[args[i][2:]] = args[i+1]
			i++
		}
	}
	zzRun(d, true, args)
	missing := false
	for _, w := range zzNeeds[cmd] {
		if _, ok := given[w]; !ok {
			missing = true
			named := false
			for _, p := range vfmt.Out {
				named = named || strings.Contains(p, w)
			}
			if zzNeeds[cmd][0] == w {
				vrt.Assert(named, "missing-option-named")
			}
		}
	}
	if missing {
		for _, c := range d.calls {
			is := false
			for _, ok := range []string{"open ", "newboard "} {
				is = is || strings.HasPrefix(c, ok)
			}
			vrt.Assert(is, "nothing-done-without-the-options")
		}
		return
	}
	for _, c := range d.calls[1:] {
		for _, w := range []string{"user_id", "board", "filename"} {
			if v, ok := given[w]; ok && v != "" && zzCommands[cmd] != "add_board" {
				vrt.Assert(w == "filename" || strings.Contains(c, v) || !strings.Contains(c, "path"), "asks-for-what-was-given")
			}
		}
	}
}

// HOptionMissing: a command that lacks just one of its options does nothing and names it.
//
//verif:prop C25
func HOptionMissing() {
	cmd := vrt.Case("cmd", 1, len(zzCommands)-2)
	vos.PutDir("/home")
	d := zzFilled(1)
	args := []string{zzCommands[cmd]}
	if len(zzNeeds[cmd]) == 0 {
		return
	}
	k := vrt.Case("missing", 0, len(zzNeeds[cmd])-1)
	last := vrt.Case("last", 0, 1) == 1
	for i, w := range zzNeeds[cmd] {
		if i != k {
			args = append(args, "--"+w, zzPair("v"+zzDigit(i)))
		}
	}
	if cmd == 6 {
		args = append(args, "--content", "x")
	}
	if last {
		args = append(args, "--"+zzNeeds[cmd][k])
	}
	zzRun(d, true, args)
	for _, c := range d.calls {
		vrt.Assert(strings.HasPrefix(c, "open ") || strings.HasPrefix(c, "newboard "), "nothing-done-without-the-option")
	}
	vrt.Assert(len(d.boards) == 1 && len(d.articles) == 1 && len(d.content) == 2, "nothing-done-without-the-option")
	named := false
	for _, p := range vfmt.Out {
		named = named || strings.Contains(p, zzNeeds[cmd][k])
	}
	vrt.Assert(named, "missing-option-named")
}

// HToolContent: the content of a new article comes from the option or from the file named, and a file that cannot be
// read adds nothing.
//
//verif:prop C25
func HToolContent() {
	vos.PutDir("/home")
	d := zzFilled(0)
	args := []string{"add_board_article", "--board", "b", "--owner", "o", "--date", "d", "--title", "t"}
	k := vrt.Case("given", 0, 3)
	if k&1 != 0 {
		args = append(args, "--content", "hello")
	}
	exists := false
	if k&2 != 0 {
		args = append(args, "--content_file", "/file")
		if vrt.Case("exists", 0, 1) == 1 {
			exists = true
			vos.Put("/file", []byte("world"))
		}
	}
	d.content = nil
	zzRun(d, true, args)
	switch {
	case k&1 != 0:
		vrt.Assert(string(d.content) == "hello", "writes-the-content")
	case exists:
		vrt.Assert(string(d.content) == "world", "writes-the-content-of-the-file")
	default:
		vrt.Assert(len(d.articles) == 0 && len(d.content) == 0, "nothing-done-without-content")
		vrt.Assert(zzPrinted("content"), "missing-content-reported")
	}
}
