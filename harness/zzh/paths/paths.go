// Package paths checks the layout of the BBS home.
package paths

import (
	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// text is a text of up to max characters; every length is a case.
func text(nm string, min, max int) string {
	n := vrt.Case(nm+"len", min, max)
	return string(vrt.Bytes(nm, n, n, 1, 127))
}

func first(s string) string { return s[:1] }

func same(got string, err error, want, label string) {
	vrt.Assert(err == nil, label+"-error")
	vrt.Assert(got == want, label)
}

// HUserPaths: the files of a user have the documented places.
//
//verif:prop C14
func HUserPaths() {
	home := text("home", 0, vrt.Bound(3, 6))
	u := text("user", 1, vrt.Bound(4, 12))
	f := text("file", 0, vrt.Bound(2, 4))
	dir := home + "/home/" + first(u) + "/" + u + "/"
	p, err := pttbbs.GetUserFavoritePath(home, u)
	same(p, err, dir+".fav", "favorites")
	p, err = pttbbs.GetUserDraftPath(home, u, f)
	same(p, err, dir+"buf."+f, "draft")
	p, err = pttbbs.GetUserMailPath(home, u, f)
	same(p, err, dir+f, "mail")
	p, err = pttbbs.GetLoginRecentPath(home, u)
	same(p, err, dir+"logins.recent", "recent")
	p, err = pttbbs.GetPasswdsPath(home)
	same(p, err, home+"/.PASSWDS", "passwds")
	p, err = pttbbs.GetBoardPath(home)
	same(p, err, home+"/.BRD", "boards")
}

func treasure() ([]string, string) {
	var ids []string
	sub := ""
	n := vrt.Case("depth", 0, vrt.Bound(2, 3))
	for i := 0; i < n; i++ {
		s := text("tr"+string([]byte{byte('0' + i)}), 1, 2)
		ids = append(ids, s)
		sub += s + "/"
	}
	return ids, sub
}

// HBoardPaths: the files of a board have the documented places.
//
//verif:prop C14
func HBoardPaths() {
	home := text("home", 0, vrt.Bound(2, 4))
	b := text("board", 1, vrt.Bound(3, 12))
	f := text("file", 0, vrt.Bound(2, 4))
	dir := home + "/boards/" + first(b) + "/" + b + "/"
	p, err := pttbbs.GetBoardArticlesDirectoryPath(home, b)
	same(p, err, dir+".DIR", "articles")
	p, err = pttbbs.GetBoardArticleFilePath(home, b, f)
	same(p, err, dir+f, "article")
	p, err = pttbbs.GetBoardNameFilePath(home, b)
	same(p, err, dir+".Name", "name")
	ids, sub := treasure()
	man := home + "/man/boards/" + first(b) + "/" + b + "/" + sub
	p, err = pttbbs.GetBoardTreasuresDirectoryPath(home, b, ids)
	same(p, err, man+".DIR", "treasures")
	p, err = pttbbs.GetBoardTreasureFilePath(home, b, ids, f)
	same(p, err, man+f, "treasure")
}

// HTreasureArg: the treasure path given by the caller is not written to, nor is what lies behind it.
//
//verif:prop C14
func HTreasureArg() {
	full := []string{text("a", 1, 2), text("b", 1, 2), text("c", 1, 2)}
	keep := []string{full[0], full[1], full[2]}
	n := vrt.Case("n", 0, 3)
	_, err := pttbbs.GetBoardTreasuresDirectoryPath("/bbs", "test", full[:n])
	vrt.Assert(err == nil, "treasures-error")
	_, err = pttbbs.GetBoardTreasureFilePath("/bbs", "test", full[:n], "x")
	vrt.Assert(err == nil, "treasure-error")
	for i := range full {
		vrt.Assert(full[i] == keep[i], "argument-kept")
	}
}

// HEmptyID: an empty user or board gives an error.
//
//verif:prop C14
func HEmptyID() {
	home := text("home", 0, 2)
	f := text("file", 0, 2)
	c := &pttbbs.Connector{}
	vrt.Assert(c.Open(home) == nil, "opens")
	var err error
	switch vrt.Case("which", 0, 15) {
	case 0:
		_, err = pttbbs.GetUserFavoritePath(home, "")
	case 1:
		_, err = pttbbs.GetUserDraftPath(home, "", f)
	case 2:
		_, err = pttbbs.GetUserMailPath(home, "", f)
	case 3:
		_, err = pttbbs.GetLoginRecentPath(home, "")
	case 4:
		_, err = pttbbs.GetBoardArticlesDirectoryPath(home, "")
	case 5:
		_, err = pttbbs.GetBoardArticleFilePath(home, "", f)
	case 6:
		_, err = pttbbs.GetBoardNameFilePath(home, "")
	case 7:
		_, err = pttbbs.GetBoardTreasuresDirectoryPath(home, "", nil)
	case 8:
		_, err = pttbbs.GetBoardTreasureFilePath(home, "", nil, f)
	case 9:
		_, err = c.GetUserDraftPath("", f)
	case 10:
		_, err = c.GetUserFavoriteRecordsPath("")
	case 11:
		_, err = c.GetBoardArticleRecordsPath("")
	case 12:
		_, err = c.GetBoardArticleFilePath("", f)
	case 13:
		_, err = c.GetBoardTreasureRecordsPath("", []string{f})
	case 14:
		_, err = c.GetBoardTreasureFilePath("", []string{f}, f)
	case 15:
		_, err = c.CreateBoardArticleFilename("")
	}
	vrt.Assert(err != nil, "empty-id-reported")
}

// HConnectorPaths: an opened driver uses its home for every path.
//
//verif:prop C14
func HConnectorPaths() {
	c := &pttbbs.Connector{}
	vrt.Assert(c.Open("file:///bbs") == nil, "opens")
	u := text("user", 1, vrt.Bound(2, 12))
	f := text("file", 0, vrt.Bound(2, 4))
	p, err := c.GetUserRecordsPath()
	same(p, err, "/bbs/.PASSWDS", "passwds")
	p, err = c.GetBoardRecordsPath()
	same(p, err, "/bbs/.BRD", "boards")
	p, err = c.GetUserFavoriteRecordsPath(u)
	same(p, err, "/bbs/home/"+first(u)+"/"+u+"/.fav", "favorites")
	p, err = c.GetUserDraftPath(u, f)
	same(p, err, "/bbs/home/"+first(u)+"/"+u+"/buf."+f, "draft")
	p, err = c.GetBoardArticleRecordsPath(u)
	same(p, err, "/bbs/boards/"+first(u)+"/"+u+"/.DIR", "articles")
	p, err = c.GetBoardArticleFilePath(u, f)
	same(p, err, "/bbs/boards/"+first(u)+"/"+u+"/"+f, "article")
	ids, sub := treasure()
	p, err = c.GetBoardTreasureRecordsPath(u, ids)
	same(p, err, "/bbs/man/boards/"+first(u)+"/"+u+"/"+sub+".DIR", "treasures")
	p, err = c.GetBoardTreasureFilePath(u, ids, f)
	same(p, err, "/bbs/man/boards/"+first(u)+"/"+u+"/"+sub+f, "treasure")
}

// HPathsDiffer: different users, boards or files never share a path.
//
//verif:prop C14
func HPathsDiffer() {
	id := func(nm string) string {
		s := text(nm, 1, vrt.Bound(2, 4))
		for i := 0; i < len(s); i++ {
			vrt.Assume(s[i] != '/')
		}
		return s
	}
	a, b := id("a"), id("b")
	vrt.Assume(a != b)
	f, g := id("f"), id("g")
	p, _ := pttbbs.GetUserFavoritePath("/bbs", a)
	q, _ := pttbbs.GetUserFavoritePath("/bbs", b)
	vrt.Assert(p != q, "favorites-differ")
	p, _ = pttbbs.GetUserDraftPath("/bbs", a, f)
	q, _ = pttbbs.GetUserDraftPath("/bbs", b, g)
	vrt.Assert(p != q, "drafts-differ")
	p, _ = pttbbs.GetUserDraftPath("/bbs", f, a)
	q, _ = pttbbs.GetUserDraftPath("/bbs", f, b)
	vrt.Assert(p != q, "drafts-differ")
	p, _ = pttbbs.GetBoardArticleFilePath("/bbs", a, f)
	q, _ = pttbbs.GetBoardArticleFilePath("/bbs", b, g)
	vrt.Assert(p != q, "articles-differ")
	p, _ = pttbbs.GetBoardArticleFilePath("/bbs", f, a)
	q, _ = pttbbs.GetBoardArticleFilePath("/bbs", f, b)
	vrt.Assert(p != q, "articles-differ")
	p, _ = pttbbs.GetBoardTreasureFilePath("/bbs", f, []string{a}, g)
	q, _ = pttbbs.GetBoardTreasureFilePath("/bbs", f, []string{b}, g)
	vrt.Assert(p != q, "treasures-differ")
}

// HOpenSource: the home is the data source without its scheme and its arguments.
//
//verif:prop C30
func HOpenSource() {
	n := vrt.Case("n", 0, vrt.Bound(6, 12))
	raw := vrt.Bytes("p", n, n, 0, 127)
	form := vrt.Case("form", 0, 2)
	for i := range raw {
		// the arguments after a question mark belong to the form with a scheme
		vrt.Assume(form == 0 || raw[i] != '?')
	}
	path := string(raw)
	c := &pttbbs.Connector{}
	home := path
	switch form {
	case 0:
		vrt.Assume(n < 7 || path[:7] != "file://")
		vrt.Assert(c.Open(path) == nil, "opens")
	case 1:
		vrt.Assert(c.Open("file://"+path) == nil, "opens")
	case 2:
		arg := text("arg", 0, 4)
		vrt.Assert(c.Open("file://"+path+"?"+arg) == nil, "opens")
	}
	p, err := c.GetUserRecordsPath()
	same(p, err, home+"/.PASSWDS", "home")
	p, err = c.GetBoardArticleFilePath("test", "x")
	same(p, err, home+"/boards/t/test/x", "home")
	// opening again replaces the home
	vrt.Assert(c.Open("file:///other") == nil, "opens")
	p, err = c.GetBoardRecordsPath()
	same(p, err, "/other/.BRD", "home-replaced")
}

var _ bbs.Connector = &pttbbs.Connector{}
