package paths

import (
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// sized makes texts of two characters, but one of them of any length up to its most.
func sized(names []string, most []int) (texts []string, k int) {
	k = vrt.Case("part", 0, len(names)-1)
	for i, nm := range names {
		n := 2
		if i == k {
			n = vrt.Case("length", 1, most[i])
		}
		texts = append(texts, string(vrt.Bytes(nm, n, n, 1, 127)))
	}
	return texts, k
}

// HPathLengths: the places of files do not depend on how long the parts of a path are.
//
//verif:prop C14
func HPathLengths() {
	t, part := sized([]string{"home", "user", "file", "treasure"}, []int{40, 20, 40, 20})
	home, u, f := t[0], t[1], t[2]
	depth := 1
	if part == 3 && len(t[3]) == 2 {
		depth = vrt.Case("depth", 0, 9)
	}
	c := &pttbbs.Connector{}
	for i := 0; i < len(home); i++ {
		vrt.Assume(home[i] != '?')
	}
	vrt.Assert(c.Open("file://"+home) == nil, "opens")
	dir := home + "/home/" + first(u) + "/" + u + "/"
	p, err := pttbbs.GetUserFavoritePath(home, u)
	same(p, err, dir+".fav", "favorites")
	p, err = c.GetUserFavoriteRecordsPath(u)
	same(p, err, dir+".fav", "favorites")
	p, err = pttbbs.GetUserDraftPath(home, u, f)
	same(p, err, dir+"buf."+f, "draft")
	p, err = c.GetUserDraftPath(u, f)
	same(p, err, dir+"buf."+f, "draft")
	p, err = pttbbs.GetUserMailPath(home, u, f)
	same(p, err, dir+f, "mail")
	p, err = pttbbs.GetLoginRecentPath(home, u)
	same(p, err, dir+"logins.recent", "recent")
	p, err = c.GetUserRecordsPath()
	same(p, err, home+"/.PASSWDS", "passwds")
	p, err = c.GetBoardRecordsPath()
	same(p, err, home+"/.BRD", "boards")
	dir = home + "/boards/" + first(u) + "/" + u + "/"
	p, err = pttbbs.GetBoardNameFilePath(home, u)
	same(p, err, dir+".Name", "name")
	p, err = c.GetBoardArticleRecordsPath(u)
	same(p, err, dir+".DIR", "articles")
	p, err = c.GetBoardArticleFilePath(u, f)
	same(p, err, dir+f, "article")
	man := home + "/man/boards/" + first(u) + "/" + u + "/"
	var ids []string
	for i := 0; i < depth; i++ {
		id := t[3][:len(t[3])-1] + string([]byte{byte('a' + i)})
		ids, man = append(ids, id), man+id+"/"
	}
	p, err = c.GetBoardTreasureRecordsPath(u, ids)
	same(p, err, man+".DIR", "treasures")
	p, err = c.GetBoardTreasureFilePath(u, ids, f)
	same(p, err, man+f, "treasure")
}

// HPathsDifferLengths: long names that differ in a single character, or in one character more, have paths of their own.
//
//verif:prop C14
func HPathsDifferLengths() {
	n := vrt.Case("length", 1, 30)
	a := string(vrt.Bytes("a", n, n, 1, 127))
	b := a + string([]byte{vrt.U8R("more", 1, 127)})
	if k := vrt.Case("at", 0, n); k < n {
		b = a[:k] + b[n:] + a[k+1:]
	}
	vrt.Assume(a != b)
	for i := 0; i < len(b); i++ {
		vrt.Assume(b[i] != '/')
	}
	for i := 0; i < len(a); i++ {
		vrt.Assume(a[i] != '/')
	}
	p, _ := pttbbs.GetUserFavoritePath("/bbs", a)
	q, _ := pttbbs.GetUserFavoritePath("/bbs", b)
	vrt.Assert(p != q, "favorites-differ")
	p, _ = pttbbs.GetUserDraftPath("/bbs", "u", a)
	q, _ = pttbbs.GetUserDraftPath("/bbs", "u", b)
	vrt.Assert(p != q, "drafts-differ")
	p, _ = pttbbs.GetBoardArticleFilePath("/bbs", a, "f")
	q, _ = pttbbs.GetBoardArticleFilePath("/bbs", b, "f")
	vrt.Assert(p != q, "articles-differ")
	p, _ = pttbbs.GetBoardArticleFilePath("/bbs", "b", a)
	q, _ = pttbbs.GetBoardArticleFilePath("/bbs", "b", b)
	vrt.Assert(p != q, "articles-differ")
	p, _ = pttbbs.GetBoardTreasureFilePath("/bbs", "b", []string{"t", a}, "f")
	q, _ = pttbbs.GetBoardTreasureFilePath("/bbs", "b", []string{"t", b}, "f")
	vrt.Assert(p != q, "treasures-differ")
}
