package facade

import (
	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HUserArticles: the list holds exactly the articles of the user, in order.
//
//verif:prop C16
func HUserArticles() {
	u := text("u", 0, vrt.Bound(2, 4))
	d := &driver{articles: map[string][]bbs.ArticleRecord{}}
	var want []*stored
	nb := vrt.Case("nb", 0, vrt.Bound(2, 3))
	ids := map[string]bool{}
	for i := 0; i < nb; i++ {
		k := digit(i)
		// the mirror, a board whose name is as long, one with another name
		id := "ALLPOST"
		switch vrt.Case("kind"+k, 0, 4) {
		case 1:
			id = string(vrt.Bytes("id"+k, 7, 7, 1, 127))
		case 2:
			id = k + string(vrt.Bytes("id"+k, 1, 1, 1, 127))
		case 3:
			id += string(vrt.Bytes("id"+k, 1, 1, 1, 127))
		case 4:
			id = string(vrt.Bytes("id"+k, 1, 1, 1, 127)) + id
		}
		for o := range ids {
			vrt.Assume(o != id)
		}
		ids[id] = true
		d.boards = append(d.boards, &board{id: id})
		na := vrt.Case("na"+k, 0, 2)
		var l []bbs.ArticleRecord
		for j := 0; j < na; j++ {
			m := k + digit(j)
			a := &article{name: "M." + string(vrt.Bytes("f"+m, 1, 1, 0, 127)), title: string(vrt.Bytes("t"+m, 1, 1, 0, 127)), owner: u}
			switch vrt.Case("o"+m, 0, 2) {
			case 1:
				a.owner = string(vrt.Bytes("o"+m, len(u), len(u), 0, 127))
			case 2:
				a.owner = u + string(vrt.Bytes("o"+m, 1, 1, 0, 127))
			}
			l = append(l, a)
			if id != "ALLPOST" && a.owner == u {
				want = append(want, &stored{id, a.title, a.owner, a.name})
			}
		}
		d.articles["articlespath/"+id] = l
	}
	db := open(d, capNone)
	got, err := db.GetUserArticleRecordFile(u)
	vrt.Assert(err == nil, "no-spurious-error")
	vrt.Assert(len(got) == len(want), "exactly-the-articles")
	for i, g := range got {
		w := want[i]
		vrt.Assert(g.BoardID() == w.board, "board-of-article")
		vrt.Assert(g.Title() == w.title && g.Owner() == w.owner, "title-and-owner")
		vrt.Assert(g.ArticleID() == w.article, "article-name")
	}
}

// HUserArticlesCached: what the driver remembers is returned as it is; when it remembers nothing the boards
// are read, and its errors are reported.
//
//verif:prop C16
func HUserArticlesCached() {
	u := text("u", 1, 3)
	d := &driver{articles: map[string][]bbs.ArticleRecord{}, failAt: vrt.Case("fail", 0, 5)}
	d.boards = []bbs.BoardRecord{&board{id: "b"}}
	d.articles["articlespath/b"] = []bbs.ArticleRecord{&article{name: "n", title: "t", owner: u}}
	var list []bbs.UserArticleRecord
	if vrt.Case("none", 0, 1) == 1 {
		list = []bbs.UserArticleRecord{}
	}
	for i := vrt.Case("n", 0, 2); i > 0; i-- {
		list = append(list, &stored{board: digit(i)})
	}
	db := handle(d, &withArticleCache{d, articleCache{d, list}})
	got, err := db.GetUserArticleRecordFile(u)
	// path, list, and when it is empty boards path, boards, articles path, articles
	steps := 2
	if len(list) == 0 {
		steps = 6
	}
	if d.failAt > 0 && d.failAt <= steps {
		reported(err)
		vrt.Assert(len(got) == 0, "no-result-with-error")
		return
	}
	vrt.Assert(err == nil, "no-spurious-error")
	vrt.Assert(len(d.calls) >= 2 && d.calls[0] == "uapath "+u && d.calls[1] == "ua uapath/"+u, "asks-for-the-user")
	if len(list) > 0 {
		vrt.Assert(len(got) == len(list), "remembered-list")
		for i := range got {
			vrt.Assert(got[i] == list[i], "remembered-list")
		}
		return
	}
	vrt.Assert(len(got) == 1 && got[0].ArticleID() == "n" && got[0].BoardID() == "b", "exactly-the-articles")
}

// HUserArticlesErrors: a failed read of any board is reported.
//
//verif:prop C16
func HUserArticlesErrors() {
	u := text("u", 1, 2)
	d := &driver{articles: map[string][]bbs.ArticleRecord{}, failAt: vrt.Case("fail", 1, 6)}
	d.boards = []bbs.BoardRecord{&board{id: "a"}, &board{id: "b"}}
	d.articles["articlespath/a"] = []bbs.ArticleRecord{&article{name: "n", title: "t", owner: u}}
	d.articles["articlespath/b"] = []bbs.ArticleRecord{&article{name: "m", title: "t", owner: u}}
	db := open(d, capNone)
	got, err := db.GetUserArticleRecordFile(u)
	reported(err)
	vrt.Assert(len(got) == 0, "no-result-with-error")
}
