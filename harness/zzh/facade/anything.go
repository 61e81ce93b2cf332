package facade

import (
	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HAnyArticle: an article is its owner's and a comment its commenter's whatever else the board and the article
// say: the board may be a class, have no title or no moderators, the article no title, no date, any name.
//
//verif:prop C16 C17
func HAnyArticle() {
	b := &board{id: text("board", 1, 2), class: vrt.Bool("class"), title: text("title", 0, 1), classID: text("classid", 0, 1)}
	if vrt.Case("bms", 0, 1) == 1 {
		b.bms = []string{text("bm", 0, 1)}
	}
	a := &article{name: text("name", 0, 2), owner: "ab", title: text("arttitle", 0, 1), other: []int{0, -9, 5, 1 << 30}[vrt.Case("other", 0, 3)]}
	d := &driver{articles: map[string][]bbs.ArticleRecord{}, files: map[string][]byte{}}
	d.boards = []bbs.BoardRecord{b}
	d.articles["articlespath/"+b.id] = []bbs.ArticleRecord{a}
	d.files["articlepath/"+b.id+"|"+a.name] = []byte("> ab: x 01/02 03:04\n")
	db := open(d, capNone)
	l, err := db.GetUserArticleRecordFile("ab")
	vrt.Assert(err == nil && len(l) == 1, "exactly-the-articles")
	vrt.Assert(l[0].BoardID() == b.id && l[0].Owner() == "ab" && l[0].ArticleID() == a.name && l[0].Title() == a.title, "article-of-user")
	r, err := db.GetUserCommentRecordFile("ab")
	vrt.Assert(err == nil && len(r) == 1, "exactly-the-comments")
	checkComment(r[0], 1, "ab", "x", "01/02 03:04", b.id, a.name)
}
