package facade

import (
	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HCommentsAgain: the comments of an article are those it has now, not those it had when they were asked for before.
//
//verif:prop C17
func HCommentsAgain() {
	d := &driver{files: map[string][]byte{}, boards: []bbs.BoardRecord{&board{id: "a"}, &board{id: "b"}}, articles: map[string][]bbs.ArticleRecord{}}
	db := open(d, capNone)
	for k := 0; k < 3; k++ {
		b := []string{"a", "b"}[vrt.Case("board"+digit(k), 0, 1)]
		f := []string{"f", "g"}[vrt.Case("file"+digit(k), 0, 1)]
		d.articles = map[string][]bbs.ArticleRecord{"articlespath/" + b: {&article{name: f}}}
		d.files = map[string][]byte{}
		o := "u" + string(vrt.Bytes("o"+digit(k), 1, 1, 'a', 'z'))
		x := string(vrt.Bytes("x"+digit(k), 1, 1, 'a', 'z'))
		n := vrt.Case("n"+digit(k), 0, 1)
		c := "text\n"
		if n == 1 {
			c += "> " + o + ": " + x + " 01/02 03:04\n"
		}
		d.files["articlepath/"+b+"|"+f] = []byte(c)
		var got []bbs.UserCommentRecord
		var err error
		switch vrt.Case("how", 0, 2) {
		case 0:
			got, err = db.GetBoardArticleCommentRecords(b, d.articles["articlespath/"+b][0])
		case 1:
			got, err = db.GetBoardUserCommentRecord(b, o)
		case 2:
			got, err = db.GetUserCommentRecordFile(o)
			d.files["articlepath/"+b+"|"+f] = nil
		}
		vrt.Assert(err == nil, "no-spurious-error")
		vrt.Assert(len(got) == n, "the-comments-it-has-now")
		if n == 1 && len(got) == 1 {
			checkComment(got[0], 1, o, x, "01/02 03:04", b, f)
		}
	}
}

// HUserArticlesAgain: the articles of a user are those there are now, not those there were when they were asked for before.
//
//verif:prop C16
func HUserArticlesAgain() {
	d := &driver{}
	db := open(d, capNone)
	for k := 0; k < 3; k++ {
		b := []string{"a", "b"}[vrt.Case("board"+digit(k), 0, 1)]
		f := []string{"f", "g"}[vrt.Case("file"+digit(k), 0, 1)]
		o := "u" + string(vrt.Bytes("o"+digit(k), 1, 1, 'a', 'z'))
		t := string(vrt.Bytes("t"+digit(k), 1, 1, 'a', 'z'))
		d.boards = []bbs.BoardRecord{&board{id: b}}
		d.articles = map[string][]bbs.ArticleRecord{}
		n := vrt.Case("n"+digit(k), 0, 2)
		for i := 0; i < n; i++ {
			d.articles["articlespath/"+b] = append(d.articles["articlespath/"+b], &article{name: f, owner: o, title: t})
		}
		got, err := db.GetUserArticleRecordFile(o)
		vrt.Assert(err == nil, "no-spurious-error")
		vrt.Assert(len(got) == n, "the-articles-there-are-now")
		for _, g := range got {
			vrt.Assert(g.BoardID() == b && g.ArticleID() == f && g.Owner() == o && g.Title() == t, "of-the-article-itself")
		}
	}
}
