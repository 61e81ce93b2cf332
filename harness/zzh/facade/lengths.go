package facade

import (
	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HCommentLengths: a commenter and a text of any length.
//
//verif:prop C17
func HCommentLengths() {
	n, m := 2, 2
	if vrt.Case("part", 0, 1) == 0 {
		n = vrt.Case("length", 2, 24)
	} else {
		m = vrt.Case("length", 1, 100)
	}
	o, x := string(vrt.Bytes("o", n, n, 'a', 'z')), string(vrt.Bytes("x", m, m, 'A', 'Z'))
	d := &driver{files: map[string][]byte{"articlepath/brd|file": []byte("head\n\xb1\xc0 " + o + ": " + x + " 01/02 03:04\n" + o + ": " + x + "        01/02 03:05\n")}}
	db := open(d, capNone)
	got, err := db.GetBoardArticleCommentRecords("brd", &article{name: "file"})
	vrt.Assert(err == nil, "no-spurious-error")
	vrt.Assert(len(got) == 2, "one-record-per-comment")
	checkComment(got[0], 1, o, x, "01/02 03:04", "brd", "file")
	checkComment(got[1], 2, o, x, "01/02 03:05", "brd", "file")
}

// HUserLengths: the articles and comments of a user whose name has any length are not those of users whose name
// differs in one character or goes on.
//
//verif:prop C16 C17
func HUserLengths() {
	n := vrt.Case("length", 3, 20)
	u := string(vrt.Bytes("u", n, n, 'a', 'z'))
	c := string([]byte{vrt.U8R("c", 'a', 'z')})
	at := vrt.Case("at", -1, n)
	other := u + c
	switch {
	case at < 0:
		other = u[:n-1]
	case at < n:
		other = u[:at] + c + u[at+1:]
	}
	vrt.Assume(other != u)
	d := &driver{articles: map[string][]bbs.ArticleRecord{}, files: map[string][]byte{}}
	d.boards = []bbs.BoardRecord{&board{id: "aboardwithname"}, &board{id: "b"}}
	for _, b := range []string{"aboardwithname", "b"} {
		d.articles["articlespath/"+b] = []bbs.ArticleRecord{&article{name: "f1", owner: other, title: "t"}, &article{name: "f2", owner: u, title: "t"}}
		d.files["articlepath/"+b+"|f1"] = []byte("> " + other + ": xx 01/02 03:04\n> " + u + ": yy 01/02 03:04\n")
		d.files["articlepath/"+b+"|f2"] = []byte("> " + other + ": xx 01/02 03:04\n")
	}
	db := open(d, capNone)
	l, err := db.GetUserArticleRecordFile(u)
	vrt.Assert(err == nil, "no-spurious-error")
	vrt.Assert(len(l) == 2, "exactly-the-articles")
	for i, b := range []string{"aboardwithname", "b"} {
		vrt.Assert(l[i].BoardID() == b && l[i].Owner() == u && l[i].ArticleID() == "f2" && l[i].Title() == "t", "article-of-user")
	}
	r, err := db.GetUserCommentRecordFile(u)
	vrt.Assert(err == nil, "no-spurious-error")
	vrt.Assert(len(r) == 2, "exactly-the-comments")
	for i, b := range []string{"aboardwithname", "b"} {
		checkComment(r[i], 2, u, "yy", "01/02 03:04", b, "f1")
	}
	r, err = db.GetBoardUserCommentRecord("b", other)
	vrt.Assert(err == nil && len(r) == 2, "exactly-the-comments")
}
