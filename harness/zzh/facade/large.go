package facade

import (
	"strconv"
	"strings"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HUserArticlesLarge: many boards, and boards of many articles.
//
//verif:prop C16
func HUserArticlesLarge() {
	u := "u" + string(vrt.Bytes("u", 2, 2, 1, 127))
	nb := []int{1, 2, 40, 300}[vrt.Case("boards", 0, 3)]
	na := []int{700, 300, 20, 3}[vrt.Case("boards", 0, 3)]
	d := &driver{articles: map[string][]bbs.ArticleRecord{}}
	var want []*stored
	for i := 0; i < nb; i++ {
		id := "b" + strconv.Itoa(i)
		if i == nb/2 && nb > 2 {
			id = "ALLPOST"
		}
		d.boards = append(d.boards, &board{id: id})
		var l []bbs.ArticleRecord
		for j := 0; j < na; j++ {
			k := i*na + j
			a := &article{name: "M." + strconv.Itoa(k), title: "t" + strconv.Itoa(k), owner: u}
			switch k % 5 {
			case 1:
				a.owner = "v" + u
			case 2:
				a.owner = u + "v"
			case 3:
				a.owner = "w" + u[1:]
			}
			l = append(l, a)
			if id != "ALLPOST" && (k%5 == 0 || k%5 == 4) {
				want = append(want, &stored{id, a.title, u, a.name})
			}
		}
		d.articles["articlespath/"+id] = l
	}
	db := open(d, capNone)
	got, err := db.GetUserArticleRecordFile(u)
	vrt.Assert(err == nil, "no-spurious-error")
	vrt.Assert(len(got) == len(want), "exactly-the-articles")
	for i, g := range got {
		w := want[i]
		vrt.Assert(g.BoardID() == w.board, "board-of-article")
		vrt.Assert(g.Title() == w.title && g.Owner() == w.owner, "title-and-owner")
		vrt.Assert(g.ArticleID() == w.article, "article-name")
	}
}

// HCommentArticleLarge: an article of many comments, longer than any buffer.
//
//verif:prop C17
func HCommentArticleLarge() {
	n := []int{99, 101, 256, 300, 1100}[vrt.Case("comments", 0, vrt.Bound(3, 4))]
	body := []int{0, 5000, 70000}[vrt.Case("body", 0, 2)]
	content := []byte(strings.Repeat("some line of the text\n", body/22))
	o := "u" + string(vrt.Bytes("o", 2, 2, 'a', 'z'))
	x := string(vrt.Bytes("x", 2, 2, 'A', 'Z'))
	for i := 0; i < n; i++ {
		who, text := "ab", "t"+strconv.Itoa(i)
		if i == 0 || i == n/2 || i == n-1 {
			who, text = o, x
		}
		content = append(content, "> "+who+": "+text+" 01/02 03:04\n"...)
		if i%3 == 0 {
			content = append(content, "no comment\n"...)
		}
	}
	d := &driver{files: map[string][]byte{"articlepath/brd|file": content}}
	db := open(d, capNone)
	got, err := db.GetBoardArticleCommentRecords("brd", &article{name: "file"})
	vrt.Assert(err == nil, "no-spurious-error")
	vrt.Assert(len(got) == n, "one-record-per-comment")
	for i := range got {
		who, text := "ab", "t"+strconv.Itoa(i)
		if i == 0 || i == n/2 || i == n-1 {
			who, text = o, x
		}
		checkComment(got[i], i+1, who, text, "01/02 03:04", "brd", "file")
	}
}

// HCommentUserLarge: a user's comments among many boards, articles and comments.
//
//verif:prop C17
func HCommentUserLarge() {
	u := "ab"
	shape := vrt.Case("shape", 0, 2)
	nb, na, nc := []int{1, 2, 60}[shape], []int{4, 80, 3}[shape], []int{60, 2, 2}[shape]
	whole := vrt.Case("whole", 0, 1) == 1
	d := &driver{articles: map[string][]bbs.ArticleRecord{}, files: map[string][]byte{}}
	type said struct {
		brd, file, text string
		order           int
	}
	var inA, all []said
	for i := 0; i < nb; i++ {
		b := "b" + strconv.Itoa(i)
		d.boards = append(d.boards, &board{id: b})
		for j := 0; j < na; j++ {
			f := "f" + strconv.Itoa(j)
			d.articles["articlespath/"+b] = append(d.articles["articlespath/"+b], &article{name: f, owner: "xy", title: "t"})
			c := ""
			for l := 0; l < nc; l++ {
				k := (i*na+j)*nc + l
				o, x := u, "t"+strconv.Itoa(k)
				switch k % 4 {
				case 1:
					o = "abc"
				case 2:
					o = "b"
				}
				if k == nb*na*nc-1 {
					x = string(vrt.Bytes("x", 2, 2, 'a', 'z'))
				}
				c += "> " + o + ": " + x + " 01/02 03:04\n"
				if o != u {
					continue
				}
				s := said{b, f, x, l + 1}
				// one-letter commenters are none
				for m := 0; m < l; m++ {
					if ((i*na+j)*nc+m)%4 == 2 {
						s.order--
					}
				}
				if i == 0 {
					inA = append(inA, s)
				}
				all = append(all, s)
			}
			d.files["articlepath/"+b+"|"+f] = []byte(c)
		}
	}
	db := open(d, capNone)
	want := all
	var got []bbs.UserCommentRecord
	var err error
	if whole {
		got, err = db.GetUserCommentRecordFile(u)
	} else {
		want = inA
		got, err = db.GetBoardUserCommentRecord("b0", u)
	}
	vrt.Assert(err == nil, "no-spurious-error")
	vrt.Assert(len(got) == len(want), "exactly-the-comments")
	for i, w := range want {
		checkComment(got[i], w.order, u, w.text, "01/02 03:04", w.brd, w.file)
	}
}
