package facade

import (
	"strings"
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func num(c byte) bool    { return c >= '0' && c <= '9' }

// stamp tells whether s is digits in the form of a time, and whether they are one.
func stamp(s string) (form, real bool) {
	form = num(s[0]) && num(s[1]) && s[2] == '/' && num(s[3]) && num(s[4]) &&
		(s[5] == ' ' || s[5] >= 9 && s[5] <= 13 && s[5] != 11) &&
		num(s[6]) && num(s[7]) && s[8] == ':' && num(s[9]) && num(s[10])
	if !form {
		return
	}
	v := func(i int) int { return int(s[i]-'0')*10 + int(s[i+1]-'0') }
	m, d := v(0), v(3)
	days := 31
	if m == 4 || m == 6 || m == 9 || m == 11 {
		days = 30
	}
	if m == 2 {
		days = 29
	}
	real = s[5] == ' ' && m >= 1 && m <= 12 && d >= 1 && d <= days && v(6) < 24 && v(9) < 60
	return
}

// split is what a comment line says: the commenter, the text between the colon and the last time, and
// the time. The commenter is the first run of letters and digits, from its first letter on, which is
// followed by a colon and, later, a time.
func split(s string) (owner, text, when string, ok bool) {
	last := -1
	for k := len(s) - 11; k >= 0; k-- {
		if f, _ := stamp(s[k : k+11]); f {
			last = k
			break
		}
	}
	if last < 0 {
		return
	}
	for i := 0; i < last; i++ {
		if !letter(s[i]) {
			continue
		}
		j := i + 1
		for j < last && (letter(s[j]) || num(s[j])) {
			j++
		}
		if j < last && s[j] == ':' && j-i >= 2 {
			if _, r := stamp(s[last : last+11]); !r {
				return
			}
			return s[i:j], strings.TrimSpace(s[j+1 : last]), s[last : last+11], true
		}
		i = j - 1
	}
	return
}

func checkComment(r bbs.UserCommentRecord, order int, owner, txt, when, brd, file string) {
	vrt.Assert(r.Owner() == owner, "commenter")
	vrt.Assert(r.Comment() == txt, "comment-text")
	v := func(i int) int { return int(when[i]-'0')*10 + int(when[i+1]-'0') }
	vrt.Assert(r.CommentTime().Equal(time.Date(0, time.Month(v(0)), v(3), v(6), v(9), 0, 0, time.UTC)), "comment-time")
	vrt.Assert(r.CommentOrder() == uint32(order), "comment-position")
	vrt.Assert(r.BoardID() == brd && r.Filename() == file, "comment-article")
}

// HCommentText: a line with a commenter and a time is split at the right places, whatever the text.
//
//verif:prop C17
func HCommentText() {
	n := vrt.Case("n", 0, vrt.Bound(3, 5))
	m := vrt.Case("m", 0, vrt.Bound(4, 8))
	t := vrt.Case("t", 0, vrt.Bound(1, 3))
	line := string(vrt.Bytes("p", n, n, 32, 126)) + "ab:" + string(vrt.Bytes("q", m, m, 32, 126)) + "12/31 23:59" +
		string(vrt.Bytes("r", t, t, 32, 126))
	owner, txt, when, ok := split(line)
	r, err := bbs.NewUserCommentRecord(3, line, "brd", &article{name: "file"})
	vrt.Assert((err == nil) == ok, "comment-recognised")
	if ok {
		checkComment(r, 3, owner, txt, when, "brd", "file")
	}
}

// HCommentShort: the shortest lines, every character free around the fixed time.
//
//verif:prop C17
func HCommentShort() {
	n := vrt.Case("n", 0, vrt.Bound(6, 9))
	line := string(vrt.Bytes("p", n, n, 0, 127)) + "02/29 00:00"
	for i := 0; i < n; i++ {
		vrt.Assume(line[i] != '\n')
	}
	owner, txt, when, ok := split(line)
	r, err := bbs.NewUserCommentRecord(1, line, "brd", &article{name: "file"})
	vrt.Assert((err == nil) == ok, "comment-recognised")
	if ok {
		checkComment(r, 1, owner, txt, when, "brd", "file")
	}
}

// HCommentTime: a time which is none makes no comment, and every other is kept.
//
//verif:prop C17
func HCommentTime() {
	t := []byte("05/15 13:07")
	switch vrt.Case("field", 0, 3) {
	case 0:
		t[0], t[1] = vrt.U8R("m0", '0', '9'), vrt.U8R("m1", '0', '9')
	case 1:
		m := vrt.Case("month", 1, 12)
		t[0], t[1] = byte('0'+m/10), byte('0'+m%10)
		t[3], t[4] = vrt.U8R("d0", '0', '9'), vrt.U8R("d1", '0', '9')
	case 2:
		t[6], t[7] = vrt.U8R("h0", '0', '9'), vrt.U8R("h1", '0', '9')
	case 3:
		t[9], t[10] = vrt.U8R("i0", '0', '9'), vrt.U8R("i1", '0', '9')
	}
	_, real := stamp(string(t))
	r, err := bbs.NewUserCommentRecord(2, "ab: text "+string(t), "brd", &article{name: "file"})
	vrt.Assert((err == nil) == real, "comment-recognised")
	if real {
		checkComment(r, 2, "ab", "text", string(t), "brd", "file")
	}
}

// HCommentNot: one character of the time may be anything.
//
//verif:prop C17
func HCommentNot() {
	t := []byte("05/15 13:07")
	t[vrt.Case("at", 0, 10)] = vrt.U8R("c", 0, 127)
	s := string(t)
	vrt.Assume(!strings.Contains(s, "\n"))
	_, real := stamp(s)
	r, err := bbs.NewUserCommentRecord(2, "ab: text "+s, "brd", &article{name: "file"})
	vrt.Assert((err == nil) == real, "comment-recognised")
	if real {
		checkComment(r, 2, "ab", "text", s, "brd", "file")
	}
}

// HCommentArticle: the comments of an article, one per comment line, numbered in order.
//
//verif:prop C17
func HCommentArticle() {
	n := vrt.Case("n", 0, vrt.Bound(3, 4))
	content := ""
	type said struct{ owner, text string }
	var want []said
	eol := []string{"\n", "\r\n"}[vrt.Case("eol", 0, 1)]
	for i := 0; i < n; i++ {
		k := digit(i)
		o := "u" + string(vrt.Bytes("o"+k, 1, 1, 'a', 'z'))
		x := string(vrt.Bytes("x"+k, 2, 2, 'A', 'z'))
		line := ""
		switch vrt.Case("kind"+k, 0, 6) {
		case 0:
			line = "\xa1\xf7 " + o + ": " + x + " 01/02 03:04"
			want = append(want, said{o, x})
		case 1: // coloured
			line = "\x1b[1;37m> \x1b[33m" + o + "\x1b[m\x1b[33m: " + x + "\x1b[m 01/02 03:04"
			want = append(want, said{o, x})
		case 2:
			line = x
		case 3:
			line = ""
		case 4: // impossible time
			line = o + ": " + x + " 13/02 03:04"
		case 5: // no commenter
			line = ": " + x + " 01/02 03:04"
		case 6: // longer than any buffer
			o, x = "uz", "QQ"
			line = o + ":" + strings.Repeat(" ", vrt.Bound(70000, 200000)) + x + " 01/02 03:04"
			want = append(want, said{o, x})
		}
		content += line
		if i < n-1 || vrt.Case("end", 0, 1) == 1 {
			content += eol
		}
	}
	d := &driver{files: map[string][]byte{"articlepath/brd|file": []byte(content)}}
	db := open(d, capNone)
	got, err := db.GetBoardArticleCommentRecords("brd", &article{name: "file"})
	vrt.Assert(err == nil, "no-spurious-error")
	vrt.Assert(len(got) == len(want), "one-record-per-comment")
	for i, w := range want {
		checkComment(got[i], i+1, w.owner, w.text, "01/02 03:04", "brd", "file")
	}
}

// HCommentUser: the comments of a user are exactly those whose commenter is that user.
//
//verif:prop C17
func HCommentUser() {
	u := "u" + string(vrt.Bytes("u", 1, 1, 'a', 'c'))
	d := &driver{articles: map[string][]bbs.ArticleRecord{}, files: map[string][]byte{}}
	type said struct {
		brd, file, text string
		order           int
	}
	var inA, all []said
	for _, b := range []string{"a", "ALLPOST", "b"} {
		d.boards = append(d.boards, &board{id: b})
		na := vrt.Case("na"+b, 0, vrt.Bound(1, 2))
		for j := 0; j < na; j++ {
			f := "f" + digit(j)
			d.articles["articlespath/"+b] = append(d.articles["articlespath/"+b], &article{name: f, owner: u, title: "t"})
			c := ""
			nc := vrt.Case("nc"+b+f, 0, 2)
			for l := 0; l < nc; l++ {
				k := b + f + digit(l)
				x := string(vrt.Bytes("x"+k, 1, 1, 'a', 'z'))
				o := u
				if vrt.Case("who"+k, 0, 1) == 1 {
					o = "u" + string(vrt.Bytes("o"+k, 1, 1, 'a', 'c'))
				}
				c += "- " + o + ": " + x + " 01/02 03:04\n"
				if o != u {
					continue
				}
				s := said{b, f, x, l + 1}
				if b == "a" {
					inA = append(inA, s)
				}
				if b != "ALLPOST" {
					all = append(all, s)
				}
			}
			d.files["articlepath/"+b+"|"+f] = []byte(c)
		}
	}
	db := open(d, capNone)
	want := all
	var got []bbs.UserCommentRecord
	var err error
	if vrt.Case("whole", 0, 1) == 1 {
		got, err = db.GetUserCommentRecordFile(u)
	} else {
		want = inA
		got, err = db.GetBoardUserCommentRecord("a", u)
	}
	vrt.Assert(err == nil, "no-spurious-error")
	vrt.Assert(len(got) == len(want), "exactly-the-comments")
	for i, w := range want {
		checkComment(got[i], w.order, u, w.text, "01/02 03:04", w.brd, w.file)
	}
}

// HCommentErrors: a failed read is reported, a remembered list is returned as it is.
//
//verif:prop C17
func HCommentErrors() {
	u := text("u", 1, 2)
	d := &driver{articles: map[string][]bbs.ArticleRecord{}, files: map[string][]byte{}, failAt: vrt.Case("fail", 0, 8)}
	d.boards = []bbs.BoardRecord{&board{id: "a"}}
	d.articles["articlespath/a"] = []bbs.ArticleRecord{&article{name: "f", owner: u, title: "t"}}
	d.files["articlepath/a|f"] = []byte("- ab: x 01/02 03:04\n")
	var list []bbs.UserCommentRecord
	var c bbs.Connector = d
	steps := 6 // boards path, boards, articles path, articles, article path, article
	if vrt.Case("cache", 0, 1) == 1 {
		for i := vrt.Case("n", 0, 2); i > 0; i-- {
			list = append(list, &comment{})
		}
		c = &withCommentCache{d, commentCache{d, list}}
		steps = 8
		if len(list) > 0 {
			steps = 2
		}
	}
	db := handle(d, c)
	got, err := db.GetUserCommentRecordFile(u)
	if d.failAt > 0 && d.failAt <= steps {
		reported(err)
		vrt.Assert(len(got) == 0, "no-result-with-error")
		return
	}
	vrt.Assert(err == nil, "no-spurious-error")
	if len(list) > 0 {
		vrt.Assert(d.calls[0] == "ucpath "+u && d.calls[1] == "uc ucpath/"+u, "asks-for-the-user")
		vrt.Assert(len(got) == len(list), "remembered-list")
		for i := range got {
			vrt.Assert(got[i] == list[i], "remembered-list")
		}
		return
	}
	k := 0
	if u == "ab" {
		k = 1
	}
	vrt.Assert(len(got) == k, "exactly-the-comments")
}

// HCommentColour: a colour code in any position changes nothing about a comment.
//
//verif:prop C23
func HCommentColour() {
	o, x := "u"+string(vrt.Bytes("o", 1, 1, 'a', 'z')), string(vrt.Bytes("x", 2, 2, 'A', 'Z'))
	plain := "> " + o + ": " + x + " 01/02 03:04"
	put := func(name, s string) string {
		at := vrt.Case(name, 0, len(plain))
		if at > len(s) {
			at = len(s)
		}
		code := "\x1b["
		switch vrt.Case(name+"form", 0, 2) {
		case 1:
			code += string(vrt.Bytes(name+"d", 2, 2, '0', '9'))
		case 2:
			code += "1;" + string(vrt.Bytes(name+"d", 2, 2, '0', '9'))
		}
		return s[:at] + code + "m" + s[at:]
	}
	line := put("p", plain)
	if vrt.Thorough() {
		line = put("q", line)
	}
	d := &driver{files: map[string][]byte{"articlepath/brd|file": []byte("first\n" + line + "\nlast\n")}}
	db := open(d, capNone)
	got, err := db.GetBoardArticleCommentRecords("brd", &article{name: "file"})
	vrt.Assert(err == nil, "no-spurious-error")
	vrt.Assert(len(got) == 1, "comment-recognised-through-colour")
	if len(got) == 1 {
		checkComment(got[0], 1, o, x, "01/02 03:04", "brd", "file")
	}
}
