package e2e

import (
	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HHomeLengths: names, titles and texts of any length are read back.
//
//verif:prop C32
func HHomeLengths() {
	part := vrt.Case("part", 0, 6)
	n := vrt.Case("length", 1, []int{12, 48, 13, 5, 64, 12, 150}[part])
	one := func(i int, nm string) string {
		k := 2
		if i == part {
			k = n
		}
		b := make([]byte, k)
		for j := range b {
			b[j] = 'a' + byte(j%26)
		}
		copy(b[k-1:], vrt.Bytes(nm, 1, 1, 'a', 'z'))
		return string(b)
	}
	brd, btitle, owner, date, title, user, text := one(0, "brd"), one(1, "btitle"), one(2, "owner"), one(3, "date"), one(4, "title"), one(5, "user"), []byte(one(6, "text"))
	db := open("file:///bbs")
	vos.PutDir("/bbs/boards/" + brd[:1] + "/" + brd)
	vos.PutDir("/bbs/home/" + user[:1] + "/" + user)
	for i := 0; i < 2; i++ {
		r, err := db.NewBoardRecord(map[string]interface{}{"board_id": brd, "title": btitle})
		vrt.Assert(err == nil && db.AddBoardRecord(r) == nil, "adds-board")
	}
	l, err := db.ReadBoardRecords()
	vrt.Assert(err == nil && len(l) == 2, "boards")
	for _, r := range l {
		vrt.Assert(r.BoardID() == brd && r.Title() == btitle, "board")
	}
	for i := 0; i < 2; i++ {
		r, err := db.CreateArticleRecord(brd, owner, date, title)
		vrt.Assert(err == nil && db.AddArticleRecordFileRecord(brd, r) == nil, "adds-article")
		vrt.Assert(db.WriteBoardArticleFile(brd, r.Filename(), text) == nil, "writes-article")
		if i == 1 {
			vrt.Assert(db.AppendBoardArticleFile(brd, r.Filename(), text) == nil, "appends-article")
		}
	}
	a, err := db.ReadBoardArticleRecordsFile(brd)
	vrt.Assert(err == nil && len(a) == 2 && a[0].Filename() != a[1].Filename(), "articles")
	for i, r := range a {
		vrt.Assert(r.Owner() == owner && r.Date() == date && r.Title() == title, "article")
		b, err := db.ReadBoardArticleFile(brd, r.Filename())
		want := text
		if i == 1 {
			want = cat(text, text)
		}
		vrt.Assert(err == nil && eq(b, want), "text")
	}
	u, err := db.GetUserArticleRecordFile(owner)
	vrt.Assert(err == nil && len(u) == 4, "articles-of-user")
	vrt.Assert(db.WriteUserDraft(user, "0", bbs.NewUserDraft(text)) == nil, "writes-draft")
	dr, err := db.GetUserDrafts(user, "0")
	vrt.Assert(err == nil && eq(dr.Raw(), text), "draft")
}
