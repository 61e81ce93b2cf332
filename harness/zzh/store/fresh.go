package store

import (
	"time"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzh/h"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// only asserts that b holds the texts at their spans, padded with zeros, and is zero everywhere else.
func only(b []byte, spans []h.Span, texts []string) {
	want := make([]byte, len(b))
	for i, s := range spans {
		copy(want[s.Off:s.Off+s.N], texts[i])
	}
	for i, s := range spans {
		vrt.Assert(eq(b[s.Off:s.Off+s.N], want[s.Off:s.Off+s.N]), []string{"first-field", "second-field", "third-field", "fourth-field"}[i])
	}
	vrt.Assert(eq(b, want), "rest-is-zero")
}

// HFreshBoard: a new board holds the id and the title it was given, nothing else, also when it is read back.
//
//verif:prop C31
func HFreshBoard() {
	c := &pttbbs.Connector{}
	id := vrt.Str("id", 1, 12, 1, 127)
	title := vrt.Str("title", 0, vrt.Bound(6, 48), 1, 127)
	r, err := c.NewBoardRecord(map[string]interface{}{"board_id": id, "title": title})
	vrt.Assert(err == nil, "creates")
	vrt.Assert(r.BoardID() == id && r.Title() == title, "carries-what-was-given")
	vrt.Assert(!r.IsClass() && len(r.BM()) == 0, "plain-board")
	n := vrt.Case("n", 0, 2)
	vos.PutDir("/bbs/x")
	old := vrt.Bytes("old", 256*n, 256*n, 0, 255)
	if n > 0 {
		vos.Put(path, old)
	}
	vrt.Assert(c.AddBoardRecordFileRecord(path, r) == nil, "stores")
	data, ok := vos.Get(path)
	vrt.Assert(ok && len(data) == 256*(n+1), "one-record-more")
	vrt.Assert(eq(data[:256*n], old), "others-kept")
	only(data[256*n:], []h.Span{{Off: 0, N: 13}, {Off: 13, N: 49}}, []string{id, title})
	b, err := pttbbs.UnmarshalBoardHeader(data[256*n:])
	vrt.Assert(err == nil && b.BoardID() == id && b.Title() == title && len(b.BM()) == 0, "reads-back")
	vrt.Assert(b.BUpdate.Unix() == 0 && b.VTime.Unix() == 0 && b.PermReload.Unix() == 0 && b.EndGamble.Unix() == 0 && b.SRexpire.Unix() == 0, "times-unset")
}

// HFreshBoardArgs: without an id or a title, or with one which is no text, no board is made.
//
//verif:prop C31
func HFreshBoardArgs() {
	args := map[string]interface{}{"board_id": "b", "title": "t"}
	k := []string{"board_id", "title"}[vrt.Case("missing", 0, 1)]
	switch vrt.Case("how", 0, 3) {
	case 0:
		delete(args, k)
	case 1:
		args[k] = 7
	case 2:
		args[k] = nil
	case 3:
		args[k] = []byte("x")
	}
	r, err := (&pttbbs.Connector{}).NewBoardRecord(args)
	vrt.Assert(err != nil && r == nil, "missing-argument-reported")
}

// HFreshArticle: a new article record holds what it was given, nothing else, also when it is read back.
//
//verif:prop C31
func HFreshArticle() {
	c := &pttbbs.Connector{}
	name := vrt.Str("name", 1, 3, 1, 127)
	owner := vrt.Str("owner", 0, 3, 1, 127)
	date := vrt.Str("date", 0, 6, 1, 127)
	title := vrt.Str("title", 0, vrt.Bound(6, 64), 1, 127)
	r, err := c.NewArticleRecord(name, owner, date, title)
	vrt.Assert(err == nil, "creates")
	vrt.Assert(r.Filename() == name && r.Owner() == owner && r.Date() == date && r.Title() == title, "carries-what-was-given")
	vrt.Assert(r.Recommend() == 0 && r.Money() == 0, "nothing-else")
	n := vrt.Case("n", 0, 2)
	vos.PutDir("/bbs/x")
	old := vrt.Bytes("old", 128*n, 128*n, 0, 255)
	if n > 0 {
		vos.Put(path, old)
	}
	mod := uint32(0)
	if vrt.Case("modified", 0, 1) == 1 {
		mod = vrt.U32("mod")
		r.SetModified(time.Unix(int64(mod), 0))
	}
	vrt.Assert(c.AddArticleRecordFileRecord(path, r) == nil, "stores")
	data, ok := vos.Get(path)
	vrt.Assert(ok && len(data) == 128*(n+1), "one-record-more")
	vrt.Assert(eq(data[:128*n], old), "others-kept")
	rec := data[128*n:]
	vrt.Assert(h.U32(rec, 28) == mod, "modified-time")
	for i := 28; i < 32; i++ {
		rec[i] = 0
	}
	only(rec, []h.Span{{Off: 0, N: 28}, {Off: 34, N: 14}, {Off: 48, N: 6}, {Off: 54, N: 65}}, []string{name, owner, date, title})
	f, err := pttbbs.NewFileHeaderWithByte(data[128*n:])
	vrt.Assert(err == nil && f.Filename() == name && f.Owner() == owner && f.Date() == date && f.Title() == title && f.Recommend() == 0, "reads-back")
}

// HFreshArticleMap: a record created with its file holds what it was given and the name of its file.
//
//verif:prop C31
func HFreshArticleMap() {
	w := newWorld(0, 1)
	vos.PutDir("/bbs/x")
	owner := vrt.Str("owner", 0, 3, 33, 126)
	title := vrt.Str("title", 0, 3, 32, 126)
	date := vrt.Str("date", 0, 3, 33, 126)
	r, err := w.c.NewArticleRecordWithMap(map[string]interface{}{"owner": owner, "date": date, "title": title, "board_id": "test"})
	vrt.Assert(err == nil, "creates")
	vrt.Assert(w.c.AddArticleRecordFileRecord(path, r) == nil, "stores")
	data, ok := vos.Get(path)
	vrt.Assert(ok && len(data) == 128, "one-record-more")
	only(data, []h.Span{{Off: 0, N: 28}, {Off: 34, N: 14}, {Off: 48, N: 6}, {Off: 54, N: 65}}, []string{r.Filename(), owner, date, title})
	_, ok = vos.Get(bdir + "/" + r.Filename())
	vrt.Assert(ok, "file-of-record-exists")
}

// HFreshOthers: accounts and online records which hold nothing are stored as zeros.
//
//verif:prop C31
func HFreshOthers() {
	b, err := (&pttbbs.Userec{}).MarshalBinary()
	vrt.Assert(err == nil && len(b) == 512 && eq(b, make([]byte, 512)), "account-is-zero")
	b = (&pttbbs.UserInfoCache{}).MarshalBinary()
	vrt.Assert(len(b) == 3484 && eq(b, make([]byte, 3484)), "online-user-is-zero")
}

// field of the length wanted for it: one field has any length up to two more than there is room for, the others two.
func anyLength(names []string, room []int, min []int) (texts []string, over bool) {
	k := vrt.Case("field", 0, len(names)-1)
	for i, nm := range names {
		n := 2
		if i == k {
			n = vrt.Case("length", min[i], room[i]+2)
			over = n > room[i]
		}
		texts = append(texts, string(vrt.Bytes(nm, n, n, 1, 127)))
	}
	return texts, over
}

// fits asserts what a record with texts holds; a text without room may be cut or refused but harms nothing else.
func fits(data []byte, spans []h.Span, texts []string) {
	cut := append([]string{}, texts...)
	for i, s := range spans {
		if len(cut[i]) > s.N {
			end := s.Off
			for end < s.Off+s.N && data[end] != 0 {
				end++
			}
			cut[i] = texts[i][:end-s.Off]
		}
	}
	only(data, spans, cut)
}

// HFreshArticleLengths: each text of a new article record may have any length.
//
//verif:prop C31
func HFreshArticleLengths() {
	spans := []h.Span{{Off: 0, N: 28}, {Off: 34, N: 14}, {Off: 48, N: 6}, {Off: 54, N: 65}}
	t, over := anyLength([]string{"name", "owner", "date", "title"}, []int{28, 14, 6, 65}, []int{1, 0, 0, 0})
	c := &pttbbs.Connector{}
	r, err := c.NewArticleRecord(t[0], t[1], t[2], t[3])
	vrt.Assert(over || err == nil, "creates")
	if err != nil {
		return
	}
	vos.PutDir("/bbs/x")
	err = c.AddArticleRecordFileRecord(path, r)
	vrt.Assert(over || err == nil, "stores")
	data, ok := vos.Get(path)
	if err != nil {
		vrt.Assert(len(data) == 0, "nothing-stored-on-failure")
		return
	}
	vrt.Assert(ok && len(data) == 128, "one-record-more")
	fits(data, spans, t)
	f, err := pttbbs.NewFileHeaderWithByte(data)
	vrt.Assert(err == nil, "reads-back")
	if !over {
		vrt.Assert(f.Filename() == t[0] && f.Owner() == t[1] && f.Date() == t[2] && f.Title() == t[3], "reads-back")
	}
}

// HFreshBoardLengths: each text of a new board may have any length.
//
//verif:prop C31
func HFreshBoardLengths() {
	spans := []h.Span{{Off: 0, N: 13}, {Off: 13, N: 49}}
	t, over := anyLength([]string{"id", "title"}, []int{13, 49}, []int{1, 0})
	c := &pttbbs.Connector{}
	r, err := c.NewBoardRecord(map[string]interface{}{"board_id": t[0], "title": t[1]})
	vrt.Assert(over || err == nil, "creates")
	if err != nil {
		return
	}
	vos.PutDir("/bbs/x")
	err = c.AddBoardRecordFileRecord(path, r)
	vrt.Assert(over || err == nil, "stores")
	data, ok := vos.Get(path)
	if err != nil {
		vrt.Assert(len(data) == 0, "nothing-stored-on-failure")
		return
	}
	vrt.Assert(ok && len(data) == 256, "one-record-more")
	fits(data, spans, t)
	b, err := pttbbs.UnmarshalBoardHeader(data)
	vrt.Assert(err == nil, "reads-back")
	if !over {
		vrt.Assert(b.BoardID() == t[0] && b.Title() == t[1], "reads-back")
	}
}

// HFreshChinese: a title is stored in Big5, however it got there.
//
//verif:prop C31
func HFreshChinese() {
	vos.PutDir("/bbs/x")
	w := newWorld(0, 1)
	t := []string{"a" + string(vrt.Bytes("owner", 2, 2, 33, 126)), "b" + string(vrt.Bytes("date", 1, 1, 33, 126)), "c" + string(vrt.Bytes("title", 3, 3, 33, 126))}
	b := append([]string{}, t...)
	k := vrt.Case("at", 0, len(t[2]))
	t[2], b[2] = t[2][:k]+h.BigU+t[2][k:], b[2][:k]+h.BigB+b[2][k:]
	how := vrt.Case("how", 0, 2)
	if how == 2 {
		brd, err := w.c.NewBoardRecord(map[string]interface{}{"board_id": "test", "title": t[2]})
		vrt.Assert(err == nil && w.c.AddBoardRecordFileRecord(path, brd) == nil, "stores")
		data, _ := vos.Get(path)
		vrt.Assert(len(data) == 256, "one-record-more")
		only(data, []h.Span{{Off: 0, N: 13}, {Off: 13, N: 49}}, []string{"test", b[2]})
		back, err := w.c.ReadBoardRecordsFile(path)
		vrt.Assert(err == nil && len(back) == 1 && back[0].Title() == t[2], "reads-back")
		return
	}
	r, err := w.c.NewArticleRecord("M.1", t[0], t[1], t[2])
	if how == 1 {
		r, err = w.c.NewArticleRecordWithMap(map[string]interface{}{"owner": t[0], "date": t[1], "title": t[2], "board_id": "test"})
	}
	vrt.Assert(err == nil && w.c.AddArticleRecordFileRecord(path, r) == nil, "stores")
	data, _ := vos.Get(path)
	vrt.Assert(len(data) == 128, "one-record-more")
	only(data, []h.Span{{Off: 0, N: 28}, {Off: 34, N: 14}, {Off: 48, N: 6}, {Off: 54, N: 65}}, []string{r.Filename(), b[0], b[1], b[2]})
	back, err := w.c.ReadArticleRecordsFile(path)
	vrt.Assert(err == nil && len(back) == 1 && back[0].Owner() == t[0] && back[0].Date() == t[1] && back[0].Title() == t[2], "reads-back")
}
