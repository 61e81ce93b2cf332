package store

import (
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzh/h"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrand"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
	"github.com/Ptt-official-app/go-bbs/zzverif/vtime"
)

// HFreshTwice: records made one after the other are two: each holds what it was given, whenever it is stored.
//
//verif:prop C13 C31
func HFreshTwice() {
	c := &pttbbs.Connector{}
	vos.PutDir("/bbs/x")
	var spans []h.Span
	var texts [2][]string
	size := 256
	store := func(i int) error { return nil }
	kind := vrt.Case("kind", 0, 1)
	turn := vrt.Case("turn", 0, 1)
	if kind == 0 {
		spans = []h.Span{{Off: 0, N: 13}, {Off: 13, N: 49}}
		var rs [2]bbs.BoardRecord
		for i := range rs {
			k := string([]byte{byte('0' + i)})
			texts[i] = []string{vrt.Str("id"+k, 1, 3, 1, 127), vrt.Str("title"+k, 0, 3, 1, 127)}
			r, err := c.NewBoardRecord(map[string]interface{}{"board_id": texts[i][0], "title": texts[i][1]})
			vrt.Assert(err == nil, "creates")
			rs[i] = r
		}
		for i, r := range rs {
			vrt.Assert(r.BoardID() == texts[i][0] && r.Title() == texts[i][1], "each-carries-its-own")
		}
		store = func(i int) error { return c.AddBoardRecordFileRecord(path, rs[i]) }
	} else {
		size = 128
		spans = []h.Span{{Off: 0, N: 28}, {Off: 34, N: 14}, {Off: 48, N: 6}, {Off: 54, N: 65}}
		var rs [2]bbs.ArticleRecord
		for i := range rs {
			k := string([]byte{byte('0' + i)})
			texts[i] = []string{vrt.Str("name"+k, 1, 2, 1, 127), vrt.Str("owner"+k, 0, 2, 1, 127), vrt.Str("date"+k, 0, 2, 1, 127), vrt.Str("title"+k, 0, 2, 1, 127)}
			r, err := c.NewArticleRecord(texts[i][0], texts[i][1], texts[i][2], texts[i][3])
			vrt.Assert(err == nil, "creates")
			rs[i] = r
		}
		for i, r := range rs {
			vrt.Assert(r.Filename() == texts[i][0] && r.Owner() == texts[i][1] && r.Date() == texts[i][2] && r.Title() == texts[i][3], "each-carries-its-own")
		}
		store = func(i int) error { return c.AddArticleRecordFileRecord(path, rs[i]) }
	}
	vrt.Assert(store(turn) == nil && store(1-turn) == nil, "stores")
	data, ok := vos.Get(path)
	vrt.Assert(ok && len(data) == 2*size, "two-records")
	if len(data) == 2*size {
		only(data[:size], spans, texts[turn])
		only(data[size:], spans, texts[1-turn])
	}
}

// HNewNameMany: however many of the names it tries are taken, the name is a new one, again and again.
//
//verif:prop C13
//verif:opts loop=200000
func HNewNameMany() {
	how := vrt.Case("how", 0, 1)
	tries := []int{7, 40, 150, 1100, 20000}[vrt.Case("tries", 0, vrt.Bound(3, 4))]
	w := &world{c: &pttbbs.Connector{}}
	w.c.Open("file:///bbs")
	vos.PutDir(bdir)
	vos.Put(bdir+"/.DIR", []byte("dir"))
	taken := vrt.Int("taken", 0, 0xffd)
	t := int64(1600000000)
	w.names = append(w.names, "M."+dec(t)+".A."+hex3(taken))
	vos.Put(bdir+"/"+w.names[0], []byte("old"))
	vtime.Fn = func() time.Time { return time.Unix(t, 0) }
	found := 0
	vrand.Fn = func(n int) int {
		vrt.Assume(taken+2 < n)
		w.draws++
		if w.draws <= tries {
			return taken
		}
		return taken + 1 + found
	}
	vos.MaxOps = 10*tries + 100
	var first string
	for found < 2 {
		w.draws = 0
		name, err := create(w, how)
		vrt.Assert(err == nil, "creates")
		vrt.Assert(goodName(name), "name-form")
		vrt.Assert(name != w.names[0] && name != first, "name-unique")
		b, ok := vos.Get(bdir + "/" + name)
		vrt.Assert(ok && (how == 1 || len(b) == 0), "file-created")
		found++
		vrt.Assert(vos.Count(bdir) == 2+found, "one-new-file")
		vrt.Assert(w.oldKept(), "existing-articles-kept")
		if first != "" {
			b, ok := vos.Get(bdir + "/" + first)
			vrt.Assert(ok && string(b) == "kept", "the-first-kept")
			return
		}
		first = name
		vos.Put(bdir+"/"+first, []byte("kept"))
	}
}
