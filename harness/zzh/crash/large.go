package crash

import (
	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HCrashLarge: the same for files larger than any buffer, and articles larger than one.
//
//verif:prop C36
func HCrashLarge() {
	const n = 300
	db, l := home(1)
	data := func(size int) []byte {
		b := make([]byte, n*size)
		for i := 0; i < n; i++ {
			b[i*size], b[i*size+1], b[i*size+2] = 'b', byte('a'+i/26), byte('a'+i%26)
		}
		copy(b[n/2*size+3:], vrt.Bytes("mid", 2, 2, 1, 127))
		b[len(b)-1] = vrt.U8("end")
		return b
	}
	what := vrt.Case("what", 0, 4)
	i := 0
	if what == 2 || what == 3 {
		i = []int{0, 1, n / 2, n - 1}[vrt.Case("index", 0, 3)]
	}
	switch what {
	case 0:
		l[0].data = data(256)
		vos.Put(brd, l[0].data)
		r, err := db.NewBoardRecord(map[string]interface{}{"board_id": "tc", "title": "title"})
		vrt.Assert(err == nil, "makes-record")
		die(func() { db.AddBoardRecord(r) })
		vrt.Assert(starts(left(brd), l[0].data), "existing-content-kept")
		kept(l, brd)
	case 1:
		l[2].data = data(256)
		vos.Put(art, l[2].data)
		die(func() { db.AppendBoardArticleFile("ta", "M.1", data(256)) })
		vrt.Assert(starts(left(art), l[2].data), "existing-content-kept")
		kept(l, art)
	case 2:
		l[1].data = data(128)
		vos.Put(dir, l[1].data)
		a := pttbbs.NewFileHeader()
		a.SetFilename("M.3")
		die(func() { (&pttbbs.Connector{}).UpdateArticleRecordFileRecord(dir, uint(i), a) })
		got, was := left(dir), l[1].data
		vrt.Assert(len(got) == len(was), "length-kept")
		vrt.Assert(string(got[:128*i]) == string(was[:128*i]) && string(got[128*i+128:]) == string(was[128*i+128:]), "other-records-kept")
		kept(l, dir)
	case 3:
		l[0].data = data(256)
		was := l[0].data
		vos.Put(brd, was)
		die(func() { pttbbs.RemoveBoardHeaderFileRecord(brd, i) })
		got := left(brd)
		// the records but the i-th, one after the other
		j := 0
		for k := 0; k+256 <= len(got); k += 256 {
			if j == i {
				j++
			}
			if j < n && string(got[k:k+256]) == string(was[256*j:256*j+256]) {
				j++
			}
		}
		if j == i {
			j++
		}
		vrt.Assert(j == n, "other-boards-kept")
		kept(l, brd)
	case 4:
		text := data(256)
		die(func() { db.WriteUserDraft("pichu", "0", bbs.NewUserDraft(text)) })
		kept(l, "/bbs/home/p/pichu/buf.0")
	}
}
