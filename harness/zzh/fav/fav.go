// Package fav checks favorites files.
package fav

import (
	"syscall"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzh/h"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// item is a favorites entry as the harness builds it.
type item struct {
	typ   byte // 1 board, 2 folder, 3 line
	attr  byte
	data  []byte
	items []*item // of a folder
}

func digit(i int) string { return string([]byte{byte('0' + i)}) }

// tree builds the items of one folder; every shape is a case, every content is free.
func tree(nm string, max, depth int) []*item {
	n := vrt.Case("n"+nm, 0, max)
	var out []*item
	for i := 0; i < n; i++ {
		k := nm + digit(i)
		it := &item{typ: byte(vrt.Case("t"+k, 1, 3)), attr: vrt.U8("a" + k)}
		switch it.typ {
		case 1:
			it.data = vrt.Bytes("b"+k, 12, 12, 0, 255)
		case 2:
			it.data = h.Raw("f"+k, 50, []h.Span{{Off: 1, N: 49}})
			if depth > 0 {
				it.items = tree(k, 1, depth-1)
			}
		case 3:
			it.data = vrt.Bytes("l"+k, 1, 1, 0, 255)
		}
		out = append(out, it)
	}
	return out
}

// enc writes a folder; with canon set it writes what the encoder must write for the parsed tree.
func enc(items []*item, canon bool) []byte {
	nb, nl, nf := 0, 0, 0
	for _, it := range items {
		switch it.typ {
		case 1:
			nb++
		case 2:
			nf++
		case 3:
			nl++
		}
	}
	out := []byte{byte(nb), byte(nb >> 8), byte(nl), byte(nf)}
	cl, cf := byte(0), byte(0)
	for _, it := range items {
		out = append(out, it.typ, it.attr)
		d := it.data
		if canon && it.typ == 2 {
			cf++
			d = make([]byte, 50)
			d[0] = cf
			h.CanonText(d, it.data, h.Span{Off: 1, N: 49})
		}
		if canon && it.typ == 3 {
			cl++
			d = []byte{cl}
		}
		out = append(out, d...)
	}
	for _, it := range items {
		if it.typ == 2 {
			out = append(out, enc(it.items, canon)...)
		}
	}
	return out
}

// check compares a parsed folder with what was encoded.
func check(f *pttbbs.FavFolder, items []*item) {
	nb, nl, nf := 0, 0, 0
	vrt.Assert(len(f.FavItems) == len(items), "item-count")
	for i, it := range items {
		g := f.FavItems[i]
		vrt.Assert(byte(g.FavType) == it.typ && g.FavAttr == it.attr, "item-header")
		switch it.typ {
		case 1:
			nb++
			b := g.GetBoard()
			vrt.Assert(b != nil && g.GetFolder() == nil && g.GetLine() == nil, "item-kind")
			vrt.Assert(b.BoardID == h.U32(it.data, 0), "board-number")
			vrt.Assert(b.LastVisit.Unix() == int64(h.U32(it.data, 4)), "board-last-visit")
			vrt.Assert(b.Attr == h.U32(it.data, 8), "board-attr")
			vrt.Assert(g.Type() == bbs.FavoriteTypeBoard && len(g.Records()) == 0, "board-record")
			vrt.Assert(g.Title() == "", "board-title")
		case 2:
			nf++
			d := g.GetFolder()
			vrt.Assert(d != nil && g.GetBoard() == nil && g.GetLine() == nil, "item-kind")
			vrt.Assert(d.Title == h.Text(it.data, h.Span{Off: 1, N: 49}), "folder-title")
			vrt.Assert(g.Type() == bbs.FavoriteTypeFolder && g.Title() == d.Title && g.BoardID() == "", "folder-record")
			rs := g.Records()
			vrt.Assert(len(rs) == len(it.items), "folder-records")
			for j, r := range rs {
				vrt.Assert(r.(*pttbbs.FavItem) == d.ThisFolder.FavItems[j], "folder-records")
			}
			check(d.ThisFolder, it.items)
		case 3:
			nl++
			vrt.Assert(g.GetLine() != nil && g.GetBoard() == nil && g.GetFolder() == nil, "item-kind")
			vrt.Assert(g.Type() == bbs.FavoriteTypeLine && g.BoardID() == "" && len(g.Records()) == 0, "line-record")
		}
	}
	vrt.Assert(int(f.NBoards) == nb && int(f.NLines) == nl && int(f.NFolders) == nf, "counts")
}

// HFavTree: every tree within the bound is read as stored and written back as it was.
//
//verif:prop C05
func HFavTree() {
	items := tree("", vrt.Bound(2, 3), vrt.Bound(2, 2))
	ver := vrt.Bytes("ver", 2, 2, 0, 255)
	raw := append(append([]byte{}, ver...), enc(items, false)...)
	f, err := pttbbs.UnmarshalFavFile(raw)
	vrt.Assert(err == nil, "parses")
	vrt.Assert(f.Version == h.U16(ver, 0), "version")
	check(f.Folder, items)
	out, err := f.MarshalBinary()
	vrt.Assert(err == nil, "encodes")
	want := append(append([]byte{}, ver...), enc(items, true)...)
	vrt.Assert(string(out) == string(want), "round-trip")
}

// HFavBig5: titles are converted from and to Big5.
//
//verif:prop C05
func HFavBig5() {
	f := &item{typ: 2, data: make([]byte, 50)}
	copy(f.data[1:], h.BigB)
	f.data[0] = 1
	raw := append([]byte{1, 0}, enc([]*item{f}, false)...)
	g, err := pttbbs.UnmarshalFavFile(raw)
	vrt.Assert(err == nil && g.Folder.FavItems[0].Title() == h.BigU, "title-decoded")
	out, err := g.MarshalBinary()
	vrt.Assert(err == nil && string(out) == string(raw), "title-encoded")
}

// HFavCut: a favorites file cut short anywhere gives an error.
//
//verif:prop C05
func HFavCut() {
	sub := &item{typ: byte(vrt.Case("sub", 1, 3)), attr: vrt.U8("sa")}
	sub.data = vrt.Bytes("s", []int{12, 50, 1}[sub.typ-1], []int{12, 50, 1}[sub.typ-1], 0, 127)
	f := &item{typ: 2, attr: 1, data: h.Raw("f", 50, []h.Span{{Off: 1, N: 49}}), items: []*item{sub}}
	b := &item{typ: 1, attr: 1, data: vrt.Bytes("b", 12, 12, 0, 255)}
	l := &item{typ: 3, attr: 1, data: vrt.Bytes("l", 1, 1, 0, 255)}
	raw := append([]byte{3, 0}, enc([]*item{b, f, l}, false)...)
	full := len(raw)
	cut := vrt.Case("cut", 0, 145)
	vrt.Assume(cut < full)
	g, err := pttbbs.UnmarshalFavFile(raw[:cut])
	vrt.Assert(err != nil && g == nil, "cut-reported")
}

// HFavAny: any short byte sequence is parsed or refused, whatever it announces.
//
//verif:prop C05
func HFavAny() {
	nb := []int{0, 1, 2, 0xffff, 0xff01}[vrt.Case("nb", 0, 4)]
	nl := []int{0, 1, 255}[vrt.Case("nl", 0, 2)]
	nf := []int{0, 1, 255}[vrt.Case("nf", 0, 2)]
	n := vrt.Case("n", 0, vrt.Bound(20, 40))
	raw := []byte{vrt.U8("v0"), vrt.U8("v1"), byte(nb), byte(nb >> 8), byte(nl), byte(nf)}
	raw = append(raw, vrt.Bytes("r", n, n, 0, 127)...)
	f, err := pttbbs.UnmarshalFavFile(raw)
	vrt.Observe("err", err != nil)
	if err != nil {
		return
	}
	vrt.Assert(len(f.Folder.FavItems) == nb+nl+nf, "item-count")
	vrt.Assert(int(f.Folder.NBoards) == nb && int(f.Folder.NLines) == nl && int(f.Folder.NFolders) == nf, "counts")
	// what was parsed lies within what was given
	out, err := f.MarshalBinary()
	vrt.Assert(err == nil && len(out) <= len(raw), "round-trip-length")
	c := 6
	for _, it := range f.Folder.FavItems {
		vrt.Assert(raw[c] == byte(it.FavType) && raw[c+1] == it.FavAttr, "item-header")
		vrt.Assert(out[c] == raw[c] && out[c+1] == raw[c+1], "round-trip")
		switch it.FavType {
		case 1:
			vrt.Assert(it.GetBoard() != nil && it.GetBoard().BoardID == h.U32(raw, c+2), "board-number")
			c += 14
		case 2:
			vrt.Assert(it.GetFolder() != nil && it.GetFolder().ThisFolder != nil, "folder-parsed")
			c += 52
		case 3:
			vrt.Assert(it.GetLine() != nil, "line-parsed")
			c += 3
		default:
			vrt.Assert(false, "unknown-type-accepted")
		}
	}
}

// HFavMismatch: a header whose counts do not match the types of the items it announces.
//
//verif:prop C05
func HFavMismatch() {
	n := vrt.Case("n", 1, vrt.Bound(2, 3))
	nb := vrt.Case("nb", 0, n)
	nl := vrt.Case("nl", 0, n-nb)
	var items []*item
	raw := []byte{1, 0, byte(nb), 0, byte(nl), byte(n - nb - nl)}
	want := append([]byte{}, raw...)
	var tail []byte
	cl, cf := byte(0), byte(0)
	for i := 0; i < n; i++ {
		k := digit(i)
		it := &item{typ: byte(vrt.Case("t"+k, 1, 3)), attr: vrt.U8("a" + k)}
		items = append(items, it)
		switch it.typ {
		case 1:
			it.data = vrt.Bytes("b"+k, 12, 12, 0, 255)
			want = append(append(want, it.typ, it.attr), it.data...)
		case 2:
			it.data = append([]byte{vrt.U8("f" + k)}, make([]byte, 49)...)
			it.data[1] = vrt.U8R("f1"+k, 1, 127)
			cf++
			want = append(append(want, it.typ, it.attr, cf), it.data[1:]...)
			tail = append(tail, 0, 0, 1, 0, 3, vrt.U8("fa"+k), 1)
		case 3:
			it.data = vrt.Bytes("l"+k, 1, 1, 0, 255)
			cl++
			want = append(want, it.typ, it.attr, cl)
		}
		raw = append(append(raw, it.typ, it.attr), it.data...)
	}
	raw, want = append(raw, tail...), append(want, tail...)
	f, err := pttbbs.UnmarshalFavFile(raw)
	vrt.Observe("err", err != nil)
	if err != nil {
		return // such a file may be refused
	}
	vrt.Assert(len(f.Folder.FavItems) == n, "item-count")
	for i, it := range items {
		g := f.Folder.FavItems[i]
		vrt.Assert(byte(g.FavType) == it.typ && g.FavAttr == it.attr, "item-header")
		if it.typ == 2 {
			vrt.Assert(g.GetFolder() != nil && g.GetFolder().ThisFolder != nil, "folder-parsed")
			vrt.Assert(len(g.Records()) == 1 && g.Records()[0].Type() == bbs.FavoriteTypeLine, "folder-records")
		}
	}
	out, err := f.MarshalBinary()
	vrt.Assert(err == nil && string(out) == string(want), "round-trip")
}

// HFavTiny: files shorter than the fixed part are refused.
//
//verif:prop C05
func HFavTiny() {
	n := vrt.Case("n", 0, 5)
	f, err := pttbbs.UnmarshalFavFile(vrt.Bytes("r", n, n, 0, 255))
	vrt.Assert(err != nil && f == nil, "cut-reported")
}

const favPath = "/bbs/home/t/test/.fav"

// boards writes a board list with distinct names and returns the names.
func boards(n int) []string {
	var names []string
	var data []byte
	for i := 0; i < n; i++ {
		k := digit(i)
		nm := vrt.Str("brd"+k, 0, 2, 33, 126)
		names = append(names, nm)
		r := make([]byte, 256)
		copy(r, nm)
		data = append(data, r...)
	}
	vos.Put("/bbs/.BRD", data)
	return names
}

func named(g bbs.FavoriteRecord, it *item, names []string) {
	switch it.typ {
	case 1:
		id := h.U32(it.data, 0)
		want := ""
		for i, nm := range names {
			if id == uint32(i+1) {
				want = nm
			}
		}
		vrt.Assert(g.Type() == bbs.FavoriteTypeBoard && g.BoardID() == want, "board-named")
	case 2:
		vrt.Assert(g.Type() == bbs.FavoriteTypeFolder && g.Title() == h.Text(it.data, h.Span{Off: 1, N: 49}), "order-kept")
		rs := g.Records()
		vrt.Assert(len(rs) == len(it.items), "nesting-kept")
		for i, s := range it.items {
			named(rs[i], s, names)
		}
	case 3:
		vrt.Assert(g.Type() == bbs.FavoriteTypeLine, "order-kept")
	}
}

// HFavNames: every board entry, however deep, has the name of the board it designates.
//
//verif:prop C27
func HFavNames() {
	c := &pttbbs.Connector{}
	c.Open("file:///bbs")
	names := boards(vrt.Case("boards", 0, vrt.Bound(2, 3)))
	items := tree("", vrt.Bound(2, 3), 2)
	vos.Put(favPath, append([]byte{1, 0}, enc(items, false)...))
	rs, err := c.ReadUserFavoriteRecordsFile(favPath)
	vrt.Assert(err == nil, "reads")
	vrt.Assert(len(rs) == len(items), "nesting-kept")
	for i, it := range items {
		named(rs[i], it, names)
	}
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HFavErrors: only missing favorites are no favorites; every other failure is reported.
//
//verif:prop C27
func HFavErrors() {
	c := &pttbbs.Connector{}
	c.Open("file:///bbs")
	boards(1)
	it := &item{typ: 1, data: vrt.Bytes("b", 12, 12, 0, 255)}
	vos.PutDir("/bbs/home/t/test")
	have := vrt.Case("have", 0, 1) == 1
	if have {
		vos.Put(favPath, append([]byte{1, 0}, enc([]*item{it}, false)...))
	}
	k := vrt.Case("fail", 0, 6)
	n := 0
	fired := false
	hook := func(op string) error {
		n++
		if n == k {
			fired = true
			return syscall.EIO
		}
		return nil
	}
	vos.Before = func(op, p string) error {
		if op == "close" {
			return nil
		}
		return hook(op)
	}
	rd := vrt.Case("read", 0, 2)
	nr := 0
	vos.OnRead = func(p string, m int) (int, error) {
		nr++
		if nr == rd {
			fired = true
			return 0, syscall.EIO
		}
		return m, nil
	}
	rs, err := c.ReadUserFavoriteRecordsFile(favPath)
	vos.Before, vos.OnRead = nil, nil
	vrt.Observe("err", err != nil)
	if fired {
		vrt.Assert(err != nil, "failure-reported")
	} else {
		vrt.Assert(err == nil, "no-spurious-error")
		want := 0
		if have {
			want = 1
		}
		vrt.Assert(len(rs) == want, "missing-is-empty")
	}
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}
