package fav

import (
	"strconv"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

func plain(typ, i int) *item {
	it := &item{typ: byte(typ), attr: byte(i)}
	switch typ {
	case 1:
		it.data = make([]byte, 12)
		it.data[0], it.data[1], it.data[5] = byte(i), byte(i>>8), byte(i)
	case 2:
		it.data = make([]byte, 50)
		it.data[0] = byte(i + 1)
		copy(it.data[1:], "f"+strconv.Itoa(i))
	case 3:
		it.data = []byte{byte(i)}
	}
	return it
}

// large is a tree of one of several large shapes with a few free bytes. With last set the free board
// numbers are those around it.
func large(shape, last int) []*item {
	var items []*item
	free := func(nm string) *item {
		it := plain(1, 1)
		it.data = vrt.Bytes(nm, 12, 12, 0, 255)
		if last > 0 {
			k := vrt.Int(nm+"n", last-3, last+3)
			it.data[0], it.data[1], it.data[2], it.data[3] = byte(k), byte(k>>8), 0, 0
		}
		return it
	}
	switch shape {
	case 0, 1: // many boards, more than a byte can count
		n := []int{300, 1024}[shape]
		for i := 0; i < n; i++ {
			items = append(items, plain(1, i))
		}
		items[n/2], items[n-1] = free("x"), free("y")
	case 2: // as many folders as can be counted, the last ones holding something
		for i := 0; i < 255; i++ {
			items = append(items, plain(2, i))
		}
		items[0].items = []*item{free("x")}
		items[128].items = []*item{plain(3, 1), plain(1, 2)}
		items[254].items = []*item{free("y"), plain(3, 1)}
	case 3: // as many lines
		for i := 0; i < 255; i++ {
			items = append(items, plain(3, i))
		}
		items = append(items, free("x"))
	case 4, 5: // deep
		items = []*item{free("x")}
		for i := 0; i < []int{12, 64}[shape-4]; i++ {
			f := plain(2, i)
			f.items = items
			items = []*item{plain(1, i), f, plain(3, i)}
		}
	case 7: // more than a thousand, then more than two bytes can count
		n := vrt.Bound(2500, 9000)
		for i := 0; i < n; i++ {
			items = append(items, plain(1, i))
		}
		items[n-1] = free("y")
	case 6: // all kinds interleaved
		for i := 0; i < 150; i++ {
			f := plain(2, i)
			f.items = []*item{plain(1, i), plain(2, 0)}
			items = append(items, plain(1, i), plain(3, i), f)
		}
		items[100] = free("x")
	}
	return items
}

// HFavLarge: large favorites, wide and deep.
//
//verif:prop C05
func HFavLarge() {
	items := large(vrt.Case("shape", 0, 7), 0)
	raw := append([]byte{1, 0}, enc(items, false)...)
	f, err := pttbbs.UnmarshalFavFile(raw)
	vrt.Assert(err == nil, "parses")
	check(f.Folder, items)
	out, err := f.MarshalBinary()
	vrt.Assert(err == nil, "encodes")
	want := append([]byte{1, 0}, enc(items, true)...)
	vrt.Assert(string(out) == string(want), "round-trip")
}

// HFavNamesLarge: every board of large favorites is named, among many boards.
//
//verif:prop C27
func HFavNamesLarge() {
	c := &pttbbs.Connector{}
	c.Open("file:///bbs")
	n := []int{70, 600}[vrt.Case("boards", 0, 1)]
	var names []string
	data := make([]byte, n*256)
	for i := 0; i < n; i++ {
		names = append(names, "b"+strconv.Itoa(i))
		copy(data[i*256:], names[i])
	}
	vos.Put("/bbs/.BRD", data)
	last := 0
	if n > 100 {
		last = n
	}
	items := large(vrt.Case("shape", 0, 7), last)
	vos.Put(favPath, append([]byte{1, 0}, enc(items, false)...))
	vos.MaxOps = 20000
	rs, err := c.ReadUserFavoriteRecordsFile(favPath)
	vrt.Assert(err == nil, "reads")
	vrt.Assert(len(rs) == len(items), "nesting-kept")
	for i, it := range items {
		named(rs[i], it, names)
	}
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

