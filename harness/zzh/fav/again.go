package fav

import (
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HFavNamesAgain: the boards are named as they are called now, not as they were when favorites were read before.
//
//verif:prop C27
func HFavNamesAgain() {
	c := &pttbbs.Connector{}
	c.Open("file:///bbs")
	for k := 0; k < 3; k++ {
		var names []string
		var data []byte
		for i := vrt.Case("boards"+digit(k%2), 0, 2); i > 0; i-- {
			nm := vrt.Str("brd"+digit(k)+digit(i), 2, 2, 33, 126)
			names = append(names, nm)
			r := make([]byte, 256)
			copy(r, nm)
			data = append(data, r...)
		}
		vos.Put("/bbs/.BRD", data)
		var items []*item
		for i := vrt.Case("items"+digit(k%2), 0, 2); i > 0; i-- {
			items = append(items, &item{typ: 1, data: vrt.Bytes("b"+digit(k)+digit(i), 12, 12, 0, 255)})
		}
		vos.Put(favPath, append([]byte{1, 0}, enc(items, false)...))
		rs, err := c.ReadUserFavoriteRecordsFile(favPath)
		vrt.Assert(err == nil, "reads")
		vrt.Assert(len(rs) == len(items), "as-many-as-now")
		if len(rs) != len(items) {
			return
		}
		for i, it := range items {
			named(rs[i], it, names)
		}
	}
}
