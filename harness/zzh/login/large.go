package login

import (
	"strconv"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HLoginsLarge: histories of many lines, and of long ones.
//
//verif:prop C07
func HLoginsLarge() {
	n := []int{10, 99, 300, 1200}[vrt.Case("lines", 0, 3)]
	long := []string{"", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"}[vrt.Case("long", 0, 1)]
	recent := vrt.Case("recent", 0, 1) == 1
	host := "h" + string(vrt.Bytes("h", 2, 2, 48, 126))
	id := "u" + string(vrt.Bytes("u", 2, 2, 48, 126))
	hosts, ids := make([]string, n), make([]string, n)
	var text []byte
	for i := 0; i < n; i++ {
		hosts[i], ids[i] = "h"+strconv.Itoa(i)+long, "u"+strconv.Itoa(i)
		if i == n/2 || i == n-1 {
			hosts[i], ids[i] = host, id
		}
		c := clock[:17] + two(i%60)
		if recent {
			text = append(text, c+" "+hosts[i]+" \n"...)
		} else {
			text = append(text, line(1+i%2, ids[i], c, hosts[i])+"\n"...)
		}
	}
	vos.Put(path, text)
	vos.MaxOps = 20000
	if recent {
		got, err := pttbbs.OpenLoginRecentFile(path)
		vrt.Assert(err == nil, "no-spurious-error")
		vrt.Assert(len(got) == n, "one-entry-per-line")
		for i := range got {
			vrt.Assert(got[i].FromHost == hosts[i] && got[i].LoginStartTime.Second() == i%60, "entries-in-order")
		}
	} else {
		got, err := pttbbs.OpenBadLoginFile(path)
		vrt.Assert(err == nil, "no-spurious-error")
		vrt.Assert(len(got) == n, "one-entry-per-line")
		for i := range got {
			vrt.Assert(got[i].UserID == ids[i] && got[i].FromHost == hosts[i] && got[i].Success == (i%2 == 0), "entries-in-order")
			vrt.Assert(got[i].LoginStartTime.Second() == i%60, "times-in-order")
		}
	}
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}
