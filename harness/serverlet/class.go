package main

import (
	"github.com/Ptt-official-app/go-bbs/zzverif/vhttp"
	"github.com/Ptt-official-app/go-bbs/zzverif/vjson"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HClass: no path of a class crashes its handler.
//
//verif:prop C34
func HClass() {
	vjson.Reset()
	n := vrt.Case("n", 0, vrt.Bound(5, 8))
	path := []string{"", "/v1/classes", "/v1/classes/"}[vrt.Case("base", 0, 2)] + string(vrt.Bytes("rest", n, n, 0, 255))
	w := &vhttp.Recorder{}
	vrt.NoPanic(func() { routeClass(w, vhttp.NewRequest([]string{"GET", "POST"}[vrt.Case("method", 0, 1)], path, nil, nil)) }, "no-crash")
}
