package store

import (
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// HUpdateFar: updating a record so far behind the end that no file can reach it fails, and changes none of
// the records there are.
//
//verif:prop C09
func HUpdateFar() {
	var idx uint64
	if k := vrt.Case("bit", 0, 47); k < 47 {
		idx = 1<<uint(k+17) + uint64(vrt.Case("low", 0, 2))
	} else {
		idx = vrt.U64("index")
		vrt.Assume(idx >= 1<<18)
	}
	before := vrt.Bytes("p", 300, 300, 0, 255)
	vos.Put(path, before)
	f, _ := article("r")
	var err error
	vrt.NoPanic(func() { err = pttbbs.UpdateFileHeaderFileRecord(path, uint(idx), f) }, "no-crash")
	after, ok := vos.Get(path)
	vrt.Assert(ok && eq(after, before), "other-bytes-kept")
	vrt.Assert(err != nil, "failure-reported")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HRemoveFar: no number far out names a record.
//
//verif:prop C10
func HRemoveFar() {
	var idx int64
	if k := vrt.Case("bit", 0, 57); k < 57 {
		idx = (1<<uint(k+6) + int64(vrt.Case("low", -1, 1))) * int64(1-2*vrt.Case("neg", 0, 1))
	} else {
		idx = int64(vrt.U64("index"))
		vrt.Assume(idx < 0 || idx >= 3)
	}
	before := vrt.Bytes("p", 3*256, 3*256, 0, 255)
	vos.Put(path, before)
	var err error
	vrt.NoPanic(func() { err = pttbbs.RemoveBoardHeaderFileRecord(path, int(idx)) }, "no-crash")
	after, ok := vos.Get(path)
	vrt.Assert(ok && eq(after, before), "no-record-no-change")
	vrt.Assert(err != nil, "failure-reported")
}
