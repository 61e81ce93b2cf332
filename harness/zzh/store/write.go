package store

import (
	"syscall"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzh/h"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

const other = "/bbs/x/OTHER"

func article(name string) (*pttbbs.FileHeader, []byte) {
	f, err := pttbbs.NewFileHeaderWithByte(h.Raw(name, 128, []h.Span{{0, 28}, {34, 14}, {48, 6}, {54, 65}}))
	vrt.Assert(err == nil, "decodes")
	b, err := f.MarshalToByte()
	vrt.Assert(err == nil, "encodes")
	return f, b
}

func board(name string) (*pttbbs.BoardHeader, []byte) {
	f, err := pttbbs.UnmarshalBoardHeader(h.Raw(name, 256, []h.Span{{0, 13}, {13, 49}, {62, 39}, {108, 1}, {172, 33}, {205, 1}}))
	vrt.Assert(err == nil, "decodes")
	b, err := f.MarshalBinary()
	vrt.Assert(err == nil, "encodes")
	return f, b
}

// env is one environment of a write: a failing call, a failing or short write, or a second writer.
type env struct {
	fault       faults
	wkind       int // 1: the write fails; 2: the write stores a part and fails
	wfired      bool
	interfere   int // before this call another process appends x
	ifired      bool
	x           []byte
	kind, calls int
}

// setup installs environment number mode: 0 undisturbed, then failing calls, failing writes, interference.
func setup(mode int, x []byte) *env {
	e := &env{x: x}
	switch {
	case mode == 0:
	case mode <= 5:
		e.fault.k = mode
	case mode <= 7:
		e.wkind = mode - 5
	default:
		e.interfere = mode - 7
	}
	vos.MaxOps = 80
	vos.Before = func(op, p string) error {
		e.calls++
		if e.calls == e.interfere {
			e.ifired = true
			vos.Append(path, e.x)
		}
		return e.fault.before(op, p)
	}
	vos.OnWrite = func(p string, n int) (int, error) {
		switch e.wkind {
		case 1:
			e.wfired = true
			return 0, syscall.ENOSPC
		case 2:
			e.wfired = true
			return n / 2, syscall.ENOSPC
		}
		return n, nil
	}
	return e
}

const modes = 11 // 0 .. 11

func (e *env) failed() bool { return e.fault.fired || e.wfired }

func eq(a, b []byte) bool { return string(a) == string(b) }

func cat(l ...[]byte) []byte {
	out := []byte{}
	for _, x := range l {
		out = append(out, x...)
	}
	return out
}

// HAppend: appending a record keeps every byte, adds exactly that record at the end, and reports failures.
//
//verif:prop C08
func HAppend() {
	kind := vrt.Case("kind", 0, 3)
	mode := vrt.Case("mode", 0, modes)
	had := vrt.Case("prior", 0, 4)
	size := 128
	if kind%2 == 1 {
		size = 256
	}
	var before []byte
	vos.PutDir("/bbs/x")
	vos.Put(other, []byte("other"))
	if had > 0 {
		n := []int{0, size, 2 * size, 1, size + 7}[had]
		if had == 1 && mode == 0 && vrt.Thorough() {
			n = 4 * size
		}
		before = vrt.Bytes("p", n, n, 0, 255)
		vos.Put(path, before)
	}
	x := make([]byte, size)
	copy(x, vrt.Bytes("x", 8, 8, 0, 255))
	c := &pttbbs.Connector{}
	var call func() error
	var rec []byte
	if kind%2 == 0 {
		f, b := article("r")
		rec = b
		call = func() error { return pttbbs.AppendFileHeaderFileRecord(path, f) }
		if kind == 2 {
			call = func() error { return c.AddArticleRecordFileRecord(path, f) }
		}
	} else {
		f, b := board("r")
		rec = b
		call = func() error { return pttbbs.AppendBoardHeaderFileRecord(path, f) }
		if kind == 3 {
			call = func() error { return c.AddBoardRecordFileRecord(path, f) }
		}
	}
	e := setup(mode, x)
	err := call()
	vos.Before, vos.OnWrite = nil, nil
	after, ok := vos.Get(path)
	vrt.Observe("err", err != nil)
	vrt.Observe("len", len(after))
	if e.failed() {
		vrt.Assert(err != nil, "failure-reported")
		vrt.Assert(!ok || len(after) >= len(before) && eq(after[:len(before)], before), "existing-bytes-kept")
	} else if e.ifired {
		vrt.Assert(err == nil, "appends")
		vrt.Assert(eq(after, cat(before, rec, x)) || eq(after, cat(before, x, rec)), "both-records-survive")
	} else {
		vrt.Assert(err == nil && ok, "appends")
		vrt.Assert(eq(after, cat(before, rec)), "record-added-at-end")
	}
	o, ok := vos.Get(other)
	vrt.Assert(ok && string(o) == "other" && vos.Count("/bbs/x") <= 2, "nothing-else-touched")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HUpdate: updating a record replaces that record's bytes and no other byte, and reports failures.
//
//verif:prop C09
func HUpdate() {
	via := vrt.Case("via", 0, 1)
	mode := vrt.Case("mode", 0, 7)
	n := vrt.Case("records", 1, vrt.Bound(3, 6))
	tail := vrt.Case("tail", 0, 1) * 5
	idx := vrt.Case("index", 0, vrt.Bound(3, 6))
	if idx >= n {
		return
	}
	before := vrt.Bytes("p", n*128+tail, n*128+tail, 0, 255)
	vos.Put(path, before)
	vos.Put(other, []byte("other"))
	f, rec := article("r")
	e := setup(mode, nil)
	var err error
	if via == 0 {
		err = pttbbs.UpdateFileHeaderFileRecord(path, uint(idx), f)
	} else {
		err = (&pttbbs.Connector{}).UpdateArticleRecordFileRecord(path, uint(idx), f)
	}
	vos.Before, vos.OnWrite = nil, nil
	after, ok := vos.Get(path)
	vrt.Observe("err", err != nil)
	vrt.Observe("len", len(after))
	vrt.Assert(ok && len(after) == len(before), "length-kept")
	vrt.Assert(eq(after[:128*idx], before[:128*idx]) && eq(after[128*idx+128:], before[128*idx+128:]), "other-bytes-kept")
	if e.failed() {
		vrt.Assert(err != nil, "failure-reported")
	} else {
		vrt.Assert(err == nil, "updates")
		vrt.Assert(eq(after[128*idx:128*idx+128], rec), "record-replaced")
	}
	o, ok := vos.Get(other)
	vrt.Assert(ok && string(o) == "other" && vos.Count("/bbs/x") == 2, "nothing-else-touched")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HUpdateMissing: updating a record of a missing file is an error and creates nothing.
//
//verif:prop C09
func HUpdateMissing() {
	vos.PutDir("/bbs/x")
	f, _ := article("r")
	err := pttbbs.UpdateFileHeaderFileRecord(path, uint(vrt.Case("index", 0, 2)), f)
	vrt.Assert(err != nil && !vos.Has(path), "missing-file-reported")
}

// HRemove: removing a record drops exactly it; an index of no record changes nothing.
//
//verif:prop C10
func HRemove() {
	n := vrt.Case("records", 0, vrt.Bound(3, 6))
	idx := vrt.Case("index", -2, vrt.Bound(5, 8))
	mode := vrt.Case("mode", 0, 5)
	before := vrt.Bytes("p", n*256, n*256, 0, 255)
	vos.Put(path, before)
	vos.Put(other, []byte("other"))
	e := setup(mode, nil)
	if idx >= 0 && idx < n && mode > 0 {
		// an undisturbed run tells how many calls there are; every one of them fails in turn
		e.fault.k = vrt.Case("call", 1, 14)
		if mode > 1 {
			return
		}
	}
	err := pttbbs.RemoveBoardHeaderFileRecord(path, idx)
	vos.Before, vos.OnWrite = nil, nil
	after, ok := vos.Get(path)
	vrt.Observe("err", err != nil)
	vrt.Observe("len", len(after))
	switch {
	case idx < 0 || idx >= n:
		vrt.Assert(ok && eq(after, before), "no-record-no-change")
		vrt.Assert(err != nil || !e.failed(), "failure-reported")
	case e.failed():
		vrt.Assert(err != nil, "failure-reported")
		vrt.Assert(ok && len(after) >= 256*idx && eq(after[:256*idx], before[:256*idx]), "earlier-records-kept")
	default:
		vrt.Assert(err == nil, "removes")
		vrt.Assert(eq(after, cat(before[:256*idx], before[256*idx+256:])), "exactly-that-record")
	}
	o, ok := vos.Get(other)
	vrt.Assert(ok && string(o) == "other" && vos.Count("/bbs/x") == 2, "nothing-else-touched")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}
