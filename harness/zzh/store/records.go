// Package store holds the checks of the record and article files.
package store

import (
	"syscall"

	formosa "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzh/h"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

const path = "/bbs/x/FILE"

// faults makes the k-th system call (counted from 1) fail with EIO and tells whether it happened.
type faults struct {
	k, n  int
	fired bool
	op    string
}

func (f *faults) before(op, p string) error {
	f.n++
	if f.n == f.k {
		f.fired = true
		f.op = op
		return syscall.EIO
	}
	return nil
}

// reads drives the results of file reads: full ones, short ones and failing ones.
type reads struct {
	kind, k, n int // kind 0: full; 1: the k-th read is short; 2: the k-th read fails; 3: every read from the k-th on fails
	fired      bool
}

func (r *reads) on(p string, n int) (int, error) {
	r.n++
	if r.n == r.k && r.kind == 1 && n > 1 {
		return n / 2, nil
	}
	if r.n == r.k && r.kind == 2 || r.n >= r.k && r.kind == 3 {
		r.fired = true
		return 0, syscall.EIO
	}
	return n, nil
}

type format struct {
	size  int
	texts []h.Span
	// read opens the file and returns the re-encoded records (or an image of each).
	read func(p string) ([][]byte, error)
	// image is what read returns for one record.
	image func(raw []byte) []byte
}

func usr(u *pttbbs.Userec) []byte { b, _ := u.MarshalBinary(); return b }
func brd(u *pttbbs.BoardHeader) []byte {
	b, _ := u.MarshalBinary()
	return b
}
func fil(u *pttbbs.FileHeader) []byte { b, _ := u.MarshalToByte(); return b }
func frm(f *formosa.FileHeader) []byte {
	return []byte(f.Filename + "|" + f.Owner + "|" + f.Title + "|" + string([]byte{byte(f.Postno), byte(f.Postno >> 8), byte(f.Modified.Unix())}))
}

var formats = []format{
	{512, []h.Span{{4, 13}}, func(p string) ([][]byte, error) {
		l, err := pttbbs.OpenUserecFile(p)
		out := [][]byte{}
		for _, x := range l {
			out = append(out, usr(x))
		}
		return out, err
	}, func(raw []byte) []byte { u, _ := pttbbs.UnmarshalUserec(raw); return usr(u) }},
	{256, []h.Span{{0, 13}}, func(p string) ([][]byte, error) {
		l, err := pttbbs.OpenBoardHeaderFile(p)
		out := [][]byte{}
		for _, x := range l {
			out = append(out, brd(x))
		}
		return out, err
	}, func(raw []byte) []byte { u, _ := pttbbs.UnmarshalBoardHeader(raw); return brd(u) }},
	{128, []h.Span{{0, 28}}, func(p string) ([][]byte, error) {
		l, err := pttbbs.OpenFileHeaderFile(p)
		out := [][]byte{}
		for _, x := range l {
			out = append(out, fil(x))
		}
		return out, err
	}, func(raw []byte) []byte { u, _ := pttbbs.NewFileHeaderWithByte(raw); return fil(u) }},
	{248, []h.Span{{0, 44}}, func(p string) ([][]byte, error) {
		l, err := formosa.OpenFormosaBBSFileHeaderFile(p)
		out := [][]byte{}
		for _, x := range l {
			out = append(out, frm(x))
		}
		return out, err
	}, func(raw []byte) []byte { u, _ := formosa.NewFomosaBBSFileHeaderWithByte(raw); return frm(u) }},
	{3484, []h.Span{{16, 13}}, func(p string) ([][]byte, error) {
		l, err := pttbbs.OpenUserInfoCache(p)
		out := [][]byte{}
		for _, x := range l {
			out = append(out, x.MarshalBinary())
		}
		return out, err
	}, func(raw []byte) []byte { return pttbbs.UnmarshalUserInfo(raw).MarshalBinary() }},
	// the same through the driver
	{512, []h.Span{{4, 13}}, func(p string) ([][]byte, error) {
		l, err := (&pttbbs.Connector{}).ReadUserRecordsFile(p)
		out := [][]byte{}
		for _, x := range l {
			out = append(out, usr(x.(*pttbbs.Userec)))
		}
		return out, err
	}, func(raw []byte) []byte { u, _ := pttbbs.UnmarshalUserec(raw); return usr(u) }},
	{256, []h.Span{{0, 13}}, func(p string) ([][]byte, error) {
		l, err := (&pttbbs.Connector{}).ReadBoardRecordsFile(p)
		out := [][]byte{}
		for _, x := range l {
			out = append(out, brd(x.(*pttbbs.BoardHeader)))
		}
		return out, err
	}, func(raw []byte) []byte { u, _ := pttbbs.UnmarshalBoardHeader(raw); return brd(u) }},
	{128, []h.Span{{0, 28}}, func(p string) ([][]byte, error) {
		l, err := (&pttbbs.Connector{}).ReadArticleRecordsFile(p)
		out := [][]byte{}
		for _, x := range l {
			out = append(out, fil(x.(*pttbbs.FileHeader)))
		}
		return out, err
	}, func(raw []byte) []byte { u, _ := pttbbs.NewFileHeaderWithByte(raw); return fil(u) }},
}

// rec is a record whose identifying text and a few more bytes are symbolic.
func rec(name string, f format) []byte {
	raw := make([]byte, f.size)
	for i, s := range f.texts {
		copy(raw[s.Off:], vrt.Bytes(name+string(rune('a'+i)), s.N, s.N, 0, 127))
	}
	copy(raw[72:], vrt.Bytes(name+"z", 4, 4, 0, 127))
	return raw
}

// HReadRecords: reading a record file gives exactly its records in order, or an error, and always ends.
//
//verif:prop C11
func HReadRecords() {
	f := formats[vrt.Case("format", 0, 7)]
	n := vrt.Case("records", 0, vrt.Bound(2, 4))
	// modes 0..2: intact reads of a file ending in 0, 1 or all but one bytes of a further record;
	// beyond: the k-th read is short, fails, or fails for good.
	mode := vrt.Case("mode", 0, 2+3*vrt.Bound(4, 6))
	tail := 0
	rd := &reads{}
	if mode <= 2 {
		tail = []int{0, 1, f.size - 1}[mode]
	} else {
		rd.kind, rd.k = 1+(mode-3)%3, 1+(mode-3)/3
	}
	data := []byte{}
	want := [][]byte{}
	for i := 0; i < n; i++ {
		r := rec("r"+string(rune('0'+i)), f)
		want = append(want, f.image(r))
		data = append(data, r...)
	}
	data = append(data, vrt.Bytes("tail", tail, tail, 1, 127)...)
	vos.Put(path, data)
	vos.MaxOps = 60
	vos.OnRead = rd.on
	got, err := f.read(path)
	vrt.Observe("err", err != nil)
	vrt.Observe("n", len(got))
	if rd.fired {
		vrt.Assert(err != nil, "read-failure-reported")
	} else if err != nil {
		vrt.Assert(tail != 0, "no-spurious-error")
	}
	if err == nil {
		vrt.Assert(len(got) == n, "record-count")
		for i := 0; i < n && i < len(got); i++ {
			vrt.Assert(string(got[i]) == string(want[i]), "record-content")
		}
	}
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HReadMissing: a missing or unreadable record file is an error.
//
//verif:prop C11
func HReadMissing() {
	f := formats[vrt.Case("format", 0, 7)]
	kind := vrt.Case("kind", 0, 1)
	vos.PutDir("/bbs/x")
	if kind == 1 {
		vos.Put(path, make([]byte, f.size))
		fl := &faults{k: 1}
		vos.Before = fl.before
	}
	vos.MaxOps = 60
	got, err := f.read(path)
	vrt.Assert(err != nil && len(got) == 0, "missing-file-reported")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}
