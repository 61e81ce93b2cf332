package store

import (
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// Files larger than any buffer: the content is a fixed pattern, only some records have symbolic bytes.

// number is an identifying text for record i.
func number(i int) []byte {
	return []byte{byte('A' + i/676%26), byte('A' + i/26%26), byte('A' + i%26)}
}

// pattern is n records of the given size with their numbers at off; the bytes at sym[i] are symbolic.
func pattern(n, size, off int, at ...int) []byte {
	b := make([]byte, n*size)
	for i := 0; i < n; i++ {
		copy(b[i*size+off:], number(i))
	}
	for k, i := range at {
		if i >= 0 && i < n {
			copy(b[i*size+off+3:], vrt.Bytes("s"+string(rune('0'+k)), 4, 4, 1, 127))
		}
	}
	return b
}

// HReadLarge: a record file of many records is read completely and in order.
//
//verif:prop C11
func HReadLarge() {
	k := vrt.Case("format", 0, 7)
	f := formats[k]
	n := []int{vrt.Bound(140, 700), vrt.Bound(270, 1400), vrt.Bound(530, 2800), vrt.Bound(270, 1400), vrt.Bound(20, 60),
		vrt.Bound(140, 700), vrt.Bound(270, 1400), vrt.Bound(530, 2800)}[k]
	data := pattern(n, f.size, f.texts[0].Off, 0, n/2, n-1)
	want := [][]byte{}
	for i := 0; i < n; i++ {
		want = append(want, f.image(data[i*f.size:(i+1)*f.size]))
	}
	vos.Put(path, data)
	vos.MaxOps = 20000
	got, err := f.read(path)
	vrt.Assert(err == nil, "no-spurious-error")
	vrt.Assert(len(got) == n, "record-count")
	for i := 0; i < n && i < len(got); i++ {
		vrt.Assert(eq(got[i], want[i]), "record-content")
	}
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HAppendLarge: appending to a large file adds one record at its end.
//
//verif:prop C08
func HAppendLarge() {
	kind := vrt.Case("kind", 0, 1)
	n := []int{31, 32, 127, 255, 256, 511, 600, 1100}[vrt.Case("records", 0, vrt.Bound(6, 7))]
	size := 128 << uint(kind)
	before := pattern(n, size, 0, 0, n-1)
	vos.Put(path, before)
	vos.MaxOps = 20000
	var err error
	var rec []byte
	if kind == 0 {
		f, b := article("r")
		rec, err = b, pttbbs.AppendFileHeaderFileRecord(path, f)
	} else {
		f, b := board("r")
		rec, err = b, pttbbs.AppendBoardHeaderFileRecord(path, f)
	}
	after, ok := vos.Get(path)
	vrt.Assert(err == nil && ok, "appends")
	vrt.Assert(eq(after, cat(before, rec)), "record-added-at-end")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// edges are record numbers around which counters, buffers and offsets could turn.
var edges = []int{0, 1, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 300, 511, 512, 599}

// HUpdateLarge: updating a record of a large file.
//
//verif:prop C09
func HUpdateLarge() {
	n := 600
	idx := edges[vrt.Case("index", 0, len(edges)-1)]
	before := pattern(n, 128, 0, idx-1, idx, idx+1)
	vos.Put(path, before)
	vos.MaxOps = 20000
	f, rec := article("r")
	err := pttbbs.UpdateFileHeaderFileRecord(path, uint(idx), f)
	after, ok := vos.Get(path)
	vrt.Assert(err == nil && ok, "updates")
	vrt.Assert(eq(after, cat(before[:128*idx], rec, before[128*idx+128:])), "other-bytes-kept")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HRemoveLarge: removing a record of a large file.
//
//verif:prop C10
func HRemoveLarge() {
	n := 600
	idx := edges[vrt.Case("index", 0, len(edges)-1)]
	before := pattern(n, 256, 0, idx-1, idx, idx+1)
	vos.Put(path, before)
	vos.MaxOps = 20000
	err := pttbbs.RemoveBoardHeaderFileRecord(path, idx)
	after, ok := vos.Get(path)
	vrt.Assert(err == nil && ok, "removes")
	vrt.Assert(eq(after, cat(before[:256*idx], before[256*idx+256:])), "exactly-that-record")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}

// HContentLarge: large articles and drafts are stored, extended, read and replaced exactly.
//
//verif:prop C12
func HContentLarge() {
	sizes := []int{511, 512, 1024, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 70000}
	had := []int{0, 100, 4096, 66000}[vrt.Case("prior", 0, 3)]
	n := sizes[vrt.Case("size", 0, len(sizes)-1)]
	op := vrt.Case("op", 0, 3)
	if op == 1 && had == 0 {
		return
	}
	old := make([]byte, had)
	if had > 0 {
		copy(old[had-4:], vrt.Bytes("old", 4, 4, 0, 255))
	}
	x := pattern(n/7+1, 7, 0, 0, n/14, n/7-1)[:n]
	vos.PutDir("/bbs/x")
	if had > 0 {
		vos.Put(path, old)
	}
	vos.MaxOps = 20000
	c := &pttbbs.Connector{}
	var err error
	want := x
	switch op {
	case 0:
		err = c.WriteBoardArticleFile(path, x)
	case 1:
		err = c.AppendBoardArticleFile(path, x)
		want = cat(old, x)
	case 2:
		err = c.WriteUserDraft(path, x)
	case 3:
		vos.Put(path, x)
	}
	after, ok := vos.Get(path)
	vrt.Assert(err == nil && ok && eq(after, want), "stored")
	got, err := c.ReadBoardArticleFile(path)
	vrt.Assert(err == nil && eq(got, want), "reads-what-is-stored")
	got, err = c.ReadUserDraft(path)
	vrt.Assert(err == nil && eq(got, want), "draft-reads-what-is-stored")
	vrt.Assert(vos.DescriptorsClosed(), "file-closed")
}
