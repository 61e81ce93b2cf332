package shm

import (
	"unsafe"

	"github.com/Ptt-official-app/go-bbs/cache"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
	"github.com/Ptt-official-app/go-bbs/zzverif/vunix"
)

// holds asserts that a segment has n bytes, all zero but the one at i, which is v.
func holds(b []byte, n, i int, v byte, label string) {
	vrt.Assert(len(b) == n, label+"-size")
	ok := len(b) == n
	for k := range b {
		w := byte(0)
		if k == i {
			w = v
		}
		ok = ok && b[k] == w
	}
	vrt.Assert(ok, label)
}

// HMapLife: a created file mapping is empty memory of the size asked for, shared with everybody who opens
// the file, and outlives its closing.
//
//verif:prop C33
func HMapLife() {
	vos.PutDir("/m")
	vos.Put("/m/other", []byte("other"))
	if vrt.Case("exists", 0, 1) == 1 {
		vos.Put("/m/a", vrt.Bytes("before", 0, 6, 0, 255))
	}
	n := vrt.Case("size", -1, vrt.Bound(6, 20))
	a, err := cache.CreateMmap("/m/a", int64(n))
	if n <= 0 {
		vrt.Assert(err != nil, "no-memory-of-that-size")
		vrt.Assert(vunix.Mapped == 0, "released")
		return
	}
	vrt.Assert(err == nil && a != nil, "creates")
	if err != nil {
		return
	}
	holds(a.Bytes(), n, -1, 0, "new-memory")
	i, v, w := vrt.Int("i", 0, n-1), vrt.U8("v"), vrt.U8("w")
	a.Bytes()[i] = v
	holds(a.Bytes(), n, i, v, "keeps-what-is-written")
	b, err := cache.OpenMmap("/m/a")
	vrt.Assert(err == nil && b != nil, "opens")
	if err != nil {
		return
	}
	holds(b.Bytes(), n, i, v, "shared")
	b.Bytes()[i] = w
	holds(a.Bytes(), n, i, w, "shared-back")
	vrt.Assert(a.Close() == nil, "close")
	holds(b.Bytes(), n, i, w, "others-go-on")
	vrt.Assert(b.Close() == nil, "close")
	vrt.Assert(vunix.Mapped == 0 && vos.DescriptorsClosed(), "released")
	b, err = cache.OpenMmap("/m/a")
	vrt.Assert(err == nil, "opens-again")
	if err != nil {
		return
	}
	holds(b.Bytes(), n, i, w, "outlives-closing")
	vrt.Assert(b.Close() == nil, "close")
	vrt.Assert(cache.RemoveMmap("/m/a") == nil && !vos.Has("/m/a"), "removes")
	vrt.Assert(cache.RemoveMmap("/m/a") != nil, "missing-reported")
	_, err = cache.OpenMmap("/m/a")
	vrt.Assert(err != nil, "gone")
	o, ok := vos.Get("/m/other")
	vrt.Assert(ok && string(o) == "other" && vos.Count("/m") == 1, "nothing-else-touched")
	vrt.Assert(len(vunix.Calls) == 0, "no-other-backend")
}

// HMapFaults: a failing call when a mapping is created is reported.
//
//verif:prop C33
func HMapFaults() {
	vos.PutDir("/m")
	at, k := vrt.Case("at", 1, 4), 0
	failed := false
	if at == 4 {
		vunix.MapFails = true
		failed = true
	}
	vos.Before = func(op, path string) error {
		if k++; k == at {
			failed = true
			return errFault
		}
		return nil
	}
	m, err := cache.CreateMmap("/m/a", 4)
	vos.Before = nil
	vrt.Assert((err != nil) == failed, "failure-reported")
	if failed {
		vrt.Assert(m == nil && vunix.Mapped == 0, "released")
	}
}

// HKeyLife: a created segment is empty memory of the size asked for, shared with everybody who opens its
// key, and outlives its closing.
//
//verif:prop C33
func HKeyLife() {
	key, other := int32(vrt.U32("key")), int32(vrt.U32("other"))
	vrt.Assume(key != 0 && other != 0 && key != other)
	o := segment(other, "otherdata", 2)
	n := vrt.Case("size", 1, vrt.Bound(6, 20))
	_, err := cache.OpenKey(int(key))
	vrt.Assert(err != nil && len(vunix.Segs) == 1, "opening-makes-none")
	vrt.Assert(cache.RemoveKey(int(key)) != nil, "missing-reported")
	a, err := cache.CreateKey(int(key), n)
	vrt.Assert(err == nil && a != nil, "creates")
	if err != nil {
		return
	}
	vrt.Assert(len(vunix.Segs) == 2 && vunix.Segs[1].Key == key && len(vunix.Segs[1].Data) == n, "segment-of-key")
	holds(a.Bytes(), n, -1, 0, "new-memory")
	i, v, w := vrt.Int("i", 0, n-1), vrt.U8("v"), vrt.U8("w")
	a.Bytes()[i] = v
	b, err := cache.OpenKey(int(key))
	if vrt.Case("again", 0, 1) == 1 {
		vrt.Assert(err == nil && b.Close() == nil, "opens")
		b, err = cache.CreateKey(int(key), n)
	}
	vrt.Assert(err == nil && b != nil, "opens")
	if err != nil {
		return
	}
	holds(b.Bytes(), n, i, v, "shared")
	b.Bytes()[i] = w
	holds(a.Bytes(), n, i, w, "shared-back")
	vrt.Assert(a.Close() == nil && b.Close() == nil && vunix.Attached == 0, "released")
	_, err = cache.CreateKey(int(key), n+1)
	vrt.Assert(err != nil, "too-small-reported")
	b, err = cache.OpenKey(int(key))
	vrt.Assert(err == nil, "opens-again")
	if err != nil {
		return
	}
	holds(b.Bytes(), n, i, w, "outlives-closing")
	vrt.Assert(b.Close() == nil, "close")
	vrt.Assert(cache.RemoveKey(int(key)) == nil, "removes")
	_, err = cache.OpenKey(int(key))
	vrt.Assert(err != nil, "gone")
	c, err := cache.OpenKey(int(other))
	vrt.Assert(err == nil && checkBytes(c, o.Data), "nothing-else-touched")
	vrt.Assert(len(vunix.Segs) == 2, "no-other-segment")
}

// HKeyFaults: every failing call is reported.
//
//verif:prop C33
func HKeyFaults() {
	segment(10, "seg", 4)
	vunix.Fail = vrt.Case("fail", 1, 4)
	var err error
	switch vrt.Case("op", 0, 3) {
	case 0:
		_, err = cache.CreateKey(11, 4)
	case 1:
		_, err = cache.CreateKey(10, 4)
	case 2:
		_, err = cache.OpenKey(10)
	case 3:
		err = cache.RemoveKey(10)
	}
	vrt.Assert((err != nil) == (vunix.Fail <= len(vunix.Calls)), "failure-reported")
	if vunix.Fail <= len(vunix.Calls) {
		vrt.Assert(vunix.Attached == 0, "not-attached")
	}
}

// HKeyClose: a failing detachment is reported.
//
//verif:prop C33
func HKeyClose() {
	segment(10, "seg", 4)
	s, err := cache.OpenKey(10)
	vrt.Assert(err == nil, "opens")
	if err != nil {
		return
	}
	vunix.Fail = len(vunix.Calls) + 1
	vrt.Assert(s.Close() != nil && vunix.Attached == 1, "failure-reported")
}

// HStatus: the kernel writes 112 bytes of status, with the size at byte 48.
//
//verif:prop C33
func HStatus() {
	var d cache.ShmidDs
	vrt.Assert(unsafe.Sizeof(d) >= 112, "status-fits")
	vrt.Assert(unsafe.Offsetof(d.ShmSegsz) == 48, "size-field")
}
