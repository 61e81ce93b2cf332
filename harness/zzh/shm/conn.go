package shm

import (
	"strings"

	"github.com/Ptt-official-app/go-bbs/cache"
	"github.com/Ptt-official-app/go-bbs/zzverif/vos"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
	"github.com/Ptt-official-app/go-bbs/zzverif/vunix"
)

func noColon(s string) {
	for i := 0; i < len(s); i++ {
		vrt.Assume(s[i] != ':')
	}
}

// segment makes a System V segment with free content.
func segment(key int32, name string, n int) *vunix.Seg {
	s := &vunix.Seg{Key: key, Data: vrt.Bytes(name, n, n, 0, 255)}
	vunix.Segs = append(vunix.Segs, s)
	return s
}

func checkBytes(c cache.Cache, want []byte) bool {
	b := c.Bytes()
	vrt.Assert(len(b) == len(want), "segment-size")
	if len(b) != len(want) {
		return false
	}
	for i := range b {
		vrt.Assert(b[i] == want[i], "segment-content")
	}
	return true
}

// HConnFile: a path, alone or after file: (whatever it holds), opens that file as shared memory.
//
//verif:prop C26
func HConnFile() {
	form := vrt.Case("form", 0, 1)
	n := vrt.Case("n", 1, vrt.Bound(6, 12))
	name := vrt.Str("name", n, n, 1, 255)
	vrt.Assume(!strings.Contains(name, "/") && name != "." && name != "..")
	slashes := vrt.Case("slashes", 0, 2)
	path := []string{"/m/", "//m/", "/m//"}[slashes] + name
	if form == 0 {
		noColon(name)
	}
	vos.PutDir("/m")
	size := vrt.Case("size", 1, 3) * 4
	data := vrt.Bytes("data", size, size, 0, 255)
	// the model knows files by the names they were made with: both names of it stand for the file
	plain := "/m/" + name
	vos.Put(plain, data)
	if slashes != 0 {
		vos.Put(path, data)
	}
	segment(10, "other", 4)
	conn := path
	if form == 1 {
		conn = "file:" + path
	}
	c, err := cache.NewCache(conn)
	vrt.Assert(err == nil, "opens-the-file")
	if err != nil || !checkBytes(c, data) {
		return
	}
	vrt.Assert(len(vunix.Calls) == 0, "no-other-backend")
	v := vrt.U8("v")
	c.Bytes()[1] = v
	raw, _ := vos.Get(path)
	also, _ := vos.Get(plain)
	vrt.Assert(len(raw) == size && len(also) == size && raw[0] == data[0] && also[0] == data[0] && (raw[1] == v || also[1] == v), "shared-with-the-file")
	vrt.Assert(c.Close() == nil, "close")
	vrt.Assert(vunix.Mapped == 0 && vos.DescriptorsClosed(), "released")
	if slashes == 0 {
		vrt.Assert(vos.Count("/m") == 1, "no-other-file")
	}
}

// HConnMissing: a path without a file behind it is an error and stays without.
//
//verif:prop C26
func HConnMissing() {
	n := vrt.Case("n", 0, vrt.Bound(6, 12))
	name := vrt.Str("name", n, n, 33, 126)
	noColon(name)
	vrt.Assume(!strings.Contains(name, "/") && name != "." && name != ".." && name != "a")
	vos.Put("/m/a", []byte("abcd"))
	vos.Put("/m/empty", nil)
	prefix := []string{"", "file:"}[vrt.Case("form", 0, 1)]
	conn := prefix + "/m/" + name
	switch vrt.Case("which", 0, 3) {
	case 1:
		conn = prefix + "/m"
	case 2:
		conn = prefix + "/m/empty"
	case 3:
		conn = prefix
	}
	c, err := cache.NewCache(conn)
	vrt.Assert(err != nil, "error-without-the-file")
	_ = c
	vrt.Assert(vos.Count("/m") == 2, "no-file-made")
	vrt.Assert(len(vunix.Calls) == 0, "no-other-backend")
}

// HConnFaults: an operation that fails is reported.
//
//verif:prop C26
func HConnFaults() {
	vos.Put("/m/a", []byte("abcd"))
	at, k := vrt.Case("at", 1, 3), 0
	failed := false
	if at == 3 {
		vunix.MapFails = true
		failed = true
	}
	vos.Before = func(op, path string) error {
		if k++; k == at {
			failed = true
			return errFault
		}
		return nil
	}
	c, err := cache.NewCache([]string{"/m/a", "file:/m/a"}[vrt.Case("form", 0, 1)])
	vos.Before = nil
	vrt.Assert((err != nil) == failed, "failure-reported")
	if err == nil {
		checkBytes(c, []byte("abcd"))
	}
}

type fault struct{}

func (fault) Error() string { return "fault" }

var errFault error = fault{}

// HConnScheme: every other scheme is an error.
//
//verif:prop C26
func HConnScheme() {
	n := vrt.Case("n", 0, vrt.Bound(8, 12))
	s := vrt.Str("s", n, n, 0, 127)
	noColon(s)
	vrt.Assume(s != "file" && s != "shmkey")
	rest := []string{"", "10", "/m/a", "file:/m/a", "shmkey:10"}[vrt.Case("rest", 0, 4)]
	vos.Put("/m/a", []byte("abcd"))
	segment(10, "seg", 4)
	c, err := cache.NewCache(s + ":" + rest)
	vrt.Assert(err != nil && c == nil, "unknown-scheme-refused")
	vrt.Assert(len(vunix.Calls) == 0 && vunix.Mapped == 0 && vos.Opened == 0, "nothing-opened")
}

// number reads a decimal number with an optional sign.
func number(s string) (v int, ok bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + int(s[i]-'0')
	}
	if neg {
		v = -v
	}
	return v, true
}

// HConnKey: shmkey names a segment by its decimal key.
//
//verif:prop C26
func HConnKey() {
	n := vrt.Case("n", 0, vrt.Bound(4, 6))
	s := vrt.Str("key", n, n, 0, 127)
	k, ok := number(s)
	if vrt.Case("zero", 0, 1) == 1 {
		vrt.Assume(ok && k == 0)
	} else {
		vrt.Assume(!ok || k != 0)
	}
	segment(int32(k), "seg", 8)
	c, err := cache.NewCache("shmkey:" + s)
	if !ok {
		vrt.Assert(err != nil, "malformed-key-refused")
		vrt.Assert(len(vunix.Calls) == 0, "nothing-opened")
		return
	}
	vrt.Assert(len(vunix.Calls) > 0 && vunix.Calls[0].Name == "shmget" && int32(vunix.Calls[0].A) == int32(k), "named-segment")
	if k == 0 {
		vrt.Assert(err != nil, "the-key-of-no-segment")
		return
	}
	vrt.Assert(err == nil, "opens-the-segment")
	if err != nil || !checkBytes(c, vunix.Segs[0].Data) {
		return
	}
	v := vrt.U8("v")
	c.Bytes()[3] = v
	vrt.Assert(vunix.Segs[0].Data[3] == v, "shared-with-the-segment")
	vrt.Assert(len(vunix.Segs) == 1, "no-segment-made")
	vrt.Assert(c.Close() == nil, "close")
	vrt.Assert(vunix.Attached == 0, "released")
}

// HConnKeyRange: keys have 32 bits; a longer number names no segment.
//
//verif:prop C26
func HConnKeyRange() {
	big := []string{"4294967306", "-4294967286", "4294967296000000000010", "18446744073709551626", "8589934602", "1e1", "0x0a", " 10", "10 ", "1_0", "10:11", "10,10"}
	segment(10, "seg", 8)
	segment(0x7fffffff, "max", 4)
	_, err := cache.NewCache("shmkey:" + big[vrt.Case("big", 0, len(big)-1)])
	vrt.Assert(err != nil, "key-out-of-range-refused")
	c, err := cache.NewCache("shmkey:2147483647")
	vrt.Assert(err == nil, "largest-key")
	if err == nil {
		checkBytes(c, vunix.Segs[1].Data)
	}
}

// HConnKeyErrors: a missing segment and every failing call are reported, and no segment is made.
//
//verif:prop C26
func HConnKeyErrors() {
	segment(10, "seg", 8)
	vunix.Fail = vrt.Case("fail", 0, 4)
	key := []string{"10", "11"}[vrt.Case("which", 0, 1)]
	_, err := cache.NewCache("shmkey:" + key)
	vrt.Assert((err == nil) == (key == "10" && (vunix.Fail == 0 || vunix.Fail > len(vunix.Calls))), "failure-reported")
	vrt.Assert(len(vunix.Segs) == 1, "no-segment-made")
}
