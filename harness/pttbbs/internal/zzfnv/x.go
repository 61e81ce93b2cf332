package zzfnv

import (
	"encoding"

	"github.com/Ptt-official-app/go-bbs/pttbbs/internal/fnv"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

func ref(seed uint32, b []byte) uint32 {
	for _, c := range b {
		seed ^= uint32(c)
		seed *= 0x01000193
	}
	return seed
}

func same(s uint32, b []byte) bool {
	return len(b) == 4 && b[0] == byte(s>>24) && b[1] == byte(s>>16) && b[2] == byte(s>>8) && b[3] == byte(s)
}

// HHash: every seed, input and split into three writes.
//
//verif:prop C20
func HHash() {
	n := vrt.Case("n", 0, vrt.Bound(24, 96))
	a := vrt.Case("a", 0, 4)
	seed := vrt.U32("seed")
	if vrt.Case("ptt", 0, 1) == 1 {
		seed = fnv.PttFnv32Init
		vrt.Assert(seed == 33554467, "ptt-seed")
	}
	in := vrt.Bytes("in", n, n, 0, 255)
	keep := string(in)
	p, q := n*a/4, n-n*a/8
	if p > q {
		p = q
	}
	h := fnv.New32aWith(seed)
	vrt.Assert(h.Sum32() == seed, "starts-at-the-seed")
	for _, w := range [][]byte{in[:p], in[p:q], in[q:]} {
		k, err := h.Write(w)
		vrt.Assert(err == nil && k == len(w), "write-takes-all")
	}
	want := ref(seed, in)
	vrt.Assert(h.Sum32() == want, "hash-value")
	vrt.Assert(same(want, h.Sum(nil)), "hash-bytes")
	vrt.Assert(string(in) == keep, "argument-kept")
	pre := h.Sum([]byte("ab"))
	vrt.Assert(len(pre) == 6 && string(pre[:2]) == "ab" && same(want, pre[2:]), "sum-appends")
	vrt.Assert(h.Sum32() == want, "sum-changes-nothing")
	vrt.Assert(h.Size() == 4 && h.BlockSize() == 1, "sizes")
}

// HReset: a hash starts again at its own seed.
//
//verif:prop C20
func HReset() {
	n := vrt.Case("n", 0, vrt.Bound(8, 32))
	m := vrt.Case("m", 0, vrt.Bound(8, 32))
	seed := vrt.U32("seed")
	x, y := vrt.Bytes("x", n, n, 0, 255), vrt.Bytes("y", m, m, 0, 255)
	h := fnv.New32aWith(seed)
	h.Write(x)
	h.Reset()
	vrt.Assert(h.Sum32() == seed, "reset-restores-the-seed")
	h.Write(y)
	vrt.Assert(h.Sum32() == ref(seed, y), "value-after-reset")
}

// HState: a saved state continues in another hash, and two hashes are independent.
//
//verif:prop C20
func HState() {
	n := vrt.Case("n", 0, vrt.Bound(8, 32))
	m := vrt.Case("m", 0, vrt.Bound(8, 32))
	s1, s2 := vrt.U32("s1"), vrt.U32("s2")
	x, y := vrt.Bytes("x", n, n, 0, 255), vrt.Bytes("y", m, m, 0, 255)
	h, g := fnv.New32aWith(s1), fnv.New32aWith(s2)
	h.Write(x)
	vrt.Assert(g.Sum32() == s2, "independent")
	st, err := h.(encoding.BinaryMarshaler).MarshalBinary()
	vrt.Assert(err == nil, "state-saved")
	h.Write(y)
	g.Write(y)
	vrt.Assert(g.Sum32() == ref(s2, y), "independent")
	vrt.Assert(g.(encoding.BinaryUnmarshaler).UnmarshalBinary(st) == nil, "state-restored")
	vrt.Assert(g.Sum32() == ref(s1, x), "state-restored")
	g.Write(y)
	vrt.Assert(g.Sum32() == h.Sum32() && g.Sum32() == ref(ref(s1, x), y), "continues-from-the-state")
}

// HHashLong: long inputs, in one write and in two.
//
//verif:prop C20
func HHashLong() {
	n := []int{127, 128, 255, 256, 257, 1000, 4096, 4099, 65536, 70001}[vrt.Case("n", 0, vrt.Bound(7, 9))]
	cut := []int{0, 1, n / 2, n - 1}[vrt.Case("cut", 0, 3)]
	in := make([]byte, n)
	for i := range in {
		in[i] = byte(i * 7)
	}
	copy(in[n-4:], vrt.Bytes("in", 4, 4, 0, 255))
	h := fnv.New32aWith(fnv.PttFnv32Init)
	for _, w := range [][]byte{in[:cut], in[cut:]} {
		k, err := h.Write(w)
		vrt.Assert(err == nil && k == len(w), "write-takes-all")
	}
	vrt.Assert(h.Sum32() == ref(fnv.PttFnv32Init, in), "hash-value")
}

// HStateReset: a hash whose state was restored starts again at its own seed.
//
//verif:prop C20
func HStateReset() {
	n := vrt.Case("n", 0, vrt.Bound(4, 16))
	m := vrt.Case("m", 0, vrt.Bound(4, 16))
	s1, s2 := vrt.U32("s1"), vrt.U32("s2")
	if vrt.Case("one", 0, 1) == 1 {
		s2 = s1
	}
	x, y := vrt.Bytes("x", n, n, 0, 255), vrt.Bytes("y", m, m, 0, 255)
	h, g := fnv.New32aWith(s1), fnv.New32aWith(s2)
	h.Write(x)
	st, err := h.(encoding.BinaryMarshaler).MarshalBinary()
	vrt.Assert(err == nil, "state-saved")
	vrt.Assert(g.(encoding.BinaryUnmarshaler).UnmarshalBinary(st) == nil, "state-restored")
	g.Write(y)
	g.Reset()
	vrt.Assert(g.Sum32() == s2, "reset-restores-the-seed")
	g.Write(y)
	vrt.Assert(g.Sum32() == ref(s2, y), "value-after-reset")
	for i := range st {
		st[i] = 0
	}
	g.Reset()
	vrt.Assert(g.Sum32() == s2, "reset-restores-the-seed")
	vrt.Assert(h.Sum32() == ref(s1, x), "independent")
}
