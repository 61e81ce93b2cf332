// Package h holds helpers shared by the harnesses.
package h

import (
	"fmt"

	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// Span is a run of bytes of a record.
type Span struct{ Off, N int }

// Raw is a record of n symbolic bytes; the spans hold text (0..127), the rest any byte.
func Raw(name string, n int, texts []Span) []byte {
	raw := make([]byte, 0, n)
	for k, s := range texts {
		if d := s.Off - len(raw); d > 0 {
			raw = append(raw, vrt.Bytes(fmt.Sprintf("%sg%d", name, k), d, d, 0, 255)...)
		}
		raw = append(raw, vrt.Bytes(fmt.Sprintf("%st%d", name, k), s.N, s.N, 0, 127)...)
	}
	if d := n - len(raw); d > 0 {
		raw = append(raw, vrt.Bytes(name+"z", d, d, 0, 255)...)
	}
	return raw
}

// Cstr is the text before the first NUL.
func Cstr(b []byte) string {
	for i := range b {
		if b[i] == 0 {
			return string(b[:i])
		}
	}
	return string(b)
}

// Text is the C string of a span.
func Text(raw []byte, s Span) string { return Cstr(raw[s.Off : s.Off+s.N]) }

// U16 reads a little-endian number.
func U16(b []byte, o int) uint16 { return uint16(b[o]) | uint16(b[o+1])<<8 }

// U32 reads a little-endian number.
func U32(b []byte, o int) uint32 {
	return uint32(b[o]) | uint32(b[o+1])<<8 | uint32(b[o+2])<<16 | uint32(b[o+3])<<24
}

// Canon is the record an encoder writes for what a decoder reads from raw: texts cut at their first
// NUL and padded with zeros, the bytes of the number spans as they are, bools 0 or 1, gaps zero.
func Canon(raw []byte, texts, nums []Span, bools []int) []byte {
	out := make([]byte, len(raw))
	for _, s := range texts {
		CanonText(out, raw, s)
	}
	for _, s := range nums {
		for i := s.Off; i < s.Off+s.N; i++ {
			out[i] = raw[i]
		}
	}
	for _, o := range bools {
		if raw[o] != 0 {
			out[o] = 1
		}
	}
	return out
}

// CanonText writes the canonical form of one text span.
func CanonText(out, raw []byte, s Span) {
	end := false
	for i := s.Off; i < s.Off+s.N; i++ {
		if raw[i] == 0 {
			end = true
		}
		if !end {
			out[i] = raw[i]
		}
	}
}

// Same asserts that the bytes of every span agree, one assertion per span.
func Same(got, want []byte, spans []Span, label string) {
	for _, s := range spans {
		vrt.Assert(string(got[s.Off:s.Off+s.N]) == string(want[s.Off:s.Off+s.N]), fmt.Sprintf("%s@%d", label, s.Off))
	}
}

// Gaps asserts that every byte outside the spans agrees.
func Gaps(got, want []byte, spans ...[]Span) {
	in := make([]bool, len(want))
	for _, l := range spans {
		for _, s := range l {
			for i := s.Off; i < s.Off+s.N; i++ {
				in[i] = true
			}
		}
	}
	ok := true
	for i := range want {
		if !in[i] && got[i] != want[i] {
			ok = false
		}
	}
	vrt.Assert(ok, "gaps-untouched")
}

// BigB and BigU are the same text in Big5 and in UTF-8.
const (
	BigB = "\xa4\xa4\xa4\xe5"
	BigU = "中文"
)

// Put overwrites a span's first bytes.
func Put(raw []byte, o int, s string) { copy(raw[o:], s) }
