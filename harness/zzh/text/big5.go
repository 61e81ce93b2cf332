package text

import (
	"strings"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
	"golang.org/x/text/encoding/traditionalchinese"
)

// HAsciiText: ASCII is the same in both encodings.
//
//verif:prop C22
func HAsciiText() {
	n := vrt.Case("n", 0, vrt.Bound(40, 130))
	b := vrt.Bytes("s", n, n, 0, 127)
	s := string(b)
	u := bbs.Big5ToUtf8(b)
	vrt.Assert(u == s, "ascii-decoded")
	vrt.Assert(string(bbs.Utf8ToBig5(s)) == s, "ascii-encoded")
	vrt.Assert(string(b) == s, "argument-kept")
}

// HBig5Code: every two-byte code, alone and between other text.
//
//verif:prop C22
func HBig5Code() {
	pre := []string{"", "a", "\xa4\xa4", "x\xa4\xe5-"}[vrt.Case("pre", 0, 3)]
	post := []string{"", "z", "\xa4\xe5", "]\xa4\xa4."}[vrt.Case("post", 0, 3)]
	code := []byte{byte(vrt.Case("lead", 0x80, 0xff)), vrt.U8("trail")}
	raw := append(append([]byte(pre), code...), post...)
	keep := string(raw)
	want, err := traditionalchinese.Big5.NewDecoder().Bytes(raw)
	vrt.Assume(err == nil)
	u := bbs.Big5ToUtf8(raw)
	vrt.Assert(u == string(want), "decoded")
	vrt.Assert(string(raw) == keep, "argument-kept")
	enc, err := traditionalchinese.Big5.NewEncoder().Bytes(want)
	if err != nil {
		return // not every character can be written
	}
	b := bbs.Utf8ToBig5(u)
	vrt.Assert(string(b) == string(enc), "encoded")
	vrt.Assert(bbs.Big5ToUtf8(b) == u, "round-trip")
}

// HUnicode: every character of the basic plane which Big5 has.
//
//verif:prop C22
func HUnicode() {
	hi, lo := vrt.Case("hi", 0, 0xff), vrt.U8("lo")
	var u string
	switch {
	case hi == 0:
		vrt.Assume(lo >= 0x80)
		u = string([]byte{0xc0 | lo>>6, 0x80 | lo&0x3f})
	case hi < 8:
		u = string([]byte{0xc0 | byte(hi)<<2 | lo>>6, 0x80 | lo&0x3f})
	default:
		u = string([]byte{0xe0 | byte(hi)>>4, 0x80 | byte(hi&0xf)<<2 | lo>>6, 0x80 | lo&0x3f})
	}
	u = "a" + u + "z"
	enc, err := traditionalchinese.Big5.NewEncoder().Bytes([]byte(u))
	if err != nil {
		return
	}
	b := bbs.Utf8ToBig5(u)
	vrt.Assert(string(b) == string(enc), "encoded")
	dec, err := traditionalchinese.Big5.NewDecoder().Bytes(enc)
	vrt.Assume(err == nil)
	vrt.Assert(bbs.Big5ToUtf8(b) == string(dec), "decoded")
}

// HLongText: conversion does not depend on the length.
//
//verif:prop C22
func HLongText() {
	n := []int{500, 1000, 2100, 4200, 20000}[vrt.Case("n", 0, vrt.Bound(3, 4))]
	b := append([]byte(strings.Repeat("\xa4\xa4", n)), 0xa4, vrt.U8R("trail", 0x40, 0x7e))
	want, err := traditionalchinese.Big5.NewDecoder().Bytes(b)
	vrt.Assume(err == nil)
	u := bbs.Big5ToUtf8(b)
	vrt.Assert(u == string(want), "decoded")
	vrt.Assert(string(bbs.Utf8ToBig5(u)) == string(b), "round-trip")
}

// HCstr: a C string ends at its first NUL.
//
//verif:prop C22
func HCstr() {
	n := vrt.Case("n", 0, vrt.Bound(24, 64))
	b := vrt.Bytes("s", n, n, 0, 255)
	keep := string(b)
	end := n
	for i := range b {
		if b[i] == 0 {
			end = i
			break
		}
	}
	got := bbs.CstrToBytes(b)
	vrt.Assert(len(got) == end, "cstr-length")
	vrt.Assert(string(got) == keep[:end], "cstr-bytes")
	vrt.Assert(bbs.CstrToString(b) == keep[:end], "cstr-string")
	vrt.Assert(string(b) == keep, "argument-kept")
}

// HCstrNil: no bytes at all.
//
//verif:prop C22
func HCstrNil() {
	vrt.Assert(len(bbs.CstrToBytes(nil)) == 0 && bbs.CstrToString(nil) == "", "cstr-nil")
}
