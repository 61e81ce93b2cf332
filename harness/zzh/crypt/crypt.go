package crypt

import (
	"github.com/Ptt-official-app/go-bbs/crypt"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

const alphabet = "./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

// The tables of FIPS 46-3; positions count from 1, the most significant bit first.
var pc1 = []int{
	57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
	63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4,
}

var pc2 = []int{
	14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
	41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32,
}

var shifts = []int{1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1}

var expand = []int{
	32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17,
	16, 17, 18, 19, 20, 21, 20, 21, 22, 23, 24, 25, 24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1,
}

var sbox = [8][64]byte{
	{14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8,
		4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13},
	{15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5,
		0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9},
	{10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1,
		13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12},
	{7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9,
		10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14},
	{2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6,
		4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3},
	{12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8,
		9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13},
	{4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6,
		1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12},
	{13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2,
		7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11},
}

var perm = []int{
	16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10,
	2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25,
}

var final = []int{
	40, 8, 48, 16, 56, 24, 64, 32, 39, 7, 47, 15, 55, 23, 63, 31, 38, 6, 46, 14, 54, 22, 62, 30, 37, 5, 45, 13, 53, 21, 61, 29,
	36, 4, 44, 12, 52, 20, 60, 28, 35, 3, 43, 11, 51, 19, 59, 27, 34, 2, 42, 10, 50, 18, 58, 26, 33, 1, 41, 9, 49, 17, 57, 25,
}

// reference is the eleven characters of crypt(3) as Unix Version 7 made them: 25 encryptions of zero with
// DES, in whose expansion the bits of the salt swap the halves. key holds the seven bits of each character.
func reference(key [8]byte, salt [2]byte) (out [11]byte) {
	var k [64]byte // 0 or 1 each
	for i := 0; i < 8; i++ {
		for j := 0; j < 7; j++ {
			k[8*i+j] = key[i] >> uint(6-j) & 1
		}
	}
	var cd [56]byte
	for i, p := range pc1 {
		cd[i] = k[p-1]
	}
	var ks [16][48]byte
	for r, n := range shifts {
		for ; n > 0; n-- {
			c, d := cd[0], cd[28]
			copy(cd[0:27], cd[1:28])
			copy(cd[28:55], cd[29:56])
			cd[27], cd[55] = c, d
		}
		for i, p := range pc2 {
			ks[r][i] = cd[p-1]
		}
	}
	var swap [24]byte
	for i := 0; i < 2; i++ {
		for j := 0; j < 6; j++ {
			swap[6*i+j] = salt[i] >> uint(j) & 1
		}
	}
	var l, r [32]byte // IP of zero is zero, and IP undoes FP between the encryptions
	for n := 0; n < 25; n++ {
		for i := 0; i < 16; i++ {
			var e [48]byte
			for j, p := range expand {
				e[j] = r[p-1]
			}
			for j := 0; j < 24; j++ {
				x := swap[j] & (e[j] ^ e[j+24])
				e[j] ^= x
				e[j+24] ^= x
			}
			var f [32]byte
			for b := 0; b < 8; b++ {
				var x [6]byte
				for j := range x {
					x[j] = e[6*b+j] ^ ks[i][6*b+j]
				}
				v := sbox[b][x[0]<<5|x[5]<<4|x[1]<<3|x[2]<<2|x[3]<<1|x[4]]
				for j := 0; j < 4; j++ {
					f[4*b+j] = v >> uint(3-j) & 1
				}
			}
			nr := r
			for j, p := range perm {
				nr[j] = l[j] ^ f[p-1]
			}
			l, r = r, nr
		}
		l, r = r, l
	}
	var block [66]byte
	for i, p := range final {
		if p <= 32 {
			block[i] = l[p-1]
		} else {
			block[i] = r[p-33]
		}
	}
	for i := range out {
		v := byte(0)
		for j := 0; j < 6; j++ {
			v = v<<1 | block[6*i+j]
		}
		out[i] = alphabet[v]
	}
	return
}

// saltBits are the six bits a character of the salt stands for: the place of '.'..'9', 'A'..'Z' and 'a'..'z' in
// the alphabet, and for the few characters between those what Version 7 made of them. A zero byte counts as 'A',
// and what is outside of '.'..'z' as nothing.
var saltBits = func() (t [128]byte) {
	for c := byte('.'); c <= 'z'; c++ {
		v := c
		if v > 'Z' {
			v -= 6
		}
		if v > '9' {
			v -= 7
		}
		t[c] = (v - '.') & 0x3f
	}
	t[0] = t['A']
	return
}()

// HCrypt: every password of one to ten bytes, which a zero byte ends, and every salt.
//
//verif:prop C18
//verif:opts sweep=1 feassize=20000 assert=5 limit=800
func HCrypt() {
	n := vrt.Case("n", 1, 10)
	key := vrt.Bytes("key", n, n, 1, 255)
	if vrt.Case("tail", 0, 1) == 1 {
		vrt.Assume(n < 8 && (vrt.Thorough() || n%3 == 1))
		key = append(append(key, 0), vrt.Bytes("tail", 2, 2, 0, 255)...)
	}
	check(key, vrt.U8R("s0", 0, 127), vrt.U8R("s1", 0, 127))
}

// HEmpty: the empty password.
//
//verif:prop C18
//verif:opts sweep=1 feassize=20000 assert=5 limit=800
func HEmpty() {
	k := vrt.Case("s0", 0, vrt.Bound(7, 127))
	s0 := byte(k)
	if !vrt.Thorough() {
		s0 = ".9@Az~\x00\x7f"[k]
	}
	check(nil, s0, vrt.U8R("s1", 0, 127))
}

func check(key []byte, s0, s1 byte) {
	keep := string(key)
	rest := vrt.Bytes("rest", 0, 12, 0, 255)
	got, err := crypt.Fcrypt(key, append([]byte{s0, s1}, rest...))
	vrt.Assert(err == nil && len(got) == 14, "a-hash-of-fourteen-bytes")
	vrt.Assert(string(key) == keep, "argument-kept")
	var k [8]byte
	for i := 0; i < 8 && i < len(key) && key[i] != 0; i++ {
		k[i] = key[i] & 0x7f
	}
	want := reference(k, [2]byte{saltBits[s0], saltBits[s1]})
	var first [128]byte
	for i := range first {
		first[i] = byte(i)
	}
	first[0] = 'A'
	d := got[0] ^ first[s0] | got[1] ^ first[s1] | got[13]
	for i := range want {
		d |= got[2+i] ^ want[i]
	}
	vrt.Assert(d == 0, "the-hash-of-crypt")
}

// HSalt: a salt of any other length or with other bytes.
//
//verif:prop C18
func HSalt() {
	n := vrt.Case("n", 0, 4)
	salt := vrt.Bytes("salt", n, n, 0, 255)
	if n >= 2 {
		vrt.Assume(salt[0] > 127 || salt[1] > 127)
	}
	key := vrt.Bytes("key", 0, 4, 0, 255)
	got, err := crypt.Fcrypt(key, salt)
	vrt.Assert(err != nil && len(got) == 0, "a-bad-salt-is-an-error")
}

// HCryptTwice: a hash made before stays what it was when others are made, and the next is not touched by it.
//
//verif:prop C18
func HCryptTwice() {
	keys := []string{"", "a", "password", "\xffzzzzzzz", "pass"}
	key := []byte(keys[vrt.Case("key", 0, 4)])
	if len(key) == 8 {
		key = append(key, vrt.Bytes("behind", 2, 2, 0, 255)...) // does not count
	}
	other := []byte(keys[vrt.Case("other", 0, 4)])
	salts := []string{"ab", "Q/", "ab"}
	k := vrt.Case("salts", 0, 1)
	a, err := crypt.Fcrypt(key, []byte(salts[0]))
	vrt.Assert(err == nil && len(a) == 14, "a-hash-of-fourteen-bytes")
	keep := string(a)
	b, err := crypt.Fcrypt(other, []byte(salts[1+k]))
	vrt.Assert(err == nil && len(b) == 14, "a-hash-of-fourteen-bytes")
	vrt.Assert(string(a) == keep, "the-first-hash-is-kept")
	between := string(b)
	crypt.Fcrypt(other, []byte("?"))
	c, err := crypt.Fcrypt(key, []byte(salts[0]))
	vrt.Assert(err == nil && string(c) == keep, "the-same-again")
	vrt.Assert(string(b) == between, "the-second-hash-is-kept")
}
