// Package text checks text filters and conversions.
package text

import (
	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

func digit(c byte) bool { return c >= '0' && c <= '9' }
func alnum(c byte) bool { return digit(c) || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func prefix(c byte) bool {
	return c == '[' || c == ']' || c == '(' || c == ')' || c == '#' || c == ';' || c == '?'
}
func final(c byte) bool {
	return digit(c) || c >= 'A' && c <= 'P' || c == 'R' || c == 'Z' || c == 'c' || c >= 'f' && c <= 'n' ||
		c == 'q' || c == 'r' || c == 't' || c == 'y' || c == '=' || c == '>' || c == '<' || c == '~'
}

// sequence gives the length of the control sequence which follows an introducer at the start of s, or -1:
// any of []()#;? and then either letters, digits and semicolons up to a BEL, or parameters (up to four
// digits each, the first not empty, separated by semicolons) and a final character. When no final
// character follows the parameters their last digit is the final character.
func sequence(s string) int {
	i := 0
	for i < len(s) && prefix(s[i]) {
		i++
	}
	j := i
	for j < len(s) && (alnum(s[j]) || s[j] == ';') {
		j++
	}
	if j < len(s) && s[j] == 7 {
		return j + 1
	}
	last, k := -1, i // the end of the last digit, the end of the parameters
	for n := 0; n < 4 && k < len(s) && digit(s[k]); n++ {
		k++
		last = k
	}
	if k > i {
		for k < len(s) && s[k] == ';' {
			k++
			for n := 0; n < 4 && k < len(s) && digit(s[k]); n++ {
				k++
				last = k
			}
		}
	}
	if k < len(s) && final(s[k]) {
		return k + 1
	}
	return last
}

// filtered is the text without its control sequences.
func filtered(s string) string {
	out := ""
	for i := 0; i < len(s); {
		w := 0
		if s[i] == 0x1b {
			w = 1
		} else if i+1 < len(s) && s[i] == 0xc2 && s[i+1] == 0x9b {
			w = 2
		}
		if w > 0 {
			if n := sequence(s[i+w:]); n >= 0 {
				i += w + n
				continue
			}
		}
		out += s[i : i+1]
		i++
	}
	return out
}

// HFilterFree: any short ASCII text.
//
//verif:prop C23
func HFilterFree() {
	n := vrt.Case("n", 0, vrt.Bound(4, 5))
	s := string(vrt.Bytes("s", n, n, 0, 127))
	vrt.Assert(bbs.FilterStringANSI(s) == filtered(s), "filtered")
}

// HFilterSequence: an introducer with any characters after it.
//
//verif:prop C23
func HFilterSequence() {
	n := vrt.Case("n", 0, vrt.Bound(6, 8))
	b := vrt.Bytes("s", n, n, 0, 127)
	for i := range b {
		vrt.Assume(b[i] != 0x1b)
	}
	s := "a\x1b[" + string(b)
	if vrt.Case("c1", 0, 1) == 1 {
		s = "a\u009b" + string(b)
	}
	vrt.Assert(bbs.FilterStringANSI(s) == filtered(s), "filtered")
}

// HFilterParameters: long parameters.
//
//verif:prop C23
func HFilterParameters() {
	// every place of the semicolons is a case
	n := vrt.Case("n", 0, vrt.Bound(7, 9))
	semi := vrt.Case("semi", 0, 1<<uint(n)-1)
	b := vrt.Bytes("s", n, n, '0', '9')
	for i := range b {
		if semi>>uint(i)&1 == 1 {
			b[i] = ';'
		}
	}
	s := "\x1b[" + string(b) + string(vrt.Bytes("f", 1, 1, 0, 127)) + "m"
	vrt.Assert(bbs.FilterStringANSI(s) == filtered(s), "filtered")
}

// HFilterManyParameters: a sequence may have any number of parameters.
//
//verif:prop C23
func HFilterManyParameters() {
	n := vrt.Case("n", 0, vrt.Bound(40, 130))
	form := vrt.Case("form", 0, 3)
	d := vrt.Bytes("d", 3, 3, '0', '9')
	s := "\x1b["
	if form == 1 {
		s = "\u009b"
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ";"
		}
		switch {
		case i == 0 || i == n/2 || i == n-1:
			s += string(d[:1+i%3])
		case i%4 == 0:
			s += "38"
		case i%4 == 1:
			s += ""
		default:
			s += "5"
		}
	}
	switch form {
	case 2: // ended by a bell
		s = "\x1b]" + s[2:] + "\a"
	case 3: // a single one of many digits
		s = "\x1b["
		for i := 0; i < n; i++ {
			s += string(d[i%3 : i%3+1])
		}
		s += "m"
	default:
		s += "m"
	}
	s = "a" + s + "b"
	vrt.Assert(bbs.FilterStringANSI(s) == filtered(s), "filtered")
}

// HFilterPlain: text without an introducer comes back unchanged.
//
//verif:prop C23
func HFilterPlain() {
	n := vrt.Case("n", 0, vrt.Bound(24, 64))
	b := vrt.Bytes("s", n, n, 0, 127)
	for i := range b {
		vrt.Assume(b[i] != 0x1b)
	}
	wide := []string{"", "\xe4\xb8\xad", "\xa4\xa4", "\x9b[m", "\xff", "\xc2\x9a[m"}[vrt.Case("wide", 0, 5)]
	s := wide + string(b) + wide
	vrt.Assert(bbs.FilterStringANSI(s) == s, "unchanged")
}

// HFilterTwo: sequences next to each other and around other text, in either introducer form.
//
//verif:prop C23
func HFilterTwo() {
	one := []string{"\x1b[1;33m", "\x1b[m", "\u009b2J", "\x1b]0;ab\a", "\x1b[12;", "\x1b[", "\x1b", "\u009b", "\x1b\x1b[m"}[vrt.Case("one", 0, 8)]
	mid := []string{"", "\xe4\xb8\xad", "\xa4\xa4", "\xff", "x"}[vrt.Case("mid", 0, 4)]
	two := []string{"\x1b", "\u009b"}[vrt.Case("two", 0, 1)]
	m := vrt.Case("m", 0, vrt.Bound(3, 4))
	b := vrt.Bytes("b", m, m, 0, 127)
	for i := range b {
		vrt.Assume(b[i] != 0x1b)
	}
	s := one + mid + two + string(b)
	vrt.Assert(bbs.FilterStringANSI(s) == filtered(s), "filtered")
}

// HFilterLong: filtering does not depend on the length of the text or on how many sequences it has.
//
//verif:prop C23
func HFilterLong() {
	n := []int{300, 1100, 5000}[vrt.Case("n", 0, 2)]
	every := []int{1, 3, 50, 900}[vrt.Case("every", 0, 3)]
	if n == 5000 && every == 1 {
		return // more than the solver takes
	}
	c := vrt.U8R("c", '0', '9')
	x := vrt.U8R("x", 'a', 'z')
	var in, want []byte
	for i := 0; i < n; i++ {
		if i%every == 0 {
			if i == 0 || i >= n-every {
				in = append(in, 0x1b, '[', c, 'm')
			} else {
				in = append(in, "\x1b[1;31m"...)
			}
		}
		ch := []byte{'a', '\n', ' '}[i%3]
		if i == n/2 {
			ch = x
		}
		in, want = append(in, ch), append(want, ch)
	}
	vrt.Assert(bbs.FilterStringANSI(string(in)) == string(want), "filtered")
}
