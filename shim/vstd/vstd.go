// Package vstd holds plain Go models of standard library functions that rely on reflection; the
// symbolic engine executes these instead of the originals.
package vstd

import (
	"errors"
	"io"
)

func basic(v interface{}) interface{} { return v }
func dec(x uint64) string             { return "" }
func codecName(v interface{}) string  { return "" }
func big5(enc bool, b []byte) ([]byte, int, bool) {
	return nil, 0, false
}
func sameType(err error, target interface{}) bool { return false }
func comparable_(v interface{}) bool              { return true }

type fmtErr struct{ s string }

func (e *fmtErr) Error() string { return e.s }

type wrapErr struct {
	s   string
	err error
}

func (e *wrapErr) Error() string { return e.s }
func (e *wrapErr) Unwrap() error { return e.err }

func Errorf(format string, a ...interface{}) error {
	s := Sprintf(format, a...)
	// find %w operand
	k := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] >= '0' && format[i] <= '9' || format[i] == '.' || format[i] == '-' || format[i] == '+' || format[i] == '#' || format[i] == ' ') {
			i++
		}
		if i >= len(format) || format[i] == '%' {
			continue
		}
		if format[i] == 'w' && k < len(a) {
			if e, ok := a[k].(error); ok {
				return &wrapErr{s, e}
			}
		}
		k++
	}
	return &fmtErr{s}
}

type stringer interface{ String() string }

func str(v interface{}, verb byte) string {
	if v == nil {
		if verb == 's' {
			return "%!s(<nil>)"
		}
		return "<nil>"
	}
	if e, ok := v.(error); ok {
		return e.Error()
	}
	if s, ok := v.(stringer); ok {
		return s.String()
	}
	switch x := basic(v).(type) {
	case string:
		return x
	case bool:
		if x {
			return "true"
		}
		return "false"
	case int64:
		return Itoa64(x)
	case uint64:
		return dec(x)
	case []byte:
		if verb == 's' {
			return string(x)
		}
		return "[bytes]"
	}
	return "?"
}

func Itoa64(x int64) string {
	if x < 0 {
		return "-" + dec(uint64(-x))
	}
	return dec(uint64(x))
}

func hexStr(x uint64, upper bool) string {
	digits := "0123456789abcdef"
	if upper {
		digits = "0123456789ABCDEF"
	}
	if x == 0 {
		return "0"
	}
	out := ""
	for x != 0 {
		out = digits[x&15:x&15+1] + out
		x >>= 4
	}
	return out
}

func hexBytes(b string, upper bool) string {
	digits := "0123456789abcdef"
	if upper {
		digits = "0123456789ABCDEF"
	}
	out := make([]byte, 0, 2*len(b))
	for i := 0; i < len(b); i++ {
		out = append(out, digits[b[i]>>4], digits[b[i]&15])
	}
	return string(out)
}

func utf8enc(r uint64) string { return string(rune(r)) }

func Sprintf(format string, a ...interface{}) string {
	out := ""
	k := 0
	i := 0
	for i < len(format) {
		j := i
		for j < len(format) && format[j] != '%' {
			j++
		}
		out += format[i:j]
		if j >= len(format) {
			break
		}
		i = j + 1
		minus, zero, plus, sharp := false, false, false, false
	flags:
		for i < len(format) {
			switch format[i] {
			case '-':
				minus = true
			case '0':
				zero = true
			case '+':
				plus = true
			case '#':
				sharp = true
			case ' ':
			default:
				break flags
			}
			i++
		}
		width, prec := 0, -1
		if i < len(format) && format[i] == '*' {
			i++
			if k < len(a) {
				if w, ok := a[k].(int); ok {
					width = w
					if w < 0 {
						minus = true
						width = -w
					}
				}
				k++
			}
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			out += "%!(NOVERB)"
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			out += "%"
			continue
		}
		if k >= len(a) {
			out += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		v := a[k]
		k++
		s := ""
		num := false
		neg := false
		switch verb {
		case 's', 'v', 'w':
			s = str(v, verb)
			if x, ok := basic(v).(int64); ok && verb == 'v' && v != nil {
				if _, isE := v.(error); !isE {
					if _, isS := v.(stringer); !isS {
						num = true
						_ = x
					}
				}
			}
			if prec >= 0 && !num && verb == 's' && prec < len(s) {
				s = s[:prec]
			}
			_ = sharp
		case 'd':
			switch x := basic(v).(type) {
			case int64:
				num = true
				if x < 0 {
					neg = true
					s = dec(uint64(-x))
				} else {
					s = dec(uint64(x))
				}
			case uint64:
				num = true
				s = dec(x)
			default:
				s = "%!d(" + str(v, 'v') + ")"
			}
		case 'x', 'X':
			switch x := basic(v).(type) {
			case int64:
				num = true
				if x < 0 {
					neg = true
					s = hexStr(uint64(-x), verb == 'X')
				} else {
					s = hexStr(uint64(x), verb == 'X')
				}
			case uint64:
				num = true
				s = hexStr(x, verb == 'X')
			case string:
				s = hexBytes(x, verb == 'X')
			case []byte:
				s = hexBytes(string(x), verb == 'X')
			default:
				s = "?"
			}
		case 'c':
			switch x := basic(v).(type) {
			case int64:
				s = utf8enc(uint64(x))
			case uint64:
				s = utf8enc(x)
			default:
				s = "%!c(" + str(v, 'v') + ")"
			}
		case 'q':
			s = "\"" + str(v, 's') + "\""
		case 't':
			s = str(v, 'v')
		case 'T':
			s = codecName(v)
		case 'p':
			s = "0xc000010000"
		default:
			s = "%!" + string(rune(verb)) + "(" + str(v, 'v') + ")"
		}
		if num && prec >= 0 {
			for len(s) < prec {
				s = "0" + s
			}
			zero = false
		}
		if num && zero && !minus {
			w := width
			if neg || plus {
				w--
			}
			for len(s) < w {
				s = "0" + s
			}
		}
		if neg {
			s = "-" + s
		} else if plus && num {
			s = "+" + s
		}
		pad := " "
		if zero && !minus && !num {
			pad = "0"
		}
		if width > 0 {
			n := runeLen(s)
			for ; n < width; n++ {
				if minus {
					s += " "
				} else {
					s = pad + s
				}
			}
		}
		out += s
	}
	if k < len(a) {
		out += "%!(EXTRA)"
	}
	return out
}

func runeLen(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i]&0xC0 != 0x80 {
			n++
		}
	}
	return n
}

func isStr(v interface{}) bool {
	if v == nil {
		return false
	}
	_, ok := basic(v).(string)
	return ok
}

func Sprint(a ...interface{}) string {
	out := ""
	for i, v := range a {
		if i > 0 && !isStr(v) && !isStr(a[i-1]) {
			out += " "
		}
		out += str(v, 'v')
	}
	return out
}

func Sprintln(a ...interface{}) string {
	out := ""
	for i, v := range a {
		if i > 0 {
			out += " "
		}
		out += str(v, 'v')
	}
	return out + "\n"
}

func Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(format, a...)))
}
func Fprint(w io.Writer, a ...interface{}) (int, error)   { return w.Write([]byte(Sprint(a...))) }
func Fprintln(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(Sprintln(a...))) }
func Appendf(b []byte, format string, a ...interface{}) []byte {
	return append(b, Sprintf(format, a...)...)
}

func Itoa(x int) string { return Itoa64(int64(x)) }
func FormatInt(x int64, base int) string {
	if base == 10 {
		return Itoa64(x)
	}
	if base == 16 {
		if x < 0 {
			return "-" + hexStr(uint64(-x), false)
		}
		return hexStr(uint64(x), false)
	}
	panic("vstd: base")
}
func FormatUint(x uint64, base int) string {
	if base == 10 {
		return dec(x)
	}
	if base == 16 {
		return hexStr(x, false)
	}
	panic("vstd: base")
}
func AppendInt(b []byte, x int64, base int) []byte { return append(b, FormatInt(x, base)...) }

func Is(err, target error) bool {
	for err != nil {
		if comparable_(err) && comparable_(target) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if m, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range m.Unwrap() {
				if Is(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

func As(err error, target interface{}) bool {
	for err != nil {
		if sameType(err, target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

var errCodec = errors.New("encoding: rune not supported by encoding.")

type named interface {
	Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error)
}

func TransformBytes(t named, b []byte) ([]byte, int, error) {
	out, n, bad := big5(checkCodec(t), b)
	if bad {
		return out, n, errCodec
	}
	return out, n, nil
}

func TransformString(t named, s string) (string, int, error) {
	out, n, bad := big5(checkCodec(t), []byte(s))
	if bad {
		return string(out), n, errCodec
	}
	return string(out), n, nil
}

func EncoderBytes(t named, b []byte) ([]byte, error) {
	out, _, bad := big5(checkCodec(t), b)
	if bad {
		return nil, errCodec
	}
	return out, nil
}
func DecoderBytes(t named, b []byte) ([]byte, error) { return EncoderBytes(t, b) }
func EncoderString(t named, s string) (string, error) {
	out, _, bad := big5(checkCodec(t), []byte(s))
	if bad {
		return "", errCodec
	}
	return string(out), nil
}
func DecoderString(t named, s string) (string, error) { return EncoderString(t, s) }

func checkCodec(t interface{}) bool {
	switch codecName(t) {
	case "golang.org/x/text/encoding/traditionalchinese.big5Encoder":
		return true
	case "golang.org/x/text/encoding/traditionalchinese.big5Decoder":
		return false
	}
	panic("vstd: codec " + codecName(t))
}

func sliceLen(x interface{}) int        { return 0 }
func sliceSwap(x interface{}, i, j int) {}

// SortSlice is an insertion sort: the order of equal elements may differ from sort.Slice's.
func SortSlice(x interface{}, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sliceSwap(x, j, j-1)
		}
	}
}
