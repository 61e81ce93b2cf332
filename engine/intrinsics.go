package main

// Models of functions whose bodies are not executed: assembly, runtime services, byte searching,
// formatting of numbers, regular expressions and text conversion.

import (
	"fmt"
	"go/types"
	"strings"
	"syscall"

	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/tools/go/ssa"
)

type intrinsic func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool)

const zz = "github.com/Ptt-official-app/go-bbs/zzverif/"

func lookupIntrinsic(name string, fn *ssa.Function) (intrinsic, bool) {
	if strings.HasPrefix(name, zz) {
		if f, ok := vrtFns[name[len(zz):]]; ok {
			return f, true
		}
		return nil, false
	}
	if f, ok := intrinsics[name]; ok {
		return f, true
	}
	if to, ok := redirects[name]; ok {
		return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
			i := strings.LastIndex(to, ".")
			f := e.lookupFunc(zz+to[:i], to[i+1:])
			if f == nil {
				e.fail("redirect target %s missing", to)
			}
			return e.callFn(st, f, args, nil, nil), true
		}, true
	}
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "log":
			if n := fn.Name(); strings.HasPrefix(n, "Print") || strings.HasPrefix(n, "Set") {
				return nop, true
			}
		case "sync/atomic", "internal/runtime/atomic":
			if f := atomicFn(fn); f != nil {
				return f, true
			}
		}
	}
	return nil, false
}

func ret(st *State, v Value) (*Outcome, bool) {
	if v == nil {
		v = TupleV{}
	}
	return &Outcome{st: st, val: v}, true
}

func nop(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
	return ret(st, e.zeroResultsT(fn))
}

func (e *Exec) zeroResultsT(fn *ssa.Function) Value {
	v := e.zeroResults(fn)
	if v == nil {
		return TupleV{}
	}
	return v
}

var redirects = map[string]string{
	"fmt.Sprintf":                        "vstd.Sprintf",
	"fmt.Errorf":                         "vstd.Errorf",
	"fmt.Sprint":                         "vstd.Sprint",
	"fmt.Sprintln":                       "vstd.Sprintln",
	"fmt.Fprintf":                        "vstd.Fprintf",
	"fmt.Fprint":                         "vstd.Fprint",
	"fmt.Fprintln":                       "vstd.Fprintln",
	"fmt.Appendf":                        "vstd.Appendf",
	"errors.Is":                          "vstd.Is",
	"errors.As":                          "vstd.As",
	"strconv.Itoa":                       "vstd.Itoa",
	"strconv.FormatInt":                  "vstd.FormatInt",
	"strconv.FormatUint":                 "vstd.FormatUint",
	"strconv.AppendInt":                  "vstd.AppendInt",
	"sort.Slice":                         "vstd.SortSlice",
	"sort.SliceStable":                   "vstd.SortSlice",
	"golang.org/x/text/transform.Bytes":  "vstd.TransformBytes",
	"golang.org/x/text/transform.String": "vstd.TransformString",
	"(*golang.org/x/text/encoding.Decoder).Bytes":  "vstd.DecoderBytes",
	"(*golang.org/x/text/encoding.Decoder).String": "vstd.DecoderString",
	"(*golang.org/x/text/encoding.Encoder).Bytes":  "vstd.EncoderBytes",
	"(*golang.org/x/text/encoding.Encoder).String": "vstd.EncoderString",
}

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		"fmt.Printf":           nop,
		"fmt.Println":          nop,
		"fmt.Print":            nop,
		"(*log.Logger).Printf": nop, "(*log.Logger).Println": nop, "(*log.Logger).Print": nop,
		"(*log.Logger).SetFlags": nop,

		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop,
		"(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop,
		"(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"runtime.KeepAlive": nop, "runtime.SetFinalizer": nop, "runtime.GC": nop, "runtime.Gosched": nop,
		"internal/race.Acquire": nop, "internal/race.Release": nop, "internal/race.Enable": nop, "internal/race.Disable": nop,
		"math/rand.Seed": nop,
		"time.initLocal": func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
			return ret(st, nil) // localLoc stays the zero Location: UTC
		},
		"(*sync.Once).Do":     onceDo,
		"(*sync.Once).doSlow": onceDo,
		"(*sync.Pool).Get":    poolGet,
		"(*sync.Pool).Put":    nop,

		"(syscall.Errno).Error": errnoError,
		"internal/abi.NoEscape": identity, "internal/abi.Escape": identity,
		"internal/bytealg.MakeNoZero": func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
			n := args[0].(*Term)
			mx := e.upperBound(st, n)
			if mx > 1<<20 {
				e.fail("MakeNoZero of unbounded size")
			}
			b := e.newArray(st, types.Typ[types.Uint8], int(mx))
			return ret(st, &SliceV{b, mkInt(0), n, n})
		},
		"bytes.Equal":                          bytesEqual,
		"internal/bytealg.Equal":               bytesEqual,
		"strings.HasPrefix":                    hasPrefix(false),
		"bytes.HasPrefix":                      hasPrefix(false),
		"strings.HasSuffix":                    hasPrefix(true),
		"bytes.HasSuffix":                      hasPrefix(true),
		"strings.IndexByte":                    indexByte(false),
		"bytes.IndexByte":                      indexByte(false),
		"internal/bytealg.IndexByte":           indexByte(false),
		"internal/bytealg.IndexByteString":     indexByte(false),
		"internal/stringslite.IndexByte":       indexByte(false),
		"strings.LastIndexByte":                indexByte(true),
		"bytes.LastIndexByte":                  indexByte(true),
		"internal/bytealg.LastIndexByte":       indexByte(true),
		"internal/bytealg.LastIndexByteString": indexByte(true),
		"strings.Index":                        indexStr(false),
		"bytes.Index":                          indexStr(false),
		"internal/stringslite.Index":           indexStr(false),
		"strings.LastIndex":                    indexStr(true),
		"bytes.LastIndex":                      indexStr(true),
		"strings.Contains": func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
			o, ok := indexStr(false)(e, st, fn, args)
			if ok {
				o.val = mkNot(mkSLt(o.val.(*Term), mkInt(0)))
			}
			return o, ok
		},
		"bytes.Split":                    splitFn,
		"strings.Split":                  splitFn,
		"internal/bytealg.Count":         countByte,
		"internal/bytealg.CountString":   countByte,
		"internal/bytealg.Compare":       compareStr,
		"internal/bytealg.CompareString": compareStr,
		"bytes.Compare":                  compareStr,
		"strings.Compare":                compareStr,
		"bytes.Trim":                     trimSet(true, true),
		"bytes.TrimRight":                trimSet(false, true),
		"bytes.TrimLeft":                 trimSet(true, false),
		"strings.Trim":                   trimSet(true, true),
		"strings.TrimRight":              trimSet(false, true),
		"strings.TrimLeft":               trimSet(true, false),
		"strings.TrimSpace":              trimSpace,
		"bytes.TrimSpace":                trimSpace,
		"(unicode/utf8.x).x":             nil,
		"math/bits.Len64":                nil,
		"regexp.MustCompile":             regexpCompile(true),
		"regexp.Compile":                 regexpCompile(false),
		"regexp.QuoteMeta":               nil,
		"time.now":                       nil,
		"runtime.GOMAXPROCS":             nop,
		"os.Getenv":                      nop,
		"internal/godebug.New":           nil,
		"(*internal/godebug.Setting).Value": func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
			return ret(st, concStr(""))
		},
		"(*internal/godebug.Setting).IncNonDefault": nop,
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
	regexpIntrinsics(intrinsics)
}

func identity(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
	return ret(st, args[0])
}

func onceDo(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
	p, ok := args[0].(*PtrV)
	if !ok || p.obj == nil {
		e.fail("Once.Do on %s", dumpValue(args[0]))
	}
	// the done flag is kept in a shadow object keyed by the pointer
	key := fmt.Sprintf("once:%d:%v", p.obj.id, p.path)
	o := e.shadow(key)
	if v, ok := st.heap.get(o); ok && v == Value(TTrue) {
		return ret(st, nil)
	}
	st.heap.m[o] = TTrue
	f, ok := args[1].(*FuncV)
	if !ok || f.fn == nil {
		e.fail("Once.Do of %s", dumpValue(args[1]))
	}
	out := e.callFn(st, f.fn, nil, f.free, nil)
	out.val = TupleV{}
	return out, true
}

func (e *Exec) shadow(key string) *Obj {
	if o, ok := e.shadows[key]; ok {
		return o
	}
	e.nextObj++
	o := &Obj{id: e.nextObj, name: key}
	e.shadows[key] = o
	return o
}

func poolGet(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
	p := args[0].(*PtrV)
	v := e.loadPtr(st, p).(*StructV)
	f, ok := v.f[len(v.f)-1].(*FuncV)
	if !ok || f.fn == nil {
		return ret(st, nilIface)
	}
	return e.callFn(st, f.fn, nil, f.free, nil), true
}

func atomicFn(fn *ssa.Function) intrinsic {
	n := fn.Name()
	recv := fn.Signature.Recv() != nil
	_ = recv
	field := func(e *Exec, st *State, v Value) *PtrV {
		p, ok := v.(*PtrV)
		if !ok || p.obj == nil {
			e.fail("atomic on %s", dumpValue(v))
		}
		// typed atomics are structs whose last field holds the value
		for {
			s, ok := e.loadPtr(st, p).(*StructV)
			if !ok {
				return p
			}
			p = p.field(len(s.f) - 1)
		}
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
			v := e.loadPtr(st, field(e, st, args[0]))
			if fn.Signature.Results().Len() == 1 && isBool(fn.Signature.Results().At(0).Type()) {
				if t, ok := v.(*Term); ok && t.W != 0 {
					v = mkNot(mkEq(t, mkConst(t.W, 0)))
				}
			}
			return ret(st, v)
		}
	case strings.HasPrefix(n, "Store"):
		return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
			p := field(e, st, args[0])
			v := args[1]
			if t, ok := v.(*Term); ok && t.W == 0 {
				if o, ok := e.loadPtr(st, p).(*Term); ok && o.W != 0 {
					v = mkIte(t, mkConst(o.W, 1), mkConst(o.W, 0))
				}
			}
			e.storePtr(st, p, v, TTrue)
			return ret(st, nil)
		}
	case strings.HasPrefix(n, "Add"):
		return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
			p := field(e, st, args[0])
			v := mkAdd(e.loadPtr(st, p).(*Term), args[1].(*Term))
			e.storePtr(st, p, v, TTrue)
			return ret(st, v)
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
			p := field(e, st, args[0])
			old := e.loadPtr(st, p)
			eq := e.eqValue(st, old, args[1], nil)
			e.storePtr(st, p, args[2], eq)
			return ret(st, eq)
		}
	case strings.HasPrefix(n, "Swap"):
		return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
			p := field(e, st, args[0])
			old := e.loadPtr(st, p)
			e.storePtr(st, p, args[1], TTrue)
			return ret(st, old)
		}
	}
	return nil
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func errnoError(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
	return ret(st, e.mapVal(args[0], func(v Value) Value {
		t, ok := v.(*Term)
		if !ok || !constLeaves(t, 20) {
			e.fail("symbolic errno")
		}
		var f func(t *Term) Value
		f = func(t *Term) Value {
			if t.Op == OConst {
				return concStr(syscall.Errno(t.C).Error())
			}
			return mergeValue(t.Args[0], f(t.Args[1]), f(t.Args[2]))
		}
		return f(t)
	}))
}

// ---- bytes and strings ----

func bytesEqual(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
	return ret(st, strEq(e.sliceBytes(st, args[0]), e.sliceBytes(st, args[1])))
}

func hasPrefix(suffix bool) intrinsic {
	return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		a, b := e.sliceBytes(st, args[0]), e.sliceBytes(st, args[1])
		p := mkNot(mkSLt(a.len, b.len))
		if p == TFalse {
			return ret(st, TFalse)
		}
		var sub *Str
		if suffix {
			sub = a.sub(mkIte(p, mkSub(a.len, b.len), mkInt(0)), a.len)
			sub.len = mkIte(p, b.len, mkInt(0))
		} else {
			sub = &Str{arr: a.arr, off: a.off, len: b.len}
			if b.len.Op != OConst {
				sub.len = mkIte(p, b.len, mkInt(0))
			} else if int(a.off.hi)+int(b.len.C) > len(a.arr) || a.off.hi > 1<<30 {
				sub.len = mkIte(p, b.len, mkInt(0))
			}
		}
		return ret(st, mkAnd(p, strEq(sub, b)))
	}
}

// posIte builds the first (or last) index whose guard holds, -1 otherwise.
func posIte(n int, last bool, g func(i int) *Term) *Term {
	r := mkInt(-1)
	if last {
		for i := 0; i < n; i++ {
			r = mkIte(g(i), mkInt(int64(i)), r)
		}
	} else {
		for i := n - 1; i >= 0; i-- {
			r = mkIte(g(i), mkInt(int64(i)), r)
		}
	}
	return r
}

func indexByte(last bool) intrinsic {
	return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		s := e.sliceBytes(st, args[0])
		c, ok := args[1].(*Term)
		if !ok {
			e.fail("IndexByte of %s", dumpValue(args[1]))
		}
		b := s.norm()
		return ret(st, posIte(len(b), last, func(i int) *Term {
			return mkAnd(mkULt(mkInt(int64(i)), s.len), mkEq(b[i], c))
		}))
	}
}

func indexStr(last bool) intrinsic {
	return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		s, sub := e.sliceBytes(st, args[0]), e.sliceBytes(st, args[1])
		b := s.norm()
		x := sub.norm()
		n := len(b)
		return ret(st, posIte(n+1, last, func(i int) *Term {
			// i + len(sub) <= len(s)
			g := []*Term{mkNot(mkULt(s.len, mkAdd(mkInt(int64(i)), sub.len)))}
			if g[0] == TFalse {
				return TFalse
			}
			for j := range x {
				if i+j >= n {
					g = append(g, mkULe(sub.len, mkInt(int64(j))))
					break
				}
				q := mkEq(b[i+j], x[j])
				if sub.len.Op != OConst {
					q = mkOr(mkULe(sub.len, mkInt(int64(j))), q)
				}
				if q == TFalse {
					return TFalse
				}
				g = append(g, q)
			}
			return mkAnd(g...)
		}))
	}
}

// splitFn models Split for a one-byte separator; longer separators are executed.
func splitFn(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
	if u, ok := args[0].(*Union); ok {
		args[0] = e.prune(st, u)
	}
	if _, ok := args[0].(*Union); ok {
		return nil, false
	}
	sep, ok := e.sliceBytes(st, args[1]).conc()
	if !ok || len(sep) != 1 {
		return nil, false
	}
	s := e.sliceBytes(st, args[0])
	b := s.norm()
	if uint64(len(b)) > s.len.hi {
		b = b[:s.len.hi]
	}
	n := len(b)
	isSep := make([]*Term, n)
	maxSeps := 0
	for i := range b {
		isSep[i] = mkAnd(mkULt(mkInt(int64(i)), s.len), mkEq(b[i], byteC[sep[0]]))
		if isSep[i] != TFalse {
			maxSeps++
		}
	}
	if maxSeps > 400 {
		return nil, false
	}
	// nxt[i]: first separator at or after i, or the length
	nxt := make([]*Term, n+2)
	nxt[n] = s.len
	nxt[n+1] = s.len
	for i := n - 1; i >= 0; i-- {
		nxt[i] = mkIte(isSep[i], mkInt(int64(i)), nxt[i+1])
	}
	cnt := mkInt(1)
	for _, t := range isSep {
		cnt = mkAdd(cnt, mkIte(t, mkInt(1), mkInt(0)))
	}
	at := func(idx *Term, lo int) *Term {
		hi := n + 1
		if idx.Op == OConst {
			return nxt[idx.C]
		}
		return selRange(idx, lo, hi, func(i int) *Term { return nxt[i] })
	}
	var parts []Value
	lo := mkInt(0)
	for k := 0; k <= maxSeps; k++ {
		hi := at(lo, k)
		if k > 0 { // beyond the last part the values do not matter but must be well formed
			hi = mkIte(mkULt(mkInt(int64(k)), cnt), hi, s.len)
		}
		parts = append(parts, subLike(st, args[0], s, lo, hi))
		if k < maxSeps {
			// there is a k+1-th part: it starts after hi
			lo = mkIte(mkULt(mkInt(int64(k+1)), cnt), mkAdd(hi, mkInt(1)), s.len)
		}
	}
	for i, p := range parts {
		if sv, ok := p.(*SliceV); ok && sv.base == nil {
			parts[i] = sv
		}
	}
	el := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	o := e.newObj(st, types.NewArray(el, int64(len(parts))), "split", arrFrom(parts))
	return ret(st, &SliceV{base: &PtrV{obj: o}, off: mkInt(0), len: cnt, cap: cnt})
}

func countByte(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
	s := e.sliceBytes(st, args[0])
	c := args[1].(*Term)
	n := mkInt(0)
	for i, b := range s.norm() {
		n = mkAdd(n, mkIte(mkAnd(mkULt(mkInt(int64(i)), s.len), mkEq(b, c)), mkInt(1), mkInt(0)))
	}
	return ret(st, n)
}

func compareStr(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
	a, b := e.sliceBytes(st, args[0]), e.sliceBytes(st, args[1])
	return ret(st, mkIte(strEq(a, b), mkInt(0), mkIte(strLess(a, b), mkInt(-1), mkInt(1))))
}

func subLike(st *State, v Value, s *Str, lo, hi *Term) Value {
	switch x := v.(type) {
	case *Str:
		r := x.sub(lo, hi)
		r.len = mkRng(r.len, x.len.hi)
		return r
	case *SliceV:
		if x.base == nil {
			return x
		}
		return &SliceV{x.base, mkAdd(x.off, lo), mkRng(mkSub(hi, lo), x.len.hi), mkRng(mkSub(x.cap, lo), x.cap.hi)}
	}
	return nil
}

func trimSet(left, right bool) intrinsic {
	return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		set, ok := e.sliceBytes(st, args[1]).conc()
		if !ok {
			return nil, false
		}
		for i := 0; i < len(set); i++ {
			if set[i] >= 0x80 {
				return nil, false
			}
		}
		in := func(t *Term) *Term {
			var o []*Term
			for i := 0; i < len(set); i++ {
				o = append(o, mkEq(t, byteC[set[i]]))
			}
			return mkOr(o...)
		}
		return trimBy(e, st, fn, args[0], in, left, right)
	}
}

func trimSpace(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
	if c, ok := e.sliceBytes(st, args[0]).conc(); ok {
		if v, isS := args[0].(*Str); isS {
			_ = v
			return ret(st, concStr(strings.TrimSpace(c)))
		}
	}
	for _, t := range e.sliceBytes(st, args[0]).norm() {
		if t.hi >= 0x80 && t.Op != OConst {
			return nil, false
		}
		if t.Op == OConst && t.C >= 0x80 {
			// U+0085 and U+00A0 start with 0xC2; U+1680, U+2000.., U+3000 with 0xE1..0xE3
			if t.C == 0xC2 || t.C >= 0xE1 && t.C <= 0xE3 {
				return nil, false
			}
		}
	}
	in := func(t *Term) *Term {
		var o []*Term
		for _, c := range "\t\n\v\f\r " {
			o = append(o, mkEq(t, byteC[c]))
		}
		return mkOr(o...)
	}
	return trimBy(e, st, fn, args[0], in, true, true)
}

func trimBy(e *Exec, st *State, fn *ssa.Function, v Value, in func(*Term) *Term, left, right bool) (*Outcome, bool) {
	if u, ok := v.(*Union); ok {
		v = e.prune(st, u)
	}
	if _, ok := v.(*Union); ok {
		return nil, false
	}
	s := e.sliceBytes(st, v)
	b := s.norm()
	lo, hi := mkInt(0), s.len
	ins := make([]*Term, len(b))
	for i := range b {
		ins[i] = in(b[i])
	}
	if right {
		hi = mkInt(0)
		for i := 0; i < len(b); i++ {
			hi = mkIte(mkAnd(mkULt(mkInt(int64(i)), s.len), mkNot(ins[i])), mkInt(int64(i+1)), hi)
		}
	}
	if left {
		lo = hi
		for i := len(b) - 1; i >= 0; i-- {
			lo = mkIte(mkAnd(mkULt(mkInt(int64(i)), s.len), mkNot(ins[i])), mkInt(int64(i)), lo)
		}
	}
	return ret(st, subLike(st, v, s, lo, hi))
}

// ---- text conversion ----

func asciiOnly(e *Exec, st *State, s *Str) *Term {
	var cs []*Term
	for i, t := range s.norm() {
		if t.hi < 0x80 {
			continue
		}
		c := mkULt(t, byteC[0x80])
		if s.len.Op != OConst {
			c = mkOr(c, mkULe(s.len, mkInt(int64(i))))
		}
		cs = append(cs, c)
	}
	return mkAnd(cs...)
}

func big5Native(enc bool, s string) (string, bool) {
	if enc {
		r, err := traditionalchinese.Big5.NewEncoder().String(s)
		return r, err == nil
	}
	r, err := traditionalchinese.Big5.NewDecoder().String(s)
	return r, err == nil
}
