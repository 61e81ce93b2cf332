package main

// Symbolic values, heap objects and state merging.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type FloatV float64

// Str is an immutable string: bytes arr[off : off+len).
type Str struct {
	arr  []*Term
	off  *Term
	len  *Term
	prov *prov
}

// prov records that a string is the image of another under a known conversion.
type prov struct {
	op  string
	src *Str
}

type tok struct{ _ int }

type StructV struct {
	own *tok
	f   []Value
}

const chunkN = 64

type chunk struct {
	own *tok
	e   []Value
}

type Arr struct {
	own *tok
	n   int
	ch  []*chunk
}

type Obj struct {
	id   int
	typ  types.Type // type of the content (nil for maps)
	name string
}

// PE is one step of a pointer path: a field (idx == nil) or an array element.
type PE struct {
	field int
	idx   *Term
}

type PtrV struct {
	obj  *Obj
	path []PE
}

type SliceV struct {
	base          *PtrV // pointer to the backing array; nil for a nil slice
	off, len, cap *Term
}

type IfaceV struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
	nat  func(e *Exec, st *State, args []Value) (Value, bool)
}

type MapRef struct{ obj *Obj } // nil map: obj == nil

type mapEntry struct {
	key, val Value
	present  *Term
}
type MapC struct { // immutable content
	ents []mapEntry
}

type TupleV []Value

type Poison struct{ why string }

type NativeV struct{ v interface{} }

// MapIter / string iterators
type IterV struct {
	isStr bool
	str   *Str
	pos   *Term
	ents  []mapEntry
	i     int
}

type Alt struct {
	g *Term
	v Value
}
type Union struct{ alts []Alt }

var nilPtr = &PtrV{}
var nilSlice = &SliceV{off: mkInt(0), len: mkInt(0), cap: mkInt(0)}
var nilIface = &IfaceV{}
var nilFunc = &FuncV{}
var nilMap = &MapRef{}

var byteC [256]*Term

func init() {
	for i := range byteC {
		byteC[i] = mkConst(8, uint64(i))
	}
}

// ---- strings ----

func concStr(s string) *Str {
	a := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		a[i] = byteC[s[i]]
	}
	return &Str{arr: a, off: mkInt(0), len: mkInt(int64(len(s)))}
}

func (s *Str) conc() (string, bool) {
	if s.off.Op != OConst || s.len.Op != OConst {
		return "", false
	}
	b := make([]byte, s.len.C)
	for i := range b {
		t := s.arr[int(s.off.C)+i]
		if t.Op != OConst {
			return "", false
		}
		b[i] = byte(t.C)
	}
	return string(b), true
}

func (s *Str) maxLen() int {
	m := len(s.arr) - int(s.off.lo)
	if m < 0 {
		m = 0
	}
	if s.len.hi < uint64(m) {
		m = int(s.len.hi)
	}
	return m
}

// norm returns the bytes with offset 0 (mux'ed when the offset is symbolic), at most maxLen of them.
func (s *Str) norm() []*Term {
	n := s.maxLen()
	if s.off.Op == OConst {
		return s.arr[s.off.C : int(s.off.C)+n]
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = selectArr(s.arr, mkAdd(s.off, mkInt(int64(i))))
	}
	return out
}

func (s *Str) at(i *Term) *Term { return selectArr(s.arr, mkAdd(s.off, i)) }

func strFrom(arr []*Term, n *Term) *Str { return &Str{arr: arr, off: mkInt(0), len: n} }

func (s *Str) sub(lo, hi *Term) *Str {
	r := &Str{arr: s.arr, off: mkAdd(s.off, lo), len: mkRng(mkSub(hi, lo), s.len.hi)}
	if r.off.Op == OConst && r.len.Op == OConst && s.off.Op == OConst && lo.Op == OConst && lo.C == 0 && r.len == s.len {
		return s
	}
	return r
}

// selectArr builds a multiplexer arr[idx]; idx is assumed in range.
func selectArr(arr []*Term, idx *Term) *Term {
	if len(arr) == 0 {
		return byteC[0]
	}
	if idx.Op == OConst {
		if idx.C >= uint64(len(arr)) {
			return mkConst(arr[0].W, 0)
		}
		return arr[idx.C]
	}
	lo, hi := idx.lo, idx.hi
	if hi >= uint64(len(arr)) {
		hi = uint64(len(arr)) - 1
	}
	if lo > hi {
		return mkConst(arr[0].W, 0)
	}
	if idx.Op == OIte && constLeaves(idx, 100) {
		return mkIte(idx.Args[0], selectArr(arr, idx.Args[1]), selectArr(arr, idx.Args[2]))
	}
	return selRange(idx, int(lo), int(hi), func(i int) *Term { return arr[i] })
}

func selRange(idx *Term, lo, hi int, f func(int) *Term) *Term {
	if lo == hi {
		return f(lo)
	}
	// all equal?
	mid := splitPoint(lo, hi)
	c := splitCond(idx, mid)
	a := selRange(idx, lo, mid-1, f)
	b := selRange(idx, mid, hi, f)
	return mkIte(c, a, b)
}

// splitPoint: largest power-of-two aligned boundary in (lo,hi]
func splitPoint(lo, hi int) int {
	p := 1
	for p*2 <= hi {
		p *= 2
	}
	// want boundary b in (lo, hi] with max trailing zeros
	for ; p > 0; p /= 2 {
		b := (hi / p) * p
		if b > lo {
			return b
		}
	}
	return hi
}

func splitCond(idx *Term, mid int) *Term { // idx < mid
	return mkULt(idx, mkConst(idx.W, uint64(mid)))
}

func mergeStr(c *Term, a, b *Str) *Str {
	if a == b {
		return a
	}
	if len(a.arr) == len(b.arr) && (len(a.arr) == 0 || &a.arr[0] == &b.arr[0]) {
		if a.off == b.off && a.len == b.len {
			return a
		}
		return &Str{arr: a.arr, off: mkIte(c, a.off, b.off), len: mkIte(c, a.len, b.len)}
	}
	x, y := a.norm(), b.norm()
	n := max(len(x), len(y))
	out := make([]*Term, n)
	for i := range out {
		switch {
		case i >= len(x):
			out[i] = y[i]
		case i >= len(y):
			out[i] = x[i]
		default:
			out[i] = mkIte(c, x[i], y[i])
		}
	}
	return &Str{arr: out, off: mkInt(0), len: mkIte(c, a.len, b.len)}
}

func strConcat(a, b *Str) *Str {
	if a.len.Op == OConst && a.len.C == 0 {
		return b
	}
	if b.len.Op == OConst && b.len.C == 0 {
		return a
	}
	x, y := a.norm(), b.norm()
	if a.len.Op == OConst {
		out := make([]*Term, 0, len(x)+len(y))
		out = append(out, x[:a.len.C]...)
		out = append(out, y...)
		return strFrom(out, mkAdd(a.len, b.len))
	}
	n := len(x) + len(y)
	out := make([]*Term, n)
	for k := range out {
		var fromB *Term
		if len(y) > 0 {
			// y[k - la], valid when la <= k < la+lb
			fromB = selSum(y, k, a.len)
		} else {
			fromB = byteC[0]
		}
		if k < len(x) {
			out[k] = mkIte(mkULt(mkInt(int64(k)), a.len), x[k], fromB)
		} else {
			out[k] = fromB
		}
	}
	return strFrom(out, mkAdd(a.len, b.len))
}

// selSum returns y[k-la] by case analysis on la (so comparisons are shared between k's).
func selSum(y []*Term, k int, la *Term) *Term {
	lo, hi := int(la.lo), int(min(la.hi, uint64(k)))
	// la in [lo,hi], index k-la in [0,len(y))
	if lo < k-len(y)+1 {
		lo = k - len(y) + 1
	}
	if lo > hi {
		return byteC[0]
	}
	if la.Op == OIte && constLeaves(la, 100) {
		return selSumIte(y, k, la)
	}
	return selRange(la, lo, hi, func(l int) *Term { return y[k-l] })
}
func selSumIte(y []*Term, k int, la *Term) *Term {
	if la.Op == OConst {
		i := k - int(la.C)
		if i < 0 || i >= len(y) {
			return byteC[0]
		}
		return y[i]
	}
	return mkIte(la.Args[0], selSumIte(y, k, la.Args[1]), selSumIte(y, k, la.Args[2]))
}

func strEq(a, b *Str) *Term {
	if a == b {
		return TTrue
	}
	le := mkEq(a.len, b.len)
	if le == TFalse {
		return TFalse
	}
	n := min(a.maxLen(), b.maxLen())
	x, y := a.norm(), b.norm()
	cs := []*Term{le}
	for i := 0; i < n; i++ {
		e := mkEq(x[i], y[i])
		if e == TTrue {
			continue
		}
		c := mkOr(mkULe(a.len, mkInt(int64(i))), e)
		if c == TFalse {
			return TFalse
		}
		cs = append(cs, c)
	}
	return mkAnd(cs...)
}

// strLess: lexicographic a < b
func strLess(a, b *Str) *Term {
	x, y := a.norm(), b.norm()
	n := max(len(x), len(y))
	r := TFalse
	for i := n; i >= 0; i-- {
		ii := mkInt(int64(i))
		aEnd := mkULe(a.len, ii)
		bEnd := mkULe(b.len, ii)
		if i == n {
			r = mkAnd(aEnd, mkNot(bEnd))
			continue
		}
		xi, yi := byteC[0], byteC[0]
		if i < len(x) {
			xi = x[i]
		}
		if i < len(y) {
			yi = y[i]
		}
		r = mkIte(aEnd, mkNot(bEnd), mkIte(bEnd, TFalse, mkOr(mkULt(xi, yi), mkAnd(mkEq(xi, yi), r))))
	}
	return r
}

// ---- arrays ----

func newArr(n int, zero Value) *Arr {
	a := &Arr{n: n}
	var zc *chunk
	for i := 0; i < n; i += chunkN {
		k := min(chunkN, n-i)
		if k < chunkN || zc == nil {
			c := &chunk{e: make([]Value, k)}
			for j := range c.e {
				c.e[j] = zero
			}
			if k == chunkN {
				zc = c
			}
			a.ch = append(a.ch, c)
		} else {
			a.ch = append(a.ch, zc)
		}
	}
	return a
}

func arrFrom(vs []Value) *Arr {
	a := &Arr{n: len(vs)}
	for i := 0; i < len(vs); i += chunkN {
		a.ch = append(a.ch, &chunk{e: vs[i:min(i+chunkN, len(vs)):min(i+chunkN, len(vs))]})
	}
	return a
}
func arrFromTerms(ts []*Term) *Arr {
	vs := make([]Value, len(ts))
	for i, t := range ts {
		vs[i] = t
	}
	return arrFrom(vs)
}

func (a *Arr) get(i int) Value { return a.ch[i/chunkN].e[i%chunkN] }

// set returns an array with element i replaced; owned nodes are updated in place.
func (a *Arr) set(i int, v Value, t *tok) *Arr {
	if a.own != t || t == nil {
		a = &Arr{own: t, n: a.n, ch: append([]*chunk(nil), a.ch...)}
	}
	c := a.ch[i/chunkN]
	if c.own != t || t == nil {
		c = &chunk{own: t, e: append([]Value(nil), c.e...)}
		a.ch[i/chunkN] = c
	}
	c.e[i%chunkN] = v
	return a
}

// disown makes a value safe to share.
func disown(v Value) {
	switch x := v.(type) {
	case *StructV:
		if x.own != nil {
			x.own = nil
			for _, f := range x.f {
				disown(f)
			}
		}
	case *Arr:
		if x.own != nil {
			x.own = nil
			for _, c := range x.ch {
				if c.own != nil {
					c.own = nil
					for _, e := range c.e {
						switch e.(type) {
						case *StructV, *Arr:
							disown(e)
						}
					}
				}
			}
		}
	}
}

// ---- zero values ----

func (e *Exec) zero(t types.Type) Value {
	if v, ok := e.zeroCache[t]; ok {
		return v
	}
	v := e.zero1(t)
	disown(v)
	e.zeroCache[t] = v
	return v
}

func (e *Exec) zero1(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return TFalse
		case u.Info()&types.IsInteger != 0:
			return mkConst(intWidth(u), 0)
		case u.Info()&types.IsString != 0:
			return concStr("")
		case u.Info()&types.IsFloat != 0:
			return FloatV(0)
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Kind() == types.UntypedNil:
			return nilPtr
		}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return nilSlice
	case *types.Map:
		return nilMap
	case *types.Signature:
		return nilFunc
	case *types.Interface:
		return nilIface
	case *types.Chan:
		return nilPtr
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return newArr(int(u.Len()), e.zero(u.Elem()))
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = e.zero(u.At(i).Type())
		}
		return tv
	}
	return &Poison{"zero value of " + t.String()}
}

func intWidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// ---- heap ----

type Heap struct {
	parent *Heap
	m      map[*Obj]Value
	depth  int
}

func (h *Heap) get(o *Obj) (Value, bool) {
	for l := h; l != nil; l = l.parent {
		if v, ok := l.m[o]; ok {
			return v, true
		}
	}
	return nil, false
}

func (h *Heap) child() *Heap {
	if len(h.m) == 0 && h.parent != nil {
		h = h.parent
	}
	if h.depth > 40 {
		h = h.flatten()
	}
	return &Heap{parent: h, m: map[*Obj]Value{}, depth: h.depth + 1}
}

// flatten merges all layers above the root into one.
func (h *Heap) flatten() *Heap {
	var ls []*Heap
	l := h
	for l.parent != nil {
		ls = append(ls, l)
		l = l.parent
	}
	n := &Heap{parent: l, m: map[*Obj]Value{}, depth: l.depth + 1}
	for i := len(ls) - 1; i >= 0; i-- {
		for k, v := range ls[i].m {
			n.m[k] = v
		}
	}
	return n
}

func mergeHeaps(c *Term, a, b *Heap) *Heap {
	// common ancestor
	x, y := a, b
	for x != y {
		if x.depth >= y.depth && x.parent != nil {
			x = x.parent
		} else if y.parent != nil {
			y = y.parent
		} else {
			panic("heaps without common root")
		}
	}
	anc := x
	n := &Heap{parent: anc, m: map[*Obj]Value{}, depth: anc.depth + 1}
	seen := map[*Obj]bool{}
	collectLayer := func(h *Heap) {
		for l := h; l != anc; l = l.parent {
			for o := range l.m {
				if seen[o] {
					continue
				}
				seen[o] = true
				va, oka := a.get(o)
				vb, okb := b.get(o)
				switch {
				case !oka:
					n.m[o] = vb
				case !okb:
					n.m[o] = va
				default:
					disown(va)
					disown(vb)
					n.m[o] = mergeValue(c, va, vb)
				}
			}
		}
	}
	collectLayer(a)
	collectLayer(b)
	for _, v := range n.m {
		disown(v)
	}
	return n
}

// ---- merging ----

func samePath(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func ptrSame(a, b *PtrV) bool { return a == b || a.obj == b.obj && samePath(a.path, b.path) }

func valueSame(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case FloatV:
		y, ok := b.(FloatV)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.len != y.len || x.off != y.off || len(x.arr) != len(y.arr) {
			return false
		}
		for i := range x.arr {
			if x.arr[i] != y.arr[i] {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && ptrSame(x, y)
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return false
		}
		if (x.base == nil) != (y.base == nil) {
			return false
		}
		return (x.base == nil || ptrSame(x.base, y.base)) && x.off == y.off && x.len == y.len && x.cap == y.cap
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && valueSame(x.v, y.v)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.fn != y.fn || x.bi != y.bi || x.nat != nil || y.nat != nil || len(x.free) != len(y.free) {
			return false
		}
		for i := range x.free {
			if !valueSame(x.free[i], y.free[i]) {
				return false
			}
		}
		return true
	case *MapRef:
		y, ok := b.(*MapRef)
		return ok && x.obj == y.obj
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !valueSame(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *Arr:
		y, ok := b.(*Arr)
		if !ok || x.n != y.n {
			return false
		}
		for i := range x.ch {
			if x.ch[i] == y.ch[i] {
				continue
			}
			for j := range x.ch[i].e {
				if !valueSame(x.ch[i].e[j], y.ch[i].e[j]) {
					return false
				}
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valueSame(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Union:
		y, ok := b.(*Union)
		return ok && x == y
	}
	return a == b
}

func mergeValue(c *Term, a, b Value) Value {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x.W == y.W {
				return mkIte(c, x, y)
			}
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			if valueSame(x, y) {
				return x
			}
			return mergeStr(c, x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			if x == y {
				return x
			}
			var n *StructV
			for i := range x.f {
				if ifaceEq(x.f[i], y.f[i]) {
					continue
				}
				m := mergeValue(c, x.f[i], y.f[i])
				if n == nil {
					n = &StructV{f: append([]Value(nil), x.f...)}
				}
				n.f[i] = m
			}
			if n == nil {
				return x
			}
			return n
		}
	case *Arr:
		if y, ok := b.(*Arr); ok && x.n == y.n {
			if x == y {
				return x
			}
			var n *Arr
			for i := range x.ch {
				if x.ch[i] == y.ch[i] {
					continue
				}
				var nc *chunk
				for j := range x.ch[i].e {
					p, q := x.ch[i].e[j], y.ch[i].e[j]
					if ifaceEq(p, q) {
						continue
					}
					m := mergeValue(c, p, q)
					if nc == nil {
						nc = &chunk{e: append([]Value(nil), x.ch[i].e...)}
					}
					nc.e[j] = m
				}
				if nc != nil {
					if n == nil {
						n = &Arr{n: x.n, ch: append([]*chunk(nil), x.ch...)}
					}
					n.ch[i] = nc
				}
			}
			if n == nil {
				return x
			}
			return n
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			if ptrSame(x, y) {
				return x
			}
			if x.obj == y.obj && x.obj != nil && len(x.path) == len(y.path) {
				ok := true
				for i := range x.path {
					if (x.path[i].idx == nil) != (y.path[i].idx == nil) || x.path[i].field != y.path[i].field {
						ok = false
					}
				}
				if ok {
					np := make([]PE, len(x.path))
					for i := range np {
						np[i] = x.path[i]
						if x.path[i].idx != nil {
							np[i].idx = mkIte(c, x.path[i].idx, y.path[i].idx)
						}
					}
					return &PtrV{x.obj, np}
				}
			}
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if x == y {
				return x
			}
			if x.base != nil && y.base != nil && ptrSame(x.base, y.base) {
				return &SliceV{x.base, mkIte(c, x.off, y.off), mkIte(c, x.len, y.len), mkIte(c, x.cap, y.cap)}
			}
			if x.base == nil && y.base == nil {
				return x
			}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.t == nil && y.t == nil {
				return x
			}
			if x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
				m := mergeValue(c, x.v, y.v)
				if _, isU := m.(*Union); !isU {
					return &IfaceV{x.t, m}
				}
				return &IfaceV{x.t, m}
			}
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			if valueSame(x, y) {
				return x
			}
			if x.fn != nil && x.fn == y.fn && x.nat == nil && y.nat == nil && len(x.free) == len(y.free) {
				n := &FuncV{fn: x.fn, free: make([]Value, len(x.free))}
				for i := range n.free {
					n.free[i] = mergeValue(c, x.free[i], y.free[i])
				}
				return n
			}
		}
	case *MapRef:
		if y, ok := b.(*MapRef); ok && x.obj == y.obj {
			return x
		}
	case *MapC:
		if y, ok := b.(*MapC); ok {
			return mergeMaps(c, x, y)
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			n := make(TupleV, len(x))
			for i := range x {
				n[i] = mergeValue(c, x[i], y[i])
			}
			return n
		}
	case FloatV:
		if y, ok := b.(FloatV); ok && x == y {
			return x
		}
	case *IterV:
		if y, ok := b.(*IterV); ok && x.isStr && y.isStr && valueSame(x.str, y.str) {
			return &IterV{isStr: true, str: x.str, pos: mkIte(c, x.pos, y.pos)}
		} else if ok && x == y {
			return x
		} else if ok && !x.isStr && !y.isStr && x.i == y.i && len(x.ents) == len(y.ents) && (len(x.ents) == 0 || &x.ents[0] == &y.ents[0]) {
			return x
		}
	}
	// general case: a guarded union
	u := &Union{}
	add := func(g *Term, v Value) {
		if g == TFalse {
			return
		}
		for i := range u.alts {
			if valueSame(u.alts[i].v, v) {
				u.alts[i].g = mkOr(u.alts[i].g, g)
				return
			}
		}
		u.alts = append(u.alts, Alt{g, v})
	}
	for _, z := range alts(a) {
		add(mkAnd(c, z.g), z.v)
	}
	nc := mkNot(c)
	for _, z := range alts(b) {
		// mergeable with an existing alternative?
		g := mkAnd(nc, z.g)
		if g == TFalse {
			continue
		}
		merged := false
		for i := range u.alts {
			if canFuse(u.alts[i].v, z.v) {
				u.alts[i].v = mergeValue(mkNot(g), u.alts[i].v, z.v)
				u.alts[i].g = mkOr(u.alts[i].g, g)
				merged = true
				break
			}
		}
		if !merged {
			add(g, z.v)
		}
	}
	if len(u.alts) == 1 {
		return u.alts[0].v
	}
	if len(u.alts) > 400 {
		return &Poison{"union too large"}
	}
	return u
}

// canFuse: the two alternatives merge into one non-union value.
func canFuse(a, b Value) bool {
	switch x := a.(type) {
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.base != nil && y.base != nil && ptrSame(x.base, y.base)
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok || x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return false
		}
		switch p := x.v.(type) {
		case *Term, *Str, *StructV:
			return true
		case *PtrV:
			q, ok := y.v.(*PtrV)
			return ok && p.obj == q.obj
		}
		return true
	case *Term:
		_, ok := b.(*Term)
		return ok
	case *Str:
		_, ok := b.(*Str)
		return ok
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.obj != y.obj || x.obj == nil || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if (x.path[i].idx == nil) != (y.path[i].idx == nil) || x.path[i].field != y.path[i].field {
				return false
			}
		}
		return true
	}
	return false
}

func ifaceEq(a, b Value) (r bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case TupleV:
		return false
	case nil:
		return b == nil
	}
	switch b.(type) {
	case TupleV:
		return false
	}
	return a == b
}

func mergeMaps(c *Term, a, b *MapC) *MapC {
	if a == b {
		return a
	}
	n := &MapC{}
	nb := 0
	// common prefix by key identity
	for i, x := range a.ents {
		if i < len(b.ents) && valueSame(x.key, b.ents[i].key) {
			y := b.ents[i]
			n.ents = append(n.ents, mapEntry{x.key, mergeValue(c, x.val, y.val), mkIte(c, x.present, y.present)})
			nb = i + 1
		} else {
			break
		}
	}
	for _, x := range a.ents[nb:] {
		n.ents = append(n.ents, mapEntry{x.key, x.val, mkAnd(c, x.present)})
	}
	for _, y := range b.ents[nb:] {
		// same concrete key added on both sides
		done := false
		for i := nb; i < len(n.ents); i++ {
			if valueSame(n.ents[i].key, y.key) {
				n.ents[i].val = mergeValue(mkAnd(c, n.ents[i].present), n.ents[i].val, y.val)
				n.ents[i].present = mkOr(n.ents[i].present, mkAnd(mkNot(c), y.present))
				done = true
				break
			}
		}
		if !done {
			n.ents = append(n.ents, mapEntry{y.key, y.val, mkAnd(mkNot(c), y.present)})
		}
	}
	return n
}

func alts(v Value) []Alt {
	if u, ok := v.(*Union); ok {
		return u.alts
	}
	return []Alt{{TTrue, v}}
}

// combine folds guarded alternatives into one value (guards exclusive and exhaustive).
func combine(as []Alt) Value {
	if len(as) == 0 {
		return &Poison{"no alternative"}
	}
	r := as[len(as)-1].v
	for i := len(as) - 2; i >= 0; i-- {
		r = mergeValue(as[i].g, as[i].v, r)
	}
	return r
}

func dumpValue(v Value) string {
	switch x := v.(type) {
	case *Str:
		if s, ok := x.conc(); ok {
			return fmt.Sprintf("%q", s)
		}
		return fmt.Sprintf("str(len=%v max=%d)", x.len, x.maxLen())
	case *SliceV:
		return fmt.Sprintf("slice(nil=%v off=%v len=%v cap=%v)", x.base == nil, x.off, x.len, x.cap)
	case *PtrV:
		if x.obj == nil {
			return "nil"
		}
		return fmt.Sprintf("&%s#%d%v", x.obj.name, x.obj.id, x.path)
	case *IfaceV:
		if x.t == nil {
			return "iface(nil)"
		}
		return fmt.Sprintf("iface(%v,%s)", x.t, dumpValue(x.v))
	case *Union:
		s := "union{"
		for _, a := range x.alts {
			s += fmt.Sprintf("[%v -> %s]", a.g, dumpValue(a.v))
		}
		return s + "}"
	case *Poison:
		return "poison(" + x.why + ")"
	case *StructV:
		s := "{"
		for _, f := range x.f {
			s += dumpValue(f) + " "
		}
		return s + "}"
	}
	return fmt.Sprint(v)
}
