package main

// Hash-consed bit-vector/boolean terms with an aggressive simplifier.
// Width 0 means boolean. Bit-vectors are at most 64 bits wide.

import (
	"fmt"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OApp // uninterpreted function application (Name)
	ONot
	OAnd // n-ary boolean
	OOr  // n-ary boolean
	OIte
	OEq
	OULt
	OSLt
	OAdd // n-ary
	OMul // binary
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	OConcat // n-ary, most significant first
	OExtract
	ORng // the value of Args[0], known to be at most C
	OSExt
)

var opNames = [...]string{"const", "var", "app", "not", "and", "or", "ite", "=", "bvult", "bvslt", "bvadd", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvshl", "bvlshr", "bvashr", "bvand", "bvor", "bvxor", "bvnot", "concat", "extract", "rng", "sext"}

type Term struct {
	Op     Op
	W      uint8
	Args   []*Term
	C      uint64 // constant value; extract: low bit
	Name   string
	ID     int32
	lo, hi uint64 // unsigned range
	vars   *varset
	size   int32
}

type varset struct {
	bits []uint64
}

func (v *varset) has(i int) bool { return i/64 < len(v.bits) && v.bits[i/64]>>(uint(i)%64)&1 != 0 }
func (v *varset) intersects(o *varset) bool {
	n := len(v.bits)
	if len(o.bits) < n {
		n = len(o.bits)
	}
	for i := 0; i < n; i++ {
		if v.bits[i]&o.bits[i] != 0 {
			return true
		}
	}
	return false
}
func (v *varset) subset(o *varset) bool {
	for i, b := range v.bits {
		var ob uint64
		if i < len(o.bits) {
			ob = o.bits[i]
		}
		if b&^ob != 0 {
			return false
		}
	}
	return true
}
func (v *varset) union(o *varset) *varset {
	if o.subset(v) {
		return v
	}
	if v.subset(o) {
		return o
	}
	n := len(v.bits)
	if len(o.bits) > n {
		n = len(o.bits)
	}
	r := &varset{make([]uint64, n)}
	copy(r.bits, v.bits)
	for i, b := range o.bits {
		r.bits[i] |= b
	}
	return r
}

var emptyVars = &varset{}

type termKey struct {
	op   Op
	w    uint8
	c    uint64
	name string
	a    [3]int32
	rest string
}

var (
	termTab  = map[termKey]*Term{}
	allTerms []*Term
	varList  []*Term
	varIdx   = map[string]int{}
	// ufTab: functions declared, name -> arg widths+result
	ufDecls = map[string][]uint8{}
	ufOrder []string
)

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func intern(op Op, w uint8, c uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, w: w, c: c, name: name}
	for i := 0; i < 3 && i < len(args); i++ {
		k.a[i] = args[i].ID + 1
	}
	if len(args) > 3 {
		b := make([]byte, 0, 4*len(args))
		for _, a := range args[3:] {
			b = append(b, byte(a.ID), byte(a.ID>>8), byte(a.ID>>16), byte(a.ID>>24))
		}
		k.rest = string(b)
	}
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{Op: op, W: w, C: c, Name: name, ID: int32(len(allTerms))}
	if len(args) > 0 {
		t.Args = append([]*Term(nil), args...)
	}
	vs := emptyVars
	t.size = 1
	for _, a := range args {
		vs = vs.union(a.vars)
		if s := t.size + a.size; s > t.size {
			t.size = s
		} else {
			t.size = 1 << 30
		}
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	t.vars = vs
	computeRange(t)
	termTab[k] = t
	allTerms = append(allTerms, t)
	return t
}

func computeRange(t *Term) {
	if t.W == 0 {
		t.lo, t.hi = 0, 1
		if t.Op == OConst {
			t.lo, t.hi = t.C, t.C
		}
		return
	}
	m := mask(t.W)
	t.lo, t.hi = 0, m
	switch t.Op {
	case OConst:
		t.lo, t.hi = t.C, t.C
	case OConcat:
		var lo, hi uint64
		for _, a := range t.Args {
			lo = lo<<a.W | a.lo
			hi = hi<<a.W | a.hi
		}
		t.lo, t.hi = lo, hi
	case OExtract:
		a := t.Args[0]
		if a.hi>>t.C <= m {
			t.lo, t.hi = a.lo>>t.C, a.hi>>t.C
		}
	case OIte:
		t.lo, t.hi = min(t.Args[1].lo, t.Args[2].lo), max(t.Args[1].hi, t.Args[2].hi)
	case OAdd:
		var lo, hi uint64
		ok := true
		for _, a := range t.Args {
			nlo, c1 := bits.Add64(lo, a.lo, 0)
			nhi, c2 := bits.Add64(hi, a.hi, 0)
			if c1 != 0 || c2 != 0 || nhi > m {
				ok = false
				break
			}
			lo, hi = nlo, nhi
		}
		if ok {
			t.lo, t.hi = lo, hi
		} else {
			// x + c with c "negative": both ends wrap
			if len(t.Args) == 2 && t.Args[0].Op == OConst {
				c, x := t.Args[0].C, t.Args[1]
				l, h := (x.lo+c)&m, (x.hi+c)&m
				neg := (-c) & m
				if x.lo >= neg && l <= h {
					t.lo, t.hi = l, h
				}
			}
		}
	case OMul:
		h1, l1 := bits.Mul64(t.Args[0].hi, t.Args[1].hi)
		if h1 == 0 && l1 <= m {
			t.hi = l1
			t.lo = t.Args[0].lo * t.Args[1].lo
		}
	case OUDiv:
		if t.Args[1].lo > 0 {
			t.lo, t.hi = t.Args[0].lo/t.Args[1].hi, t.Args[0].hi/t.Args[1].lo
		}
	case OURem:
		if t.Args[1].lo > 0 {
			t.hi = min(t.Args[1].hi-1, t.Args[0].hi)
		}
	case OSDiv, OSRem:
		s := uint64(1) << (t.W - 1)
		if t.Args[0].hi < s && t.Args[1].hi < s && t.Args[1].lo > 0 {
			if t.Op == OSDiv {
				t.lo, t.hi = t.Args[0].lo/t.Args[1].hi, t.Args[0].hi/t.Args[1].lo
			} else {
				t.hi = min(t.Args[1].hi-1, t.Args[0].hi)
			}
		}
	case OBAnd:
		t.hi = min(t.Args[0].hi, t.Args[1].hi)
	case OBOr, OBXor:
		h := t.Args[0].hi | t.Args[1].hi
		if n := bits.Len64(h); n < 64 {
			t.hi = (uint64(1) << n) - 1
		}
		if t.Op == OBOr {
			t.lo = max(t.Args[0].lo, t.Args[1].lo)
		}
	case OLShr:
		t.hi = t.Args[0].hi
		if t.Args[1].Op == OConst && t.Args[1].C < 64 {
			t.lo, t.hi = t.Args[0].lo>>t.Args[1].C, t.Args[0].hi>>t.Args[1].C
		}
	case ORng:
		t.lo, t.hi = t.Args[0].lo, t.C
		if t.lo > t.hi {
			t.lo = 0
		}
	case OSExt:
		a := t.Args[0]
		if a.hi < uint64(1)<<(a.W-1) {
			t.lo, t.hi = a.lo, a.hi
		}
	}
}

// ---- constructors ----

var (
	TTrue  *Term
	TFalse *Term
)

func init() {
	TFalse = intern(OConst, 0, 0, "")
	noMatch.ok = TFalse
	TTrue = intern(OConst, 0, 1, "")
}

func mkBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func mkConst(w uint8, c uint64) *Term { return intern(OConst, w, c&mask(w), "") }
func mkInt(c int64) *Term             { return mkConst(64, uint64(c)) }

// mkVar declares a variable with an unsigned range (asserted to the solver).
func mkVar(name string, w uint8, lo, hi uint64) *Term {
	if i, ok := varIdx[name]; ok {
		v := varList[i]
		if v.W != w {
			panic("variable redeclared with another width: " + name)
		}
		return v
	}
	t := intern(OVar, w, 0, name)
	t.lo, t.hi = lo, hi
	i := len(varList)
	varIdx[name] = i
	varList = append(varList, t)
	vs := &varset{make([]uint64, i/64+1)}
	vs.bits[i/64] |= 1 << (uint(i) % 64)
	t.vars = vs
	return t
}

func mkApp(name string, w uint8, args ...*Term) *Term {
	if _, ok := ufDecls[name]; !ok {
		d := []uint8{w}
		for _, a := range args {
			d = append(d, a.W)
		}
		ufDecls[name] = d
		ufOrder = append(ufOrder, name)
	}
	// applications of one function share a pseudo variable so that slicing keeps them together
	t := intern(OApp, w, 0, name, args...)
	pv := "uf!" + name
	i, ok := varIdx[pv]
	if !ok {
		i = len(varList)
		varIdx[pv] = i
		varList = append(varList, &Term{Op: OVar, W: 0, Name: pv, ID: -1})
	}
	if !t.vars.has(i) {
		vs := &varset{make([]uint64, i/64+1)}
		vs.bits[i/64] |= 1 << (uint(i) % 64)
		t.vars = t.vars.union(vs)
	}
	return t
}

func (t *Term) isConst() bool { return t.Op == OConst }

func mkNot(a *Term) *Term {
	switch a.Op {
	case OConst:
		return mkBool(a.C == 0)
	case ONot:
		return a.Args[0]
	}
	return intern(ONot, 0, 0, "", a)
}

func isNeg(a, b *Term) bool {
	return (a.Op == ONot && a.Args[0] == b) || (b.Op == ONot && b.Args[0] == a)
}

func mkNary(op Op, args []*Term) *Term {
	// op is OAnd or OOr
	var unit, zero *Term
	if op == OAnd {
		unit, zero = TTrue, TFalse
	} else {
		unit, zero = TFalse, TTrue
	}
	var flat []*Term
	var add func(a *Term, d int) bool
	add = func(a *Term, d int) bool {
		if a == zero {
			return false
		}
		if a == unit {
			return true
		}
		if a.Op == op && len(a.Args) <= 8 && d < 2 {
			for _, x := range a.Args {
				if !add(x, d+1) {
					return false
				}
			}
			return true
		}
		flat = append(flat, a)
		return true
	}
	for _, a := range args {
		if !add(a, 0) {
			return zero
		}
	}
	if len(flat) == 0 {
		return unit
	}
	if len(flat) == 1 {
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].ID < flat[j].ID })
	out := flat[:0]
	var prev *Term
	for _, a := range flat {
		if a != prev {
			out = append(out, a)
		}
		prev = a
	}
	flat = out
	set := map[int32]bool{}
	for _, a := range flat {
		set[a.ID] = true
	}
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	changed := false
	res := make([]*Term, 0, len(flat))
	for _, a := range flat {
		if a.Op == ONot && set[a.Args[0].ID] {
			return zero
		}
		// absorption: x op (x dual y) = x ; x op (!x dual y) = x op y
		if a.Op == dual && len(a.Args) <= 8 {
			drop := false
			var keep []*Term
			for _, x := range a.Args {
				if set[x.ID] {
					drop = true
					break
				}
				n := mkNot(x)
				if set[n.ID] {
					changed = true
					continue
				}
				keep = append(keep, x)
			}
			if drop {
				continue
			}
			if len(keep) != len(a.Args) {
				a = mkNary(dual, keep)
			}
		}
		if a.Op == ONot && a.Args[0].Op == op && len(a.Args[0].Args) <= 8 {
			// x op !(x op y) = x op !y ; !x in set: !(..)=... x∧¬(¬x∧y)=x
			in := a.Args[0]
			drop := false
			var keep []*Term
			for _, x := range in.Args {
				if set[mkNot(x).ID] {
					drop = true
					break
				}
				if set[x.ID] {
					changed = true
					continue
				}
				keep = append(keep, x)
			}
			if drop {
				continue
			}
			if len(keep) != len(in.Args) {
				a = mkNot(mkNary(op, keep))
			}
		}
		res = append(res, a)
	}
	if changed {
		return mkNary(op, res)
	}
	if len(res) == 0 {
		return unit
	}
	if len(res) == 1 {
		return res[0]
	}
	if op == OOr && len(res) == 2 && res[0].Op == OAnd && res[1].Op == OAnd {
		// (a∧b) ∨ (a∧c) = a ∧ (b∨c)
		x, y := res[0], res[1]
		if len(x.Args) <= 8 && len(y.Args) <= 8 {
			var common, rx, ry []*Term
			ys := map[int32]bool{}
			for _, b := range y.Args {
				ys[b.ID] = true
			}
			xs := map[int32]bool{}
			for _, a := range x.Args {
				xs[a.ID] = true
				if ys[a.ID] {
					common = append(common, a)
				} else {
					rx = append(rx, a)
				}
			}
			for _, b := range y.Args {
				if !xs[b.ID] {
					ry = append(ry, b)
				}
			}
			if len(common) > 0 {
				return mkNary(OAnd, append(common, mkNary(OOr, []*Term{mkNary(OAnd, rx), mkNary(OAnd, ry)})))
			}
		}
	}
	return intern(op, 0, 0, "", res...)
}

func mkAnd(args ...*Term) *Term {
	if len(args) == 2 {
		a, b := args[0], args[1]
		if a == TTrue {
			return b
		}
		if b == TTrue || a == b {
			return a
		}
		if a == TFalse || b == TFalse {
			return TFalse
		}
	}
	return mkNary(OAnd, append([]*Term(nil), args...))
}
func mkOr(args ...*Term) *Term {
	if len(args) == 2 {
		a, b := args[0], args[1]
		if a == TFalse {
			return b
		}
		if b == TFalse || a == b {
			return a
		}
		if a == TTrue || b == TTrue {
			return TTrue
		}
	}
	return mkNary(OOr, append([]*Term(nil), args...))
}
func mkImplies(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func mkIte(c, a, b *Term) *Term {
	if c == TTrue || a == b {
		return a
	}
	if c == TFalse {
		return b
	}
	if c.Op == ONot {
		return mkIte(c.Args[0], b, a)
	}
	if a.W != b.W {
		panic(fmt.Sprintf("ite width mismatch %d %d", a.W, b.W))
	}
	if a.W == 0 {
		if a == TTrue {
			return mkOr(c, b)
		}
		if a == TFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == TTrue {
			return mkOr(mkNot(c), a)
		}
		if b == TFalse {
			return mkAnd(c, a)
		}
		if a == c {
			return mkOr(c, b)
		}
		if b == c {
			return mkAnd(c, a)
		}
		if isNeg(a, b) {
			// c ? a : !a  = (c == a)
			return mkEq(c, a)
		}
	}
	if a.Op == OIte && a.Args[0] == c {
		return mkIte(c, a.Args[1], b)
	}
	if b.Op == OIte && b.Args[0] == c {
		return mkIte(c, a, b.Args[2])
	}
	if a.Op == OIte && a.Args[2] == b {
		// c ? (d ? x : b) : b
		return mkIte(mkAnd(c, a.Args[0]), a.Args[1], b)
	}
	if a.Op == OIte && a.Args[1] == b {
		return mkIte(mkAnd(c, mkNot(a.Args[0])), a.Args[2], b)
	}
	if b.Op == OIte && b.Args[1] == a {
		return mkIte(mkOr(c, b.Args[0]), a, b.Args[2])
	}
	if b.Op == OIte && b.Args[2] == a {
		return mkIte(mkOr(c, mkNot(b.Args[0])), a, b.Args[1])
	}
	if a.W > 0 {
		// c ? x : ite(d,..) with c == eq(x, const): leave
		if c.Op == OEq && c.Args[0].Op == OConst && c.Args[1] == b && c.Args[0] == a {
			return b
		}
		// strip common zero high bits / shared segments
		if a.Op == OConcat && b.Op == OConcat && len(a.Args) == len(b.Args) {
			same := true
			eqn := 0
			for i := range a.Args {
				if a.Args[i].W != b.Args[i].W {
					same = false
					break
				}
				if a.Args[i] == b.Args[i] {
					eqn++
				}
			}
			if same && eqn > 0 {
				out := make([]*Term, len(a.Args))
				for i := range a.Args {
					out[i] = mkIte(c, a.Args[i], b.Args[i])
				}
				return mkConcat(out...)
			}
		}
		// zero-extended narrow values
		na, nb := bits.Len64(a.hi), bits.Len64(b.hi)
		n := max(na, nb)
		if n == 0 {
			return mkConst(a.W, 0)
		}
		if n < int(a.W) && (a.Op == OConcat || a.Op == OConst) && (b.Op == OConcat || b.Op == OConst) {
			// round up to a byte to keep shapes regular
			nw := uint8((n + 7) / 8 * 8)
			if nw < a.W {
				ea, eb := mkExtract(a, 0, nw), mkExtract(b, 0, nw)
				if ea.Op != OExtract && eb.Op != OExtract {
					return mkZExt(intern(OIte, nw, 0, "", c, ea, eb), a.W)
				}
			}
		}
	}
	return intern(OIte, a.W, 0, "", c, a, b)
}

// ---- concat / extract ----

func mkZExt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.W > w {
		return mkExtract(a, 0, w)
	}
	return mkConcat(mkConst(w-a.W, 0), a)
}

func mkSExt(a *Term, w uint8) *Term {
	if a.W >= w {
		return mkExtract(a, 0, w)
	}
	if a.Op == OConst {
		v := a.C
		if v>>(a.W-1)&1 != 0 {
			v |= ^mask(a.W)
		}
		return mkConst(w, v)
	}
	if a.hi < uint64(1)<<(a.W-1) {
		return mkZExt(a, w)
	}
	if a.Op == OSExt {
		return mkSExt(a.Args[0], w)
	}
	if a.Op == OIte && (a.Args[1].Op == OConst || a.Args[2].Op == OConst) {
		return mkIte(a.Args[0], mkSExt(a.Args[1], w), mkSExt(a.Args[2], w))
	}
	return intern(OSExt, w, 0, "", a)
}

func mkConcat(args ...*Term) *Term {
	flat := make([]*Term, 0, len(args))
	for _, a := range args {
		if a.W == 0 {
			panic("concat of bool")
		}
		if a.Op == OConcat {
			flat = append(flat, a.Args...)
		} else {
			flat = append(flat, a)
		}
	}
	out := flat[:0:0]
	for _, a := range flat {
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.Op == OConst && a.Op == OConst && p.W+a.W <= 64 {
				out[n-1] = mkConst(p.W+a.W, p.C<<a.W|a.C)
				continue
			}
			// adjacent extracts of the same base
			if p.Op == OExtract && a.Op == OExtract && p.Args[0] == a.Args[0] && p.C == a.C+uint64(a.W) {
				out[n-1] = mkExtract(p.Args[0], uint8(a.C), p.W+a.W)
				continue
			}
		}
		out = append(out, a)
	}
	if len(out) == 1 {
		return out[0]
	}
	var w uint8
	for _, a := range out {
		w += a.W
	}
	if w > 64 {
		panic("concat too wide")
	}
	// leading constant zero with rest of ite of const... keep
	return intern(OConcat, w, 0, "", out...)
}

func mkExtract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.W {
		return a
	}
	if int(lo)+int(w) > int(a.W) {
		panic("extract out of range")
	}
	switch a.Op {
	case OConst:
		return mkConst(w, a.C>>lo)
	case OExtract:
		return mkExtract(a.Args[0], uint8(a.C)+lo, w)
	case OConcat:
		// gather pieces
		var parts []*Term
		pos := int(a.W)
		for _, x := range a.Args {
			pos -= int(x.W)
			// x occupies [pos, pos+x.W)
			l, h := max(pos, int(lo)), min(pos+int(x.W), int(lo)+int(w))
			if l < h {
				parts = append(parts, mkExtract(x, uint8(l-pos), uint8(h-l)))
			}
		}
		return mkConcat(parts...)
	case OIte:
		if a.Args[1].Op == OConst || a.Args[2].Op == OConst || a.Args[1].Op == OConcat || a.Args[2].Op == OConcat {
			return mkIte(a.Args[0], mkExtract(a.Args[1], lo, w), mkExtract(a.Args[2], lo, w))
		}
	case OBAnd, OBOr, OBXor:
		x, y := mkExtract(a.Args[0], lo, w), mkExtract(a.Args[1], lo, w)
		return mkBitop(a.Op, x, y)
	case OBNot:
		return mkBNot(mkExtract(a.Args[0], lo, w))
	case OSExt:
		x := a.Args[0]
		if int(lo)+int(w) <= int(x.W) {
			return mkExtract(x, lo, w)
		}
		if lo < x.W {
			return mkSExt(mkExtract(x, lo, x.W-lo), w)
		}
	case OAdd:
		if lo == 0 {
			args := make([]*Term, len(a.Args))
			for i, x := range a.Args {
				args[i] = mkExtract(x, 0, w)
			}
			r := args[0]
			for _, x := range args[1:] {
				r = mkAdd(r, x)
			}
			return r
		}
	case OMul:
		if lo == 0 {
			return mkMul(mkExtract(a.Args[0], 0, w), mkExtract(a.Args[1], 0, w))
		}
	}
	if n := bits.Len64(a.hi); n <= int(lo) {
		return mkConst(w, 0)
	}
	return intern(OExtract, w, uint64(lo), "", a)
}

// ---- bit operations ----

// segs splits t into constant / non-constant pieces, msb first.
func segs(t *Term) []*Term {
	if t.Op == OConcat {
		return t.Args
	}
	return []*Term{t}
}

// cuts returns a list of segment boundaries (from msb) of t, treating constants by runs of bits.
func constCuts(c uint64, w uint8, cut map[int]bool) int {
	n := 0
	prev := -1
	for i := int(w) - 1; i >= 0; i-- {
		b := int(c >> uint(i) & 1)
		if prev >= 0 && b != prev {
			cut[i+1] = true
			n++
		}
		prev = b
	}
	return n
}

func mkBNot(a *Term) *Term {
	switch a.Op {
	case OConst:
		return mkConst(a.W, ^a.C)
	case OBNot:
		return a.Args[0]
	case OConcat:
		out := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			out[i] = mkBNot(x)
		}
		return mkConcat(out...)
	}
	return intern(OBNot, a.W, 0, "", a)
}

func mkBitop(op Op, a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("bitop width %d %d", a.W, b.W))
	}
	w := a.W
	if a.Op == OConst && b.Op == OConst {
		switch op {
		case OBAnd:
			return mkConst(w, a.C&b.C)
		case OBOr:
			return mkConst(w, a.C|b.C)
		default:
			return mkConst(w, a.C^b.C)
		}
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		switch op {
		case OBAnd:
			if b.C == 0 {
				return b
			}
			if b.C == mask(w) {
				return a
			}
		case OBOr:
			if b.C == 0 {
				return a
			}
			if b.C == mask(w) {
				return b
			}
		case OBXor:
			if b.C == 0 {
				return a
			}
			if b.C == mask(w) {
				return mkBNot(a)
			}
		}
	}
	if a == b {
		if op == OBXor {
			return mkConst(w, 0)
		}
		return a
	}
	if (a.Op == OBNot && a.Args[0] == b) || (b.Op == OBNot && b.Args[0] == a) {
		switch op {
		case OBAnd:
			return mkConst(w, 0)
		default:
			return mkConst(w, mask(w))
		}
	}
	// segment-wise
	if a.Op == OConcat || b.Op == OConcat || b.Op == OConst {
		cut := map[int]bool{}
		runs := 0
		for _, t := range []*Term{a, b} {
			pos := int(w)
			for _, s := range segs(t) {
				pos -= int(s.W)
				if pos > 0 {
					cut[pos] = true
				}
				if s.Op == OConst {
					sub := map[int]bool{}
					runs += constCuts(s.C, s.W, sub)
					for k := range sub {
						cut[pos+k] = true
					}
				}
			}
		}
		if len(cut) > 0 && (runs <= 6 || (a.Op == OConcat && b.Op == OConcat)) {
			ps := make([]int, 0, len(cut)+2)
			for k := range cut {
				ps = append(ps, k)
			}
			ps = append(ps, 0, int(w))
			sort.Sort(sort.Reverse(sort.IntSlice(ps)))
			useful := false
			var out []*Term
			for i := 0; i+1 < len(ps); i++ {
				l, n := uint8(ps[i+1]), uint8(ps[i]-ps[i+1])
				if n == 0 {
					continue
				}
				x, y := mkExtract(a, l, n), mkExtract(b, l, n)
				if x.Op == OConst || y.Op == OConst {
					useful = true
				}
				out = append(out, mkBitop(op, x, y))
			}
			if useful {
				return mkConcat(out...)
			}
		}
	}
	if b.Op == OConst && a.Op == OIte && a.Args[1].Op == OConst && a.Args[2].Op == OConst {
		return mkIte(a.Args[0], mkBitop(op, a.Args[1], b), mkBitop(op, a.Args[2], b))
	}
	if a.Op == op && b.Op == op {
		// leave
	}
	if op == OBXor {
		// cancel x ^ (x ^ y)
		if a.Op == OBXor {
			if a.Args[0] == b {
				return a.Args[1]
			}
			if a.Args[1] == b {
				return a.Args[0]
			}
		}
		if b.Op == OBXor {
			if b.Args[0] == a {
				return b.Args[1]
			}
			if b.Args[1] == a {
				return b.Args[0]
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(op, w, 0, "", a, b)
}

func mkBAnd(a, b *Term) *Term { return mkBitop(OBAnd, a, b) }
func mkBOr(a, b *Term) *Term  { return mkBitop(OBOr, a, b) }
func mkBXor(a, b *Term) *Term { return mkBitop(OBXor, a, b) }

// shifts: Go semantics handled by the caller (count >= width); here SMT-LIB semantics.
func mkShl(a, s *Term) *Term {
	w := a.W
	if s.Op == OConst {
		if s.C >= uint64(w) {
			return mkConst(w, 0)
		}
		k := uint8(s.C)
		if k == 0 {
			return a
		}
		return mkConcat(mkExtract(a, 0, w-k), mkConst(k, 0))
	}
	if a.Op == OConst && a.C == 0 {
		return a
	}
	if s.hi < 64 && s.hi-s.lo <= 64 {
		return shiftMux(s, func(k uint64) *Term { return mkShl(a, mkConst(w, k)) })
	}
	return intern(OShl, w, 0, "", a, s)
}
func mkLShr(a, s *Term) *Term {
	w := a.W
	if s.Op == OConst {
		if s.C >= uint64(w) {
			return mkConst(w, 0)
		}
		k := uint8(s.C)
		if k == 0 {
			return a
		}
		return mkConcat(mkConst(k, 0), mkExtract(a, k, w-k))
	}
	if a.Op == OConst && a.C == 0 {
		return a
	}
	if s.hi < 64 && s.hi-s.lo <= 64 {
		return shiftMux(s, func(k uint64) *Term { return mkLShr(a, mkConst(w, k)) })
	}
	return intern(OLShr, w, 0, "", a, s)
}
func mkAShr(a, s *Term) *Term {
	w := a.W
	if s.Op == OConst {
		k := s.C
		if k >= uint64(w) {
			k = uint64(w) - 1
		}
		if k == 0 {
			return a
		}
		return mkSExt(mkExtract(a, uint8(k), w-uint8(k)), w)
	}
	if a.hi < uint64(1)<<(w-1) {
		return mkLShr(a, s)
	}
	return intern(OAShr, w, 0, "", a, s)
}
func shiftMux(s *Term, f func(uint64) *Term) *Term {
	r := f(s.hi)
	for k := s.hi; k > s.lo; {
		k--
		r = mkIte(mkEq(s, mkConst(s.W, k)), f(k), r)
	}
	return r
}

// ---- arithmetic ----

type linForm struct {
	c    uint64
	ts   []*Term
	cs   []uint64
	over bool
}

func (l *linForm) add(t *Term, c uint64) {
	for i, x := range l.ts {
		if x == t {
			l.cs[i] += c
			return
		}
	}
	l.ts = append(l.ts, t)
	l.cs = append(l.cs, c)
}

func lin(t *Term, k uint64, l *linForm) {
	switch t.Op {
	case OConst:
		l.c += k * t.C
	case OAdd:
		for _, a := range t.Args {
			lin(a, k, l)
		}
	case OMul:
		if t.Args[0].Op == OConst {
			lin(t.Args[1], k*t.Args[0].C, l)
			return
		}
		l.add(t, k)
	default:
		l.add(t, k)
	}
}

func (l *linForm) build(w uint8) *Term {
	m := mask(w)
	type it struct {
		t *Term
		c uint64
	}
	var its []it
	for i, t := range l.ts {
		c := l.cs[i] & m
		if c == 0 {
			continue
		}
		its = append(its, it{t, c})
	}
	c := l.c & m
	if len(its) == 0 {
		return mkConst(w, c)
	}
	sort.Slice(its, func(i, j int) bool { return its[i].t.ID < its[j].t.ID })
	var args []*Term
	if c != 0 {
		args = append(args, mkConst(w, c))
	}
	for _, x := range its {
		if x.c == 1 {
			args = append(args, x.t)
		} else {
			args = append(args, rawMulConst(x.t, x.c))
		}
	}
	if len(args) == 1 {
		return args[0]
	}
	return intern(OAdd, w, 0, "", args...)
}

func rawMulConst(t *Term, c uint64) *Term {
	return intern(OMul, t.W, 0, "", mkConst(t.W, c), t)
}

func mkAdd(a, b *Term) *Term {
	if a.W != b.W {
		panic("add width")
	}
	if a.Op == OConst && b.Op == OConst {
		return mkConst(a.W, a.C+b.C)
	}
	if a.Op == OConst && a.C == 0 {
		return b
	}
	if b.Op == OConst && b.C == 0 {
		return a
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst && a.Op == OIte {
		// push constants into ite of constants
		if a.Args[1].Op == OConst || a.Args[2].Op == OConst {
			if constLeaves(a, 40) {
				return mkIte(a.Args[0], mkAdd(a.Args[1], b), mkAdd(a.Args[2], b))
			}
		}
	}
	// disjoint bits: x00 + y -> concat
	if a.Op == OConcat && b.Op != OAdd {
		if r := disjointAdd(a, b); r != nil {
			return r
		}
	} else if b.Op == OConcat && a.Op != OAdd {
		if r := disjointAdd(b, a); r != nil {
			return r
		}
	}
	var l linForm
	lin(a, 1, &l)
	lin(b, 1, &l)
	if len(l.ts) > 24 {
		if a.ID > b.ID {
			a, b = b, a
		}
		return intern(OAdd, a.W, 0, "", a, b)
	}
	r := l.build(a.W)
	if r.Op == OAdd {
		rng := false
		for _, t := range l.ts {
			if t.Op == ORng {
				rng = true
			}
		}
		if rng { // does looking through the range marks cancel something?
			var x linForm
			n := 0
			x.c = l.c
			for i, t := range l.ts {
				if t.Op == ORng {
					before := len(x.ts)
					lin(t.Args[0], l.cs[i], &x)
					n += len(x.ts) - before
				} else {
					x.add(t, l.cs[i])
				}
			}
			q := x.build(a.W)
			if q.hi-q.lo < r.hi-r.lo || q.Op != OAdd || len(q.Args) < len(r.Args) {
				return q
			}
		}
	}
	return r
}

// mkRng records that t never exceeds hi (the caller knows it).
func mkRng(t *Term, hi uint64) *Term {
	if t.hi <= hi || t.Op == OConst {
		return t
	}
	return intern(ORng, t.W, hi, "", t)
}

// disjointAdd: a ends in a zero constant of k bits and b < 2^k
func disjointAdd(a, b *Term) *Term {
	last := a.Args[len(a.Args)-1]
	if last.Op == OConst && last.C == 0 {
		if b.hi <= mask(last.W) {
			return mkConcat(append(append([]*Term(nil), a.Args[:len(a.Args)-1]...), mkExtract(b, 0, last.W))...)
		}
	}
	return nil
}

func constLeaves(t *Term, n int) bool {
	for t.Op == OIte {
		n--
		if n < 0 {
			return false
		}
		if t.Args[1].Op == OConst {
			t = t.Args[2]
		} else if t.Args[2].Op == OConst {
			t = t.Args[1]
		} else {
			return false
		}
	}
	return t.Op == OConst
}

func mkNeg(a *Term) *Term {
	var l linForm
	lin(a, ^uint64(0), &l)
	return l.build(a.W)
}
func mkSub(a, b *Term) *Term {
	if a == b {
		return mkConst(a.W, 0)
	}
	if b.Op == OConst {
		return mkAdd(a, mkConst(a.W, -b.C))
	}
	var l linForm
	lin(a, 1, &l)
	lin(b, ^uint64(0), &l)
	return l.build(a.W)
}

func mkMul(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return mkConst(a.W, a.C*b.C)
	}
	if b.Op == OConst {
		a, b = b, a
	}
	if a.Op == OConst {
		if a.C == 0 {
			return a
		}
		if a.C == 1 {
			return b
		}
		if b.Op == OIte && constLeaves(b, 40) {
			return mkIte(b.Args[0], mkMul(a, b.Args[1]), mkMul(a, b.Args[2]))
		}
		if bits.OnesCount64(a.C) == 1 {
			return mkShl(b, mkConst(a.W, uint64(bits.TrailingZeros64(a.C))))
		}
		var l linForm
		lin(b, a.C, &l)
		return l.build(a.W)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(OMul, a.W, 0, "", a, b)
}

func mkUDiv(a, b *Term) *Term { // b != 0 assumed by caller
	if b.Op == OConst {
		if b.C == 1 {
			return a
		}
		if a.Op == OConst && b.C != 0 {
			return mkConst(a.W, a.C/b.C)
		}
		if bits.OnesCount64(b.C) == 1 {
			return mkLShr(a, mkConst(a.W, uint64(bits.TrailingZeros64(b.C))))
		}
		if a.hi < b.C {
			return mkConst(a.W, 0)
		}
		// narrow
		if n := uint8(bits.Len64(a.hi)); b.C != 0 && n < a.W && bits.Len64(b.C) <= int(n) && a.Op == OConcat {
			return mkZExt(intern(OUDiv, n, 0, "", mkExtract(a, 0, n), mkConst(n, b.C)), a.W)
		}
	}
	return intern(OUDiv, a.W, 0, "", a, b)
}
func mkURem(a, b *Term) *Term {
	if b.Op == OConst {
		if b.C == 1 {
			return mkConst(a.W, 0)
		}
		if a.Op == OConst && b.C != 0 {
			return mkConst(a.W, a.C%b.C)
		}
		if bits.OnesCount64(b.C) == 1 {
			k := uint8(bits.TrailingZeros64(b.C))
			return mkZExt(mkExtract(a, 0, k), a.W)
		}
		if a.hi < b.C {
			return a
		}
		if n := uint8(bits.Len64(a.hi)); b.C != 0 && n < a.W && bits.Len64(b.C) <= int(n) && a.Op == OConcat {
			return mkZExt(intern(OURem, n, 0, "", mkExtract(a, 0, n), mkConst(n, b.C)), a.W)
		}
	}
	return intern(OURem, a.W, 0, "", a, b)
}
func signed(c uint64, w uint8) int64 {
	if w < 64 && c>>(w-1)&1 != 0 {
		c |= ^mask(w)
	}
	return int64(c)
}
func mkSDiv(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst && b.C != 0 {
		x, y := signed(a.C, a.W), signed(b.C, b.W)
		if y == -1 {
			return mkConst(a.W, uint64(-x))
		}
		return mkConst(a.W, uint64(x/y))
	}
	s := uint64(1) << (a.W - 1)
	if a.hi < s && b.hi < s {
		return mkUDiv(a, b)
	}
	return intern(OSDiv, a.W, 0, "", a, b)
}
func mkSRem(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst && b.C != 0 {
		x, y := signed(a.C, a.W), signed(b.C, b.W)
		if y == -1 {
			return mkConst(a.W, 0)
		}
		return mkConst(a.W, uint64(x%y))
	}
	s := uint64(1) << (a.W - 1)
	if a.hi < s && b.hi < s {
		return mkURem(a, b)
	}
	return intern(OSRem, a.W, 0, "", a, b)
}

// ---- comparisons ----

func mkEq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width %d %d", a.W, b.W))
	}
	if a.Op == OConst && b.Op == OConst {
		return TFalse
	}
	if b.Op == OConst {
		a, b = b, a
	}
	if a.W == 0 {
		if a == TTrue {
			return b
		}
		if a == TFalse {
			return mkNot(b)
		}
		if isNeg(a, b) {
			return TFalse
		}
		if a.Op == ONot && b.Op == ONot {
			return mkEq(a.Args[0], b.Args[0])
		}
		if a.Op == ONot {
			return mkNot(mkEq(a.Args[0], b))
		}
		if b.Op == ONot {
			return mkNot(mkEq(a, b.Args[0]))
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return intern(OEq, 0, 0, "", a, b)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return TFalse
	}
	if a.Op == OConst {
		switch b.Op {
		case OConcat:
			args := make([]*Term, 0, len(b.Args))
			pos := b.W
			for _, x := range b.Args {
				pos -= x.W
				args = append(args, mkEq(mkConst(x.W, a.C>>pos), x))
			}
			return mkAnd(args...)
		case OIte:
			x, y := b.Args[1], b.Args[2]
			if x.Op == OConst || y.Op == OConst || b.size < 64 {
				return mkIte(b.Args[0], mkEq(a, x), mkEq(a, y))
			}
			// disjoint ranges
			if a.C < x.lo || a.C > x.hi {
				return mkAnd(mkNot(b.Args[0]), mkEq(a, y))
			}
			if a.C < y.lo || a.C > y.hi {
				return mkAnd(b.Args[0], mkEq(a, x))
			}
		case OAdd:
			if b.Args[0].Op == OConst {
				rest := mkSub(b, b.Args[0])
				return mkEq(mkConst(a.W, a.C-b.Args[0].C), rest)
			}
		case OBXor:
			if b.Args[0].Op == OConst {
				return mkEq(mkConst(a.W, a.C^b.Args[0].C), b.Args[1])
			}
			if b.Args[1].Op == OConst {
				return mkEq(mkConst(a.W, a.C^b.Args[1].C), b.Args[0])
			}
		case OBNot:
			return mkEq(mkConst(a.W, ^a.C), b.Args[0])
		case OSExt:
			x := b.Args[0]
			lowc := mkConst(x.W, a.C)
			if mkSExt(lowc, a.W) != a {
				return TFalse
			}
			return mkEq(lowc, x)
		}
		return intern(OEq, 0, 0, "", a, b)
	}
	if a.Op == OConcat || b.Op == OConcat {
		// align
		sa, sb := segs(a), segs(b)
		cut := map[int]bool{}
		for _, s := range [][]*Term{sa, sb} {
			pos := int(a.W)
			for _, x := range s {
				pos -= int(x.W)
				cut[pos] = true
			}
		}
		if len(cut) > 1 && len(cut) <= 16 {
			ps := []int{int(a.W)}
			for k := range cut {
				ps = append(ps, k)
			}
			sort.Sort(sort.Reverse(sort.IntSlice(ps)))
			useful := a.Op == OConcat && b.Op == OConcat
			args := []*Term{}
			for i := 0; i+1 < len(ps); i++ {
				l, n := uint8(ps[i+1]), uint8(ps[i]-ps[i+1])
				x, y := mkExtract(a, l, n), mkExtract(b, l, n)
				if x == y {
					useful = true
				}
				args = append(args, mkEq(x, y))
			}
			if useful {
				return mkAnd(args...)
			}
		}
	}
	if a.Op == OSExt && b.Op == OSExt && a.Args[0].W == b.Args[0].W {
		return mkEq(a.Args[0], b.Args[0])
	}
	if a.Op == OAdd || b.Op == OAdd {
		// move to canonical difference when something cancels
		var l linForm
		lin(a, 1, &l)
		n0 := len(l.ts)
		var lb linForm
		lin(b, 1, &lb)
		c0 := l.c
		lin(b, ^uint64(0), &l)
		m := mask(a.W)
		nz := 0
		for i := range l.ts {
			if l.cs[i]&m != 0 {
				nz++
			}
		}
		if nz < n0+len(lb.ts) || (c0&m != 0 && lb.c&m != 0) {
			if nz == 0 {
				return mkBool(l.c&m == 0)
			}
			// split positive/negative
			var lp, ln linForm
			for i, t := range l.ts {
				c := l.cs[i] & m
				if c == 0 {
					continue
				}
				if signed(c, a.W) < 0 {
					ln.add(t, -c)
				} else {
					lp.add(t, c)
				}
			}
			if signed(l.c&m, a.W) < 0 {
				ln.c = -l.c
			} else {
				lp.c = l.c
			}
			na, nb := lp.build(a.W), ln.build(a.W)
			if !(na == a && nb == b) && !(na == b && nb == a) {
				return mkEq(na, nb)
			}
		}
	}
	if a.Op == OIte && b.Op == OIte && a.Args[0] == b.Args[0] {
		return mkIte(a.Args[0], mkEq(a.Args[1], b.Args[1]), mkEq(a.Args[2], b.Args[2]))
	}
	if a.Op == OIte && (a.Args[1] == b || a.Args[2] == b) {
		if a.Args[1] == b {
			return mkOr(a.Args[0], mkEq(a.Args[2], b))
		}
		return mkOr(mkNot(a.Args[0]), mkEq(a.Args[1], b))
	}
	if b.Op == OIte && (b.Args[1] == a || b.Args[2] == a) {
		return mkEq(b, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(OEq, 0, 0, "", a, b)
}

func mkULt(a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("ult width %d %d", a.W, b.W))
	}
	if a == b || a.lo >= b.hi {
		return TFalse
	}
	if a.hi < b.lo {
		return TTrue
	}
	if b.Op == OConst && b.C == 1 {
		return mkEq(mkConst(a.W, 0), a)
	}
	if a.Op == OConst && a.C == 0 {
		return mkNot(mkEq(a, b))
	}
	if a.Op == OConst && a.C == mask(a.W)-1 {
		return mkEq(b, mkConst(a.W, mask(a.W)))
	}
	// singleton edges
	if b.Op == OConst && a.lo == b.C-1 {
		return mkEq(a, mkConst(a.W, a.lo))
	}
	if a.Op == OConst && b.hi == a.C+1 {
		return mkEq(b, mkConst(b.W, b.hi))
	}
	if a.Op == OConst && b.lo == a.C {
		return mkNot(mkEq(a, b))
	}
	if b.Op == OConst && a.hi == b.C {
		return mkNot(mkEq(a, b))
	}
	// narrow when both have zero high parts
	n := uint8(bits.Len64(a.hi | b.hi))
	if n < a.W && (a.Op == OConcat || a.Op == OConst) && (b.Op == OConcat || b.Op == OConst) {
		x, y := mkExtract(a, 0, n), mkExtract(b, 0, n)
		return mkULt(x, y)
	}
	// drop equal low zero bits: (x:0..) < (y:0..)
	if a.Op == OConcat && (b.Op == OConcat || b.Op == OConst) || b.Op == OConcat && a.Op == OConst {
		tz := min(trailZeros(a), trailZeros(b))
		if tz > 0 && tz < int(a.W) {
			return mkULt(mkExtract(a, uint8(tz), a.W-uint8(tz)), mkExtract(b, uint8(tz), a.W-uint8(tz)))
		}
		// constants: compare high part when low part of constant allows
		if b.Op == OConst && a.Op == OConcat {
			last := a.Args[len(a.Args)-1]
			if last.Op == OConst {
				// a = x:c ; a < b  <=>  x < bh or (x == bh and c < bl)
				k := last.W
				bh, bl := b.C>>k, b.C&mask(k)
				x := mkExtract(a, k, a.W-k)
				if last.C < bl {
					if bh == mask(a.W-k) {
						return TTrue
					}
					return mkULt(x, mkConst(a.W-k, bh+1))
				}
				return mkULt(x, mkConst(a.W-k, bh))
			}
		}
		if a.Op == OConst && b.Op == OConcat {
			last := b.Args[len(b.Args)-1]
			if last.Op == OConst {
				k := last.W
				ah, al := a.C>>k, a.C&mask(k)
				x := mkExtract(b, k, b.W-k)
				if al < last.C { // ah <= x
					return mkNot(mkULt(x, mkConst(x.W, ah)))
				}
				return mkULt(mkConst(x.W, ah), x)
			}
		}
	}
	if b.Op == OConst && a.Op == OIte && (a.Args[1].Op == OConst || a.Args[2].Op == OConst) {
		return mkIte(a.Args[0], mkULt(a.Args[1], b), mkULt(a.Args[2], b))
	}
	if a.Op == OConst && b.Op == OIte && (b.Args[1].Op == OConst || b.Args[2].Op == OConst) {
		return mkIte(b.Args[0], mkULt(a, b.Args[1]), mkULt(a, b.Args[2]))
	}
	// offsets without wrap
	if b.Op == OConst && a.Op == OAdd && a.Args[0].Op == OConst && noWrapAdd(a) {
		c := a.Args[0].C
		rest := mkSub(a, a.Args[0])
		if b.C < c {
			return TFalse
		}
		return mkULt(rest, mkConst(a.W, b.C-c))
	}
	if a.Op == OConst && b.Op == OAdd && b.Args[0].Op == OConst && noWrapAdd(b) {
		c := b.Args[0].C
		rest := mkSub(b, b.Args[0])
		if a.C < c {
			return TTrue
		}
		return mkULt(mkConst(a.W, a.C-c), rest)
	}
	if a.Op == OAdd && b.Op == OAdd && a.Args[0].Op == OConst && b.Args[0].Op == OConst && noWrapAdd(a) && noWrapAdd(b) {
		ca, cb := a.Args[0].C, b.Args[0].C
		m := min(ca, cb)
		return mkULt(mkSub(a, mkConst(a.W, m)), mkSub(b, mkConst(b.W, m)))
	}
	// x < x + c without wrap
	if b.Op == OAdd && noWrapAdd(b) && len(b.Args) == 2 && (b.Args[1] == a || b.Args[0] == a) {
		o := b.Args[0]
		if o == a {
			o = b.Args[1]
		}
		return mkULt(mkConst(a.W, 0), o)
	}
	if a.Op == OAdd && noWrapAdd(a) {
		for _, x := range a.Args {
			if x == b {
				return TFalse
			}
		}
	}
	return intern(OULt, 0, 0, "", a, b)
}

func trailZeros(t *Term) int {
	if t.Op == OConst {
		if t.C == 0 {
			return int(t.W)
		}
		return bits.TrailingZeros64(t.C)
	}
	if t.Op == OConcat {
		l := t.Args[len(t.Args)-1]
		if l.Op == OConst {
			return bits.TrailingZeros64(l.C | 1<<63<<0 | (1 << (l.W - 1) << 1))
		}
	}
	return 0
}

func noWrapAdd(t *Term) bool {
	var hi uint64
	m := mask(t.W)
	for _, a := range t.Args {
		n, c := bits.Add64(hi, a.hi, 0)
		if c != 0 || n > m {
			return false
		}
		hi = n
	}
	return true
}

func mkULe(a, b *Term) *Term { return mkNot(mkULt(b, a)) }

func mkSLt(a, b *Term) *Term {
	if a == b {
		return TFalse
	}
	if a.Op == OConst && b.Op == OConst {
		return mkBool(signed(a.C, a.W) < signed(b.C, b.W))
	}
	s := uint64(1) << (a.W - 1)
	an, bn := a.hi < s, b.hi < s       // surely non-negative
	aneg, bneg := a.lo >= s, b.lo >= s // surely negative
	if an && bn || aneg && bneg {
		return mkULt(a, b)
	}
	if aneg && bn {
		return TTrue
	}
	if an && bneg {
		return TFalse
	}
	if a.Op == OSExt && b.Op == OSExt && a.Args[0].W == b.Args[0].W {
		return mkSLt(a.Args[0], b.Args[0])
	}
	if a.Op == OSExt && b.Op == OConst {
		x := a.Args[0]
		lw := signed(b.C, b.W)
		if lw > int64(mask(x.W-1)) {
			return TTrue
		}
		if lw <= -int64(uint64(1)<<(x.W-1)) {
			return TFalse
		}
		return mkSLt(x, mkConst(x.W, b.C))
	}
	if b.Op == OSExt && a.Op == OConst {
		x := b.Args[0]
		lw := signed(a.C, a.W)
		if lw >= int64(mask(x.W-1)) {
			return TFalse
		}
		if lw < -int64(uint64(1)<<(x.W-1)) {
			return TTrue
		}
		return mkSLt(mkConst(x.W, a.C), x)
	}
	if b.Op == OConst && a.Op == OIte && (a.Args[1].Op == OConst || a.Args[2].Op == OConst) {
		return mkIte(a.Args[0], mkSLt(a.Args[1], b), mkSLt(a.Args[2], b))
	}
	if a.Op == OConst && b.Op == OIte && (b.Args[1].Op == OConst || b.Args[2].Op == OConst) {
		return mkIte(b.Args[0], mkSLt(a, b.Args[1]), mkSLt(a, b.Args[2]))
	}
	// x - y < 0 where both are small non-negative: x < y
	if b.Op == OConst && (a.Op == OAdd || a.Op == OMul) {
		if r := slinCmp(a, b.C, true); r != nil {
			return r
		}
	}
	if a.Op == OConst && (b.Op == OAdd || b.Op == OMul) {
		if r := slinCmp(b, a.C, false); r != nil {
			return r
		}
	}
	if (a.Op == OAdd || a.Op == OMul) || (b.Op == OAdd || b.Op == OMul) {
		// general: small signed ranges on both sides: compare difference with zero
		la, ha, ok1 := srange(a)
		lb, hb, ok2 := srange(b)
		if ok1 && ok2 {
			if ha < lb {
				return TTrue
			}
			if la >= hb {
				return TFalse
			}
			d := mkSub(a, b)
			if d.Op == OConst {
				return mkBool(signed(d.C, d.W) < 0)
			}
			if d.Op == OAdd || d.Op == OMul {
				if r := slinCmp(d, 0, true); r != nil {
					return r
				}
			}
		}
	}
	return intern(OSLt, 0, 0, "", a, b)
}

const smallLim = int64(1) << 40

// srange gives a signed range when it can be bounded within ±2^40 exactly (no wrap).
func srange(t *Term) (int64, int64, bool) {
	if t.W < 48 {
		s := int64(1) << (t.W - 1)
		_ = s
		return 0, 0, false
	}
	var l linForm
	lin(t, 1, &l)
	lo, hi := signed(l.c&mask(t.W), t.W), signed(l.c&mask(t.W), t.W)
	if lo > smallLim || lo < -smallLim {
		return 0, 0, false
	}
	for i, x := range l.ts {
		k := signed(l.cs[i]&mask(t.W), t.W)
		if k > 1<<16 || k < -(1<<16) || x.hi > 1<<36 {
			return 0, 0, false
		}
		if k >= 0 {
			lo += k * int64(x.lo)
			hi += k * int64(x.hi)
		} else {
			lo += k * int64(x.hi)
			hi += k * int64(x.lo)
		}
		if lo < -smallLim*16 || hi > smallLim*16 {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// slinCmp rewrites (lin < c) [less] or (c < lin) into an unsigned comparison of two non-negative sums.
func slinCmp(t *Term, c uint64, less bool) *Term {
	lo, hi, ok := srange(t)
	if !ok {
		return nil
	}
	cv := signed(c, t.W)
	if cv > smallLim || cv < -smallLim {
		return nil
	}
	if less {
		if hi < cv {
			return TTrue
		}
		if lo >= cv {
			return TFalse
		}
	} else {
		if cv < lo {
			return TTrue
		}
		if cv >= hi {
			return TFalse
		}
	}
	var l linForm
	lin(t, 1, &l)
	var p, n linForm
	for i, x := range l.ts {
		k := l.cs[i] & mask(t.W)
		if k == 0 {
			continue
		}
		if signed(k, t.W) < 0 {
			n.add(x, -k)
		} else {
			p.add(x, k)
		}
	}
	k := signed(l.c&mask(t.W), t.W) - cv
	if k >= 0 {
		p.c = uint64(k)
	} else {
		n.c = uint64(-k)
	}
	// p + .. < n + ..
	if len(n.ts) == 0 && n.c == 0 || len(p.ts) == 0 && p.c == 0 || true {
		x, y := p.build(t.W), n.build(t.W)
		if less {
			return mkULt(x, y)
		}
		return mkULt(y, x)
	}
	return nil
}

func mkSLe(a, b *Term) *Term { return mkNot(mkSLt(b, a)) }

// ---- printing (debug) ----

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.C == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("%d:%d", int64(t.C), t.W)
	case OVar:
		return t.Name
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.ID)
	}
	s := "(" + opNames[t.Op]
	if t.Op == OExtract {
		s += fmt.Sprintf("[%d+%d]", t.C, t.W)
	}
	if t.Op == OApp {
		s += " " + t.Name
	}
	for i, a := range t.Args {
		if i > 12 {
			s += " ..."
			break
		}
		s += " " + a.str(d-1)
	}
	return s + ")"
}
