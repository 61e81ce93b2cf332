package main

// Symbolic execution of regexp: compiled programs are run over symbolic strings by dynamic
// programming with leftmost-first priorities. Input bytes must be ASCII or concrete.

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type reNat struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	ncap int
	src  string
}

func regexpCompile(must bool) intrinsic {
	return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		p, ok := e.sliceBytes(st, args[0]).conc()
		if !ok {
			e.fail("regexp.Compile of symbolic pattern")
		}
		r, err := regexp.Compile(p)
		if err != nil {
			e.fail("regexp %q: %v", p, err)
		}
		sx, err := syntax.Parse(p, syntax.Perl)
		if err != nil {
			e.fail("regexp %q: %v", p, err)
		}
		ncap := sx.MaxCap()
		prog, err := syntax.Compile(sx.Simplify())
		if err != nil {
			e.fail("regexp %q: %v", p, err)
		}
		o := e.newObj(st, nil, "regexp", &NativeV{&reNat{r, prog, ncap, p}})
		v := Value(&PtrV{obj: o})
		if must {
			return ret(st, v)
		}
		return ret(st, TupleV{v, nilIface})
	}
}

func (e *Exec) reOf(st *State, v Value) *reNat {
	p, ok := v.(*PtrV)
	if !ok || p.obj == nil {
		e.fail("regexp receiver %s", dumpValue(v))
	}
	n, ok := e.objGet(st, p.obj).(*NativeV)
	if !ok {
		e.fail("regexp receiver %s", dumpValue(v))
	}
	return n.v.(*reNat)
}

// mres: result of matching from some (pc, position): ok, and capture slots (nil = not set by the continuation).
type mres struct {
	ok   *Term
	caps []*Term
}

type reRun struct {
	e     *Exec
	re    *reNat
	b     []*Term
	n     *Term // length
	memo  map[[2]int]*mres
	busy  map[[2]int]bool
	steps int
}

var noMatch = &mres{}

func (r *reRun) lenGT(i int) *Term { return mkULt(mkInt(int64(i)), r.n) }
func (r *reRun) isEnd(i int) *Term { return mkEq(r.n, mkInt(int64(i))) }

func muxRes(c *Term, a, b *mres) *mres {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	n := max(len(a.caps), len(b.caps))
	out := &mres{ok: mkIte(c, a.ok, b.ok), caps: make([]*Term, n)}
	for i := range out.caps {
		var x, y *Term
		if i < len(a.caps) {
			x = a.caps[i]
		}
		if i < len(b.caps) {
			y = b.caps[i]
		}
		switch {
		case x == nil && y == nil:
		default:
			if x == nil {
				x = mkInt(-1)
			}
			if y == nil {
				y = mkInt(-1)
			}
			out.caps[i] = mkIte(c, x, y)
		}
	}
	return out
}

func (r *reRun) run(pc, i int) *mres {
	k := [2]int{pc, i}
	if m, ok := r.memo[k]; ok {
		return m
	}
	if r.busy[k] {
		return noMatch // empty loop
	}
	r.steps++
	if r.steps > 200000 {
		r.e.fail("regexp too large for symbolic matching")
	}
	r.busy[k] = true
	m := r.step(pc, i)
	delete(r.busy, k)
	if m.ok == TFalse {
		m = noMatch
	}
	r.memo[k] = m
	return m
}

func (r *reRun) step(pc, i int) *mres {
	in := &r.re.prog.Inst[pc]
	switch in.Op {
	case syntax.InstFail:
		return noMatch
	case syntax.InstMatch:
		caps := make([]*Term, 2*(r.re.ncap+1))
		caps[1] = mkInt(int64(i))
		return &mres{ok: TTrue, caps: caps}
	case syntax.InstNop:
		return r.run(int(in.Out), i)
	case syntax.InstCapture:
		m := r.run(int(in.Out), i)
		if m.ok == TFalse || int(in.Arg) >= len(m.caps) || m.caps[in.Arg] != nil {
			if m.ok == TFalse || int(in.Arg) >= len(m.caps) {
				return m
			}
			// a later iteration may or may not have set it
			if m.caps[in.Arg] != nil {
				c := append([]*Term(nil), m.caps...)
				c[in.Arg] = mkIte(mkEq(m.caps[in.Arg], mkInt(-1)), mkInt(int64(i)), m.caps[in.Arg])
				return &mres{m.ok, c}
			}
		}
		c := append([]*Term(nil), m.caps...)
		c[in.Arg] = mkInt(int64(i))
		return &mres{m.ok, c}
	case syntax.InstAlt, syntax.InstAltMatch:
		a := r.run(int(in.Out), i)
		if a.ok == TTrue {
			return a
		}
		b := r.run(int(in.Arg), i)
		if a.ok == TFalse {
			return b
		}
		if b.ok == TFalse {
			return a
		}
		m := muxRes(a.ok, a, b)
		m.ok = mkOr(a.ok, b.ok)
		return m
	case syntax.InstEmptyWidth:
		op := syntax.EmptyOp(in.Arg)
		c := TTrue
		if op&syntax.EmptyBeginText != 0 {
			c = mkAnd(c, mkBool(i == 0))
		}
		if op&syntax.EmptyEndText != 0 {
			c = mkAnd(c, r.isEnd(i))
		}
		if op&syntax.EmptyBeginLine != 0 {
			if i > 0 {
				c = mkAnd(c, mkEq(r.b[i-1], byteC['\n']))
			}
		}
		if op&syntax.EmptyEndLine != 0 {
			x := r.isEnd(i)
			if i < len(r.b) {
				x = mkOr(x, mkEq(r.b[i], byteC['\n']))
			}
			c = mkAnd(c, x)
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			word := func(k int) *Term {
				if k < 0 || k >= len(r.b) {
					return TFalse
				}
				t := r.b[k]
				rng := func(lo, hi byte) *Term { return mkAnd(mkULe(byteC[lo], t), mkULe(t, byteC[hi])) }
				return mkAnd(r.lenGT(k), mkOr(rng('a', 'z'), rng('A', 'Z'), rng('0', '9'), mkEq(t, byteC['_'])))
			}
			bd := mkNot(mkEq(word(i-1), word(i)))
			if op&syntax.EmptyWordBoundary != 0 {
				c = mkAnd(c, bd)
			} else {
				c = mkAnd(c, mkNot(bd))
			}
		}
		if c == TFalse {
			return noMatch
		}
		m := r.run(int(in.Out), i)
		return &mres{mkAnd(c, m.ok), m.caps}
	case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
		if i >= len(r.b) {
			return noMatch
		}
		c := r.lenGT(i)
		if c == TFalse {
			return noMatch
		}
		t := r.b[i]
		w := 1
		switch {
		case t.Op == OConst && t.C >= 0x80:
			var raw []byte
			for k := i; k < len(r.b) && k < i+4 && r.b[k].Op == OConst; k++ {
				if r.n.lo <= uint64(k) && r.n.hi > uint64(k) && k > i {
					break
				}
				raw = append(raw, byte(r.b[k].C))
			}
			var ru rune
			ru, w = utf8.DecodeRune(raw)
			if ru == utf8.RuneError && w <= 1 && len(raw) < 4 && !utf8.FullRune(raw) && i+len(raw) < len(r.b) {
				r.e.fail("regexp over mixed non-ASCII text")
			}
			if !in.MatchRune(ru) && !(in.Op == syntax.InstRuneAny) && !(in.Op == syntax.InstRuneAnyNotNL && ru != '\n') {
				return noMatch
			}
		case t.hi < 0x80:
			c = mkAnd(c, r.asciiClass(in, t))
		default:
			// non-ASCII is possible: exact only when one byte decides
			c = mkAnd(c, r.asciiClass(in, t))
			if in.Op == syntax.InstRuneAny || in.Op == syntax.InstRuneAnyNotNL || classTouchesNonASCII(in) {
				r.e.fail("regexp over symbolic non-ASCII text")
			}
			c = mkAnd(c, mkULt(t, byteC[0x80]))
		}
		if c == TFalse {
			return noMatch
		}
		m := r.run(int(in.Out), i+w)
		if m.ok == TFalse {
			return noMatch
		}
		return &mres{mkAnd(c, m.ok), m.caps}
	}
	r.e.fail("regexp instruction %v", in.Op)
	return nil
}

func classTouchesNonASCII(in *syntax.Inst) bool {
	if in.Op == syntax.InstRune1 {
		return in.Rune[0] >= 0x80
	}
	if len(in.Rune) == 1 {
		return in.Rune[0] >= 0x80 || syntax.Flags(in.Arg)&syntax.FoldCase != 0
	}
	for _, x := range in.Rune {
		if x >= 0x80 {
			return true
		}
	}
	return false
}

// asciiClass: the condition that ASCII byte t matches the instruction.
func (r *reRun) asciiClass(in *syntax.Inst, t *Term) *Term {
	if t.Op == OConst {
		ru := rune(t.C)
		switch in.Op {
		case syntax.InstRuneAny:
			return TTrue
		case syntax.InstRuneAnyNotNL:
			return mkBool(ru != '\n')
		}
		return mkBool(in.MatchRune(ru))
	}
	switch in.Op {
	case syntax.InstRuneAny:
		return TTrue
	case syntax.InstRuneAnyNotNL:
		return mkNot(mkEq(t, byteC['\n']))
	}
	var o []*Term
	lo := -1
	for c := 0; c <= 0x80; c++ {
		m := c < 0x80 && in.MatchRune(rune(c))
		if m && lo < 0 {
			lo = c
		}
		if !m && lo >= 0 {
			hi := c - 1
			if lo == hi {
				o = append(o, mkEq(t, byteC[lo]))
			} else {
				o = append(o, mkAnd(mkULe(byteC[lo], t), mkULe(t, byteC[hi])))
			}
			lo = -1
		}
	}
	return mkOr(o...)
}

func (e *Exec) newRun(st *State, re *reNat, s *Str) *reRun {
	return &reRun{e: e, re: re, b: s.norm(), n: s.len, memo: map[[2]int]*mres{}, busy: map[[2]int]bool{}}
}

// canStart: position i begins a rune (not inside a concrete multi-byte rune).
func (r *reRun) canStart(i int) bool {
	if i >= len(r.b) {
		return true
	}
	t := r.b[i]
	return !(t.Op == OConst && t.C >= 0x80 && t.C < 0xC0)
}

func (r *reRun) conc() ([]byte, bool) {
	if r.n.Op != OConst || int(r.n.C) > len(r.b) {
		return nil, false
	}
	out := make([]byte, r.n.C)
	for i := range out {
		if r.b[i].Op != OConst {
			return nil, false
		}
		out[i] = byte(r.b[i].C)
	}
	return out, true
}

// find returns the leftmost match at or after position `from` (a concrete position).
func (r *reRun) find(from int) *mres {
	if raw, ok := r.conc(); ok && from == 0 {
		// a concrete text needs no encoding
		x := r.re.re.FindSubmatchIndex(raw)
		if x == nil {
			return noMatch
		}
		m := &mres{ok: TTrue}
		for _, v := range x {
			m.caps = append(m.caps, mkInt(int64(v)))
		}
		return m
	}
	res := noMatch
	for i := len(r.b); i >= from; i-- {
		if !r.canStart(i) {
			continue
		}
		m := r.run(r.re.prog.Start, i)
		if m.ok == TFalse {
			continue
		}
		ok := mkAnd(m.ok, mkNot(mkULt(r.n, mkInt(int64(i)))))
		c := append([]*Term(nil), m.caps...)
		c[0] = mkInt(int64(i))
		x := &mres{ok, c}
		if res.ok == TFalse {
			res = x
		} else {
			o := mkOr(ok, res.ok)
			res = muxRes(ok, x, res)
			res.ok = o
		}
	}
	return res
}

func regexpIntrinsics(m map[string]intrinsic) {
	str := func(e *Exec, st *State, v Value) *Str { return e.sliceBytes(st, v) }
	match := func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		re := e.reOf(st, args[0])
		return ret(st, e.newRun(st, re, str(e, st, args[1])).find(0).ok)
	}
	m["(*regexp.Regexp).MatchString"] = match
	m["(*regexp.Regexp).Match"] = match
	m["regexp.MatchString"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		o, _ := regexpCompile(true)(e, st, fn, args)
		v, _ := match(e, st, fn, []Value{o.val, args[1]})
		v.val = TupleV{v.val, nilIface}
		return v, true
	}
	m["(*regexp.Regexp).String"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		return ret(st, concStr(e.reOf(st, args[0]).src))
	}
	// result kinds
	type kind int
	const (
		kIndex kind = iota
		kString
		kBytes
	)
	find := func(k kind, sub bool) intrinsic {
		return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
			re := e.reOf(st, args[0])
			s := str(e, st, args[1])
			r := e.newRun(st, re, s).find(0)
			n := 1
			if sub {
				n = re.ncap + 1
			}
			cap := func(i int) *Term {
				if r.ok == TFalse || i >= len(r.caps) || r.caps[i] == nil {
					return mkInt(-1)
				}
				return r.caps[i]
			}
			piece := func(i int) Value {
				lo, hi := cap(2*i), cap(2*i+1)
				set := mkAnd(r.ok, mkNot(mkSLt(lo, mkInt(0))))
				l := mkIte(set, lo, mkInt(0))
				h := mkIte(set, hi, mkInt(0))
				return s.sub(l, h)
			}
			var elem types.Type
			var vals []Value
			switch k {
			case kIndex:
				elem = types.Typ[types.Int]
				for i := 0; i < 2*n; i++ {
					vals = append(vals, cap(i))
				}
			case kString:
				elem = types.Typ[types.String]
				for i := 0; i < n; i++ {
					vals = append(vals, piece(i))
				}
				if !sub {
					return ret(st, vals[0])
				}
			case kBytes:
				if u, ok := args[1].(*SliceV); ok && u.base != nil {
					var ps []Value
					for i := 0; i < n; i++ {
						lo, hi := cap(2*i), cap(2*i+1)
						set := mkAnd(r.ok, mkNot(mkSLt(lo, mkInt(0))))
						l := mkIte(set, lo, mkInt(0))
						h := mkIte(set, hi, mkInt(0))
						sl := &SliceV{u.base, mkAdd(u.off, l), mkSub(h, l), mkSub(u.cap, l)}
						ps = append(ps, mergeValue(set, sl, nilSlice))
					}
					vals = ps
				} else {
					return nil, false
				}
				elem = types.NewSlice(types.Typ[types.Uint8])
				if !sub {
					return ret(st, vals[0])
				}
			}
			if r.ok == TFalse {
				return ret(st, nilSlice)
			}
			o := e.newObj(st, types.NewArray(elem, int64(len(vals))), "submatch", arrFrom(vals))
			ln := mkInt(int64(len(vals)))
			return ret(st, mergeValue(r.ok, &SliceV{&PtrV{obj: o}, mkInt(0), ln, ln}, nilSlice))
		}
	}
	m["(*regexp.Regexp).FindStringSubmatch"] = find(kString, true)
	m["(*regexp.Regexp).FindSubmatch"] = find(kBytes, true)
	m["(*regexp.Regexp).FindString"] = find(kString, false)
	m["(*regexp.Regexp).Find"] = find(kBytes, false)
	m["(*regexp.Regexp).FindStringIndex"] = find(kIndex, false)
	m["(*regexp.Regexp).FindIndex"] = find(kIndex, false)
	m["(*regexp.Regexp).FindStringSubmatchIndex"] = find(kIndex, true)
	m["(*regexp.Regexp).FindSubmatchIndex"] = find(kIndex, true)

	replace := func(bytes, literal bool) intrinsic {
		return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
			re := e.reOf(st, args[0])
			s := str(e, st, args[1])
			rp := str(e, st, args[2])
			rc, ok := rp.conc()
			if !ok {
				e.fail("regexp replacement with symbolic text")
			}
			if !literal {
				for _, c := range rc {
					if c == '$' {
						e.fail("regexp replacement with expansion")
					}
				}
			}
			out := e.replaceAll(st, re, s, rc)
			if bytes {
				return ret(st, e.mkByteSlice(st, out))
			}
			return ret(st, out)
		}
	}
	m["(*regexp.Regexp).ReplaceAllString"] = replace(false, false)
	m["(*regexp.Regexp).ReplaceAllLiteralString"] = replace(false, true)
	m["(*regexp.Regexp).ReplaceAll"] = replace(true, false)
	m["(*regexp.Regexp).ReplaceAllLiteral"] = replace(true, true)
}

// replaceAll builds the result of ReplaceAllLiteral as a guarded concatenation.
func (e *Exec) replaceAll(st *State, re *reNat, s *Str, rep string) *Str {
	if c, ok := s.conc(); ok {
		return concStr(re.re.ReplaceAllLiteralString(c, rep))
	}
	r := e.newRun(st, re, s)
	n := len(r.b)
	end := mkInt(0) // end of the current match (positions below are consumed)
	out := concStr("")
	any := TFalse
	for i := 0; i < n; i++ {
		in := mkULt(mkInt(int64(i)), end) // still inside a match
		start := TFalse
		if r.canStart(i) {
			m := r.run(re.prog.Start, i)
			if m.ok != TFalse {
				if m.caps[1] == nil {
					e.fail("regexp match without end")
				}
				start = mkAnd(m.ok, mkULt(mkInt(int64(i)), r.n), mkNot(in))
				if empty := mkAnd(start, mkEq(m.caps[1], mkInt(int64(i)))); empty != TFalse {
					if q, _ := e.feasible(st, empty); q != Unsat {
						e.fail("regexp replacement with empty match")
					}
				}
				end = mkIte(start, m.caps[1], end)
			}
		}
		keep := mkAnd(mkNot(in), mkNot(start), mkULt(mkInt(int64(i)), r.n))
		any = mkOr(any, start)
		if rep != "" && start != TFalse {
			out = mergeStr(start, strConcat(out, concStr(rep)), out)
		}
		if keep != TFalse {
			one := strFrom([]*Term{r.b[i]}, mkIte(keep, mkInt(1), mkInt(0)))
			out = strConcat(out, one)
		}
	}
	if any == TFalse {
		return s
	}
	return out
}

var _ = fmt.Sprint
var _ = unicode.MaxRune
