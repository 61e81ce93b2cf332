package main

// Harness runs: symbolic inputs, assumptions, assertions, witnesses.

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/transform"
	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Label  string            `json:"label"`
	Kind   string            `json:"kind"` // assert, panic, nonterm
	Pos    string            `json:"pos"`
	Msg    string            `json:"msg"`
	Inputs map[string]uint64 `json:"inputs"`
	Cases  map[string]int    `json:"cases"`
}

type Obs struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

type Witness struct {
	Inputs map[string]uint64 `json:"inputs"`
	Cases  map[string]int    `json:"cases"`
	Obs    []Obs             `json:"obs"`
}

type obsRec struct {
	pc   *PC
	name string
	v    Value
}

type HarnessRun struct {
	e           *Exec
	Name        string
	thorough    bool
	inputs      map[string]*Term
	order       []string
	Incomplete  map[string]int
	Obligations int
	Trivial     int
	Discharged  int
	Undecided   map[string]int
	Violations  []Violation
	Bounds      []Violation // candidates for non-termination
	Asserts     map[string]int
	Reached     map[string]bool
	obs         []obsRec
	Witnesses   []Witness
	Paths       int
	cases       map[string]int
	violSeen    map[string]int
	boundSeen   map[string]int
	assertTO    time.Duration
	crossCheck  bool
	sweep       bool // decide conditions over large terms by sweeping
	skipLabels  map[string]bool
}

// CaseDim is a dimension of concrete values the harness asked for.
type CaseDim struct {
	Name string `json:"name"`
	Lo   int    `json:"lo"`
	Hi   int    `json:"hi"`
}

func newHarness(e *Exec, name string) *HarnessRun {
	h := &HarnessRun{e: e, Name: name, Incomplete: map[string]int{}, Undecided: map[string]int{}, Asserts: map[string]int{}, Reached: map[string]bool{}, violSeen: map[string]int{}, boundSeen: map[string]int{}, assertTO: 60 * time.Second}
	h.resetCase(map[string]int{})
	return h
}

func (h *HarnessRun) resetCase(c map[string]int) {
	h.inputs = map[string]*Term{}
	h.order = nil
	h.cases = c
	h.obs = nil
}

func (h *HarnessRun) incomplete(why, where string) {
	k := why + " in " + where
	h.Incomplete[k]++
	if verbose > 0 && h.Incomplete[k] == 1 {
		fmt.Fprintf(os.Stderr, "[incomplete: %s %v]\n", k, h.cases)
	}
}

func (h *HarnessRun) boundHit(st *State, msg string) {
	h.boundSeen[msg]++
	if h.boundSeen[msg] == 1 {
		if verbose > 0 {
			fmt.Fprintf(os.Stderr, "[bound: %s %v]\n", msg, h.cases)
		}
		if m := h.fullModel(st, TTrue); m != nil {
			h.Bounds = append(h.Bounds, Violation{Label: "termination", Kind: "nonterm", Msg: msg, Inputs: h.values(m), Cases: copyCases(h.cases)})
		}
	}
	h.Incomplete["loop bound: "+msg]++
}

func copyCases(c map[string]int) map[string]int {
	n := map[string]int{}
	for k, v := range c {
		n[k] = v
	}
	return n
}

func (h *HarnessRun) input(name string, w uint8, lo, hi uint64) *Term {
	if t, ok := h.inputs[name]; ok {
		if t.W != w {
			h.e.fail("input %s used with two widths", name)
		}
		return t
	}
	var t *Term
	if lo == hi {
		t = mkConst(w, lo)
	} else {
		t = mkVar(h.e.varPrefix+name, w, lo, hi)
	}
	h.inputs[name] = t
	h.order = append(h.order, name)
	return t
}

func (h *HarnessRun) values(m *Model) map[string]uint64 {
	out := map[string]uint64{}
	for n, t := range h.inputs {
		out[n] = m.eval(t)
	}
	return out
}

// fullModel returns a model of the whole path condition and lit.
func (h *HarnessRun) fullModel(st *State, lit *Term) *Model {
	ok := func(m *Model) bool {
		if m == nil {
			return false
		}
		if m.eval(lit) == 0 {
			return false
		}
		for p := st.pc; p != nil; p = p.parent {
			if m.eval(p.lit) == 0 {
				return false
			}
		}
		return true
	}
	if ok(st.model) {
		return st.model
	}
	ls := st.lits()
	if lit != TTrue {
		ls = append(ls, lit)
	}
	r, m := h.e.solver.check(ls, 5000)
	if r == Unknown {
		r, m = h.e.solver.oneShot(ls, h.assertTO, false)
	}
	if r == Sat && ok(m) {
		return m
	}
	if r == Sat && m != nil {
		fmt.Fprintln(os.Stderr, "warning: solver model does not satisfy the path condition under evaluation")
	}
	return nil
}

func (h *HarnessRun) violation(kind, label, pos, msg string, m *Model) {
	k := kind + label + pos
	h.violSeen[k]++
	if h.violSeen[k] > 3 {
		return
	}
	if verbose > 0 {
		fmt.Fprintf(os.Stderr, "[candidate %s %s at %s: %s %v]\n", kind, label, pos, msg, h.cases)
	}
	h.Violations = append(h.Violations, Violation{Label: label, Kind: kind, Pos: pos, Msg: msg, Inputs: h.values(m), Cases: copyCases(h.cases)})
}

// assert checks cond on st; returns the state with cond assumed (nil if infeasible).
func (h *HarnessRun) assert(st *State, cond *Term, label string) *State {
	e := h.e
	h.Asserts[label]++
	h.Obligations++
	if !h.Reached[label] {
		if m := h.fullModel(st, TTrue); m != nil {
			h.Reached[label] = true
		}
	}
	if cond == TTrue || st.known(cond) > 0 {
		h.Discharged++
		h.Trivial++
		return st
	}
	neg := mkNot(cond)
	// split conjunctions: each part is its own query
	if cond.Op == OAnd && len(cond.Args) > 1 && len(cond.Args) <= 4000 {
		all := true
		for _, c := range cond.Args {
			r := h.decide(st, mkNot(c), label)
			if r == Sat {
				all = false
				break
			}
			if r == Unknown {
				all = false
			}
		}
		if all {
			h.Discharged++
			return st
		}
	} else {
		switch h.decide(st, neg, label) {
		case Unsat:
			h.Discharged++
			return st
		}
	}
	return e.constrain(st, cond)
}

func (h *HarnessRun) decide(st *State, neg *Term, label string) Res {
	e := h.e
	if neg == TFalse || st.known(neg) < 0 {
		return Unsat
	}
	r, m := Unknown, (*Model)(nil)
	if st.model != nil && st.model.eval(neg) != 0 {
		m = h.fullModel(st, neg)
		if m != nil {
			r = Sat
		}
	}
	if r == Unknown && h.sweep && neg.size > 20000 {
		r, m = e.sweepDecide(st, neg)
	} else if r == Unknown {
		r, m = e.query(st, neg, 3000)
		if r == Unknown {
			ls := append(sliceLits([]*Term{neg}, st.lits()), neg)
			r, m = e.solver.oneShot(ls, h.assertTO, h.crossCheck)
		}
		if r == Sat {
			m = h.fullModel(st, neg)
			if m == nil {
				r = Unknown
			}
		}
	}
	switch r {
	case Sat:
		h.violation("assert", label, "", "", m)
	case Unknown:
		h.Undecided[label]++
		if verbose > 0 {
			fmt.Fprintf(os.Stderr, "[undecided %s]\n", label)
		}
	}
	return r
}

func (h *HarnessRun) render(m *Model, v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.W == 0 {
			return fmt.Sprint(m.eval(x) != 0), true
		}
		return fmt.Sprint(m.eval(x)), true
	case *Str:
		o, n := int(m.eval(x.off)), int(m.eval(x.len))
		if o+n > len(x.arr) || n < 0 {
			return "", false
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(m.eval(x.arr[o+i]))
		}
		return hex.EncodeToString(b), true
	case *Union:
		for _, a := range x.alts {
			if m.eval(a.g) != 0 {
				return h.render(m, a.v)
			}
		}
	case *IfaceV:
		if x.t == nil {
			return "nil", true
		}
		return h.render(m, x.v)
	}
	return "", false
}

func (h *HarnessRun) finish(o *Outcome) {
	if o.st != nil {
		h.Paths++
		h.addWitness(o.st)
	}
	for _, p := range o.panics {
		m := h.fullModel(p, TTrue)
		if m == nil {
			if r, _ := h.e.solver.check(p.lits(), 20000); r != Unsat {
				h.Undecided["panic at "+p.panicPos]++
			}
			continue
		}
		msg := dumpValue(p.panicVal)
		if iv, ok := p.panicVal.(*IfaceV); ok && iv.t != nil {
			if s, ok := iv.v.(*Str); ok {
				if c, ok := s.conc(); ok {
					msg = c
				}
			}
		}
		h.violation("panic", "no-panic", p.panicPos, msg, m)
	}
}

func (h *HarnessRun) addWitness(st *State) {
	if len(h.Witnesses) > 40 {
		return
	}
	// a random-ish model is more telling than the default one
	m := h.fullModel(st, TTrue)
	if m == nil {
		return
	}
	h.Witnesses = append(h.Witnesses, h.mkWitness(m))
	if m2 := h.altModel(st); m2 != nil {
		h.Witnesses = append(h.Witnesses, h.mkWitness(m2))
	}
}

// altModel asks for a model in which inputs take non-default values.
func (h *HarnessRun) altModel(st *State) *Model {
	var prefer []*Term
	for i, n := range h.order {
		t := h.inputs[n]
		if t.Op != OVar || len(prefer) >= 60 {
			continue
		}
		span := t.hi - t.lo
		v := uint64(i)*0x9E3779B97F4A7C15 + 77
		if span != ^uint64(0) {
			v = t.lo + (uint64(i)*2654435761+uint64(len(n))*40503)%(span+1)
		}
		if t.W == 0 {
			continue
		}
		prefer = append(prefer, mkEq(t, mkConst(t.W, v)))
	}
	ls := st.lits()
	for n := len(prefer); n > 0; n /= 2 {
		r, m := h.e.solver.check(append(append([]*Term(nil), ls...), prefer[:n]...), 2000)
		if r == Sat {
			for _, l := range ls {
				if m.eval(l) == 0 {
					return nil
				}
			}
			return m
		}
	}
	return nil
}

func (h *HarnessRun) mkWitness(m *Model) Witness {
	w := Witness{Inputs: h.values(m), Cases: copyCases(h.cases)}
	for _, o := range h.obs {
		on := true
		for p := o.pc; p != nil; p = p.parent {
			if m.eval(p.lit) == 0 {
				on = false
				break
			}
		}
		if !on {
			continue
		}
		if s, ok := h.render(m, o.v); ok {
			w.Obs = append(w.Obs, Obs{o.name, s})
		}
	}
	return w
}

// ---- runtime functions called by harnesses ----

func (e *Exec) concName(st *State, v Value) string {
	s, ok := v.(*Str)
	if !ok {
		e.fail("name is %s", dumpValue(v))
	}
	c, ok := s.conc()
	if !ok {
		e.fail("symbolic name")
	}
	return c
}

func concInt(e *Exec, v Value) int64 {
	t, ok := v.(*Term)
	if !ok || t.Op != OConst {
		e.fail("constant argument expected, have %s", dumpValue(v))
	}
	return signed(t.C, t.W)
}

func (e *Exec) symBytes(st *State, name string, mn, mx int, lo, hi uint64) *Str {
	h := e.harness
	ts := make([]*Term, mx)
	for i := range ts {
		ts[i] = h.input(fmt.Sprintf("%s[%d]", name, i), 8, lo, hi)
	}
	n := mkInt(int64(mx))
	if mn != mx {
		n = h.input(name+".len", 64, uint64(mn), uint64(mx))
	}
	return strFrom(ts, n)
}

var vrtFns = map[string]intrinsic{}

func init() {
	num := func(w uint8) intrinsic {
		return func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
			n := e.concName(st, args[0])
			lo, hi := uint64(0), mask(w)
			if len(args) == 3 {
				lo, hi = uint64(concInt(e, args[1])), uint64(concInt(e, args[2]))
				if int64(lo) < 0 && w == 64 { // signed range crossing zero: bias
					t := e.harness.input(n, 64, 0, hi-lo)
					return ret(st, mkAdd(t, mkConst(64, lo)))
				}
			}
			return ret(st, e.harness.input(n, w, lo, hi))
		}
	}
	vrtFns["vrt.U8"] = num(8)
	vrtFns["vrt.U16"] = num(16)
	vrtFns["vrt.U32"] = num(32)
	vrtFns["vrt.U64"] = num(64)
	vrtFns["vrt.Int"] = num(64)
	vrtFns["vrt.U8R"] = num(8)
	vrtFns["vrt.Bool"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		t := e.harness.input(e.concName(st, args[0]), 8, 0, 1)
		return ret(st, mkEq(t, byteC[1]))
	}
	vrtFns["vrt.Bytes"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		s := e.symBytes(st, e.concName(st, args[0]), int(concInt(e, args[1])), int(concInt(e, args[2])), uint64(concInt(e, args[3])), uint64(concInt(e, args[4])))
		b := e.mkByteSlice(st, s)
		b.cap = b.len
		return ret(st, b)
	}
	vrtFns["vrt.Str"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		return ret(st, e.symBytes(st, e.concName(st, args[0]), int(concInt(e, args[1])), int(concInt(e, args[2])), uint64(concInt(e, args[3])), uint64(concInt(e, args[4]))))
	}
	vrtFns["vrt.Assume"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		c, ok := args[0].(*Term)
		if !ok {
			e.fail("assume of %s", dumpValue(args[0]))
		}
		s := e.constrain(st, c)
		if s == nil {
			return &Outcome{}, true
		}
		return ret(s, nil)
	}
	vrtFns["vrt.Assert"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		c, ok := args[0].(*Term)
		if !ok {
			e.fail("assert of %s", dumpValue(args[0]))
		}
		s := e.harness.assert(st, c, e.concName(st, args[1]))
		if s == nil {
			return &Outcome{}, true
		}
		return ret(s, nil)
	}
	vrtFns["vrt.Reach"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		l := "reach:" + e.concName(st, args[0])
		if e.harness.Asserts[l] == 0 {
			e.harness.Asserts[l]++
		}
		if !e.harness.Reached[l] {
			if m := e.harness.fullModel(st, TTrue); m != nil {
				e.harness.Reached[l] = true
				if len(e.harness.Witnesses) < 60 {
					e.harness.Witnesses = append(e.harness.Witnesses, e.harness.mkWitnessIn(m))
				}
			}
		}
		return ret(st, nil)
	}
	vrtFns["vrt.Observe"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		n := e.concName(st, args[0])
		v := args[1]
		for _, a := range alts(v) {
			if iv, ok := a.v.(*IfaceV); ok && iv.t != nil {
				switch y := iv.v.(type) {
				case *SliceV:
					v = e.mapVal(v, func(z Value) Value {
						if q, ok := z.(*IfaceV); ok && q.t != nil {
							if sl, ok := q.v.(*SliceV); ok {
								return &IfaceV{types.Typ[types.String], e.sliceBytes(st, sl)}
							}
						}
						return z
					})
				case *Term, *Str:
				case *Union:
					_ = y
				}
			}
		}
		e.harness.obs = append(e.harness.obs, obsRec{st.pc, n, v})
		return ret(st, nil)
	}
	vrtFns["vrt.Symbolic"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		return ret(st, TTrue)
	}
	vrtFns["vrt.Thorough"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		return ret(st, mkBool(e.harness.thorough))
	}
	vrtFns["vrt.Case"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		h := e.harness
		n := e.concName(st, args[0])
		lo, hi := int(concInt(e, args[1])), int(concInt(e, args[2]))
		v, ok := h.cases[n]
		if !ok {
			panic(abortErr{"case split", &CaseDim{n, lo, hi}})
		}
		return ret(st, mkInt(int64(v)))
	}
	// Concrete: forks the path over the feasible values of x in [lo,hi] (returns it as a constant on each).
	vrtFns["vrt.basic"] = nil
	delete(vrtFns, "vrt.basic")

	// vstd helpers
	vrtFns["vstd.basic"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		return ret(st, e.mapVal(args[0], func(v Value) Value {
			iv, ok := v.(*IfaceV)
			if !ok {
				e.fail("basic of %s", dumpValue(v))
			}
			if iv.t == nil {
				return iv
			}
			switch u := iv.t.Underlying().(type) {
			case *types.Basic:
				if t, ok := iv.v.(*Term); ok && t.W != 0 {
					if isSigned(u) {
						return &IfaceV{types.Typ[types.Int64], mkSExt(t, 64)}
					}
					return &IfaceV{types.Typ[types.Uint64], mkZExt(t, 64)}
				}
				return &IfaceV{u, iv.v}
			case *types.Slice:
				if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					return &IfaceV{types.NewSlice(types.Typ[types.Uint8]), iv.v}
				}
			case *types.Pointer:
				return &IfaceV{types.Typ[types.String], concStr("0xc000010000")}
			}
			return &IfaceV{types.Typ[types.String], concStr("?" + iv.t.String())}
		}))
	}
	vrtFns["vstd.dec"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		return ret(st, decStr(args[0].(*Term)))
	}
	vrtFns["vstd.codecName"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		// *encoding.Encoder and *encoding.Decoder (as an interface or as the receiver of a method) name
		// the transformer they hold
		v := args[0]
		for i := 0; i < 8; i++ {
			switch x := v.(type) {
			case *IfaceV:
				if x.t == nil {
					e.fail("codec nil")
				}
				if s := x.t.String(); s != "*golang.org/x/text/encoding.Encoder" && s != "*golang.org/x/text/encoding.Decoder" {
					return ret(st, concStr(s))
				}
				v = x.v
			case *PtrV:
				v = e.loadPtr(st, x)
			case *StructV:
				v = x.f[0]
			}
		}
		e.fail("codec %s", dumpValue(args[0]))
		return nil, false
	}
	vrtFns["vstd.big5"] = big5Intrinsic
	vrtFns["vunix.poke64"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		// a kernel writes 8 bytes at an offset of the structure at an address
		p, ok := e.pointerAt(args[0]).(*PtrV)
		off := args[1].(*Term)
		if !ok || p.obj == nil || off.Op != OConst {
			e.fail("poke64 at %s", dumpValue(args[0]))
		}
		t := p.obj.typ
		for _, s := range p.path {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				t = u.Field(s.field).Type()
			case *types.Array:
				t = u.Elem()
			}
		}
		sizes := types.SizesFor("gc", "amd64")
		at := int64(off.C)
		for {
			u, ok := t.Underlying().(*types.Struct)
			if !ok {
				break
			}
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			offs := sizes.Offsetsof(fs)
			k := len(offs) - 1
			for k > 0 && offs[k] > at {
				k--
			}
			p, t, at = p.field(k), fs[k].Type(), at-offs[k]
		}
		if at != 0 || sizes.Sizeof(t) != 8 {
			e.fail("poke64 into the middle of a field")
		}
		e.storePtr(st, p, args[2], TTrue)
		return ret(st, nil)
	}
	vrtFns["vstd.sameType"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		// errors.As: does err's dynamic type fit *target; if so store it
		p, ok := args[1].(*IfaceV)
		er, ok2 := args[0].(*IfaceV)
		if !ok || !ok2 || p.t == nil {
			e.fail("errors.As on %s", dumpValue(args[0]))
		}
		if er.t == nil {
			return ret(st, TFalse)
		}
		el := p.t.Underlying().(*types.Pointer).Elem()
		if it, ok := el.Underlying().(*types.Interface); ok {
			if types.Implements(er.t, it) {
				e.storePtr(st, p.v.(*PtrV), er, TTrue)
				return ret(st, TTrue)
			}
			return ret(st, TFalse)
		}
		if types.Identical(er.t, el) {
			e.storePtr(st, p.v.(*PtrV), er.v, TTrue)
			return ret(st, TTrue)
		}
		return ret(st, TFalse)
	}
	vrtFns["vstd.sliceLen"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		return ret(st, e.mapVal(args[0], func(v Value) Value {
			iv, ok := v.(*IfaceV)
			if !ok || iv.t == nil {
				e.fail("sort of %s", dumpValue(v))
			}
			return e.mapVal(iv.v, func(v Value) Value {
				s, ok := v.(*SliceV)
				if !ok {
					e.fail("sort of %s", dumpValue(v))
				}
				return s.len
			})
		}))
	}
	vrtFns["vstd.sliceSwap"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		iv, ok := args[0].(*IfaceV)
		if !ok {
			e.fail("swap in %s", dumpValue(args[0]))
		}
		sv, ok := iv.v.(*SliceV)
		if !ok {
			e.fail("swap in %s", dumpValue(iv.v))
		}
		i, j := sv.base.index(mkAdd(sv.off, args[1].(*Term))), sv.base.index(mkAdd(sv.off, args[2].(*Term)))
		a, b := e.loadPtr(st, i), e.loadPtr(st, j)
		e.storePtr(st, i, b, TTrue)
		e.storePtr(st, j, a, TTrue)
		return ret(st, nil)
	}
	vrtFns["vstd.comparable_"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
		iv, ok := args[0].(*IfaceV)
		return ret(st, mkBool(!ok || iv.t == nil || types.Comparable(iv.t)))
	}
}

func (h *HarnessRun) mkWitnessIn(m *Model) Witness {
	w := h.mkWitness(m)
	w.Obs = nil // taken in mid-run: inputs only
	return w
}

func decStr(x *Term) *Str {
	if x.Op == OConst {
		return concStr(fmt.Sprint(x.C))
	}
	max := x.hi
	nd := len(fmt.Sprint(max))
	// narrow
	w := uint8(64)
	for _, k := range []uint8{8, 16, 32} {
		if max <= mask(k) {
			w = k
			break
		}
	}
	y := mkExtract(x, 0, w)
	digs := make([]*Term, nd) // least significant first
	p := uint64(1)
	for i := 0; i < nd; i++ {
		d := y
		if p > 1 {
			d = mkUDiv(y, mkConst(w, p))
		}
		d = mkURem(d, mkConst(w, 10))
		digs[i] = mkAdd(mkExtract(mkZExt(d, 64), 0, 8), byteC['0'])
		if i+1 < nd {
			p *= 10
		}
	}
	// number of digits
	n := mkInt(1)
	p = 10
	var ge []*Term
	for i := 1; i < nd; i++ {
		g := mkNot(mkULt(y, mkConst(w, p)))
		ge = append(ge, g)
		n = mkIte(g, mkInt(int64(i+1)), n)
		p *= 10
	}
	// out[k] = digs[n-1-k]
	out := make([]*Term, nd)
	for k := range out {
		t := byteC['0']
		for l := 1; l <= nd; l++ { // length l
			if l-1-k < 0 {
				continue
			}
			v := digs[l-1-k]
			if l == 1 {
				t = v
			} else {
				t = mkIte(ge[l-2], v, t)
			}
		}
		out[k] = t
	}
	return strFrom(out, n)
}

func big5Intrinsic(e *Exec, st *State, fn *ssa.Function, args []Value) (*Outcome, bool) {
	enc := args[0].(*Term) == TTrue
	if args[0].(*Term).Op != OConst && args[0] != Value(TTrue) && args[0] != Value(TFalse) {
		e.fail("big5 direction")
	}
	s := e.sliceBytes(st, args[1])
	done := func(st *State, out *Str, n *Term, bad bool) (*Outcome, bool) {
		return ret(st, TupleV{e.mkByteSlice(st, out), n, mkBool(bad)})
	}
	native := func(b []byte) ([]byte, int, bool) {
		var t transform.Transformer
		if enc {
			t = traditionalchinese.Big5.NewEncoder()
		} else {
			t = traditionalchinese.Big5.NewDecoder()
		}
		o, n, err := transform.Bytes(t, b)
		return o, n, err != nil
	}
	if c, ok := s.conc(); ok {
		o, n, bad := native([]byte(c))
		return done(st, concStr(string(o)), mkInt(int64(n)), bad)
	}
	asc := asciiOnly(e, st, s)
	if asc == TTrue || st.known(asc) > 0 {
		return done(st, s, s.len, false)
	}
	// a text which depends on one byte only: the conversion is a table over its values
	if out, n, bad, ok := lift1(s, native); ok {
		return ret(st, TupleV{e.mkByteSlice(st, out), n, bad})
	}
	// concrete non-ASCII runs between symbolic ASCII bytes
	b := s.norm()
	var out *Str = concStr("")
	ok := true
	for i := 0; i < len(b) && ok; {
		if b[i].hi < 0x80 {
			j := i
			for j < len(b) && b[j].hi < 0x80 {
				j++
			}
			var l *Term
			if uint64(j) <= s.len.lo {
				l = mkInt(int64(j - i))
			} else {
				if j < len(b) && s.len.hi > uint64(j) {
					ok = false
					break
				}
				l = mkSub(s.len, mkInt(int64(i)))
			}
			out = strConcat(out, strFrom(b[i:j], l))
			i = j
			continue
		}
		j := i
		lead := func(k int) bool {
			return !enc && b[k].Op == OConst && b[k].C >= 0x81 && b[k].C < 0xff && k+1 < len(b)
		}
		if lead(i) && b[i+1].Op != OConst && uint64(i+2) <= s.len.lo {
			// one two-byte code with a free second byte
			o, n, bad, k := lift1(strFrom(b[i:i+2], mkInt(2)), native)
			if k && bad == TFalse && n == mkInt(2) {
				out = strConcat(out, o)
				i += 2
				continue
			}
		}
		var raw []byte
		for j < len(b) && b[j].Op == OConst {
			if lead(j) {
				if b[j+1].Op != OConst {
					break
				}
				raw = append(raw, byte(b[j].C))
				j++
			}
			raw = append(raw, byte(b[j].C))
			j++
		}
		if len(raw) == 0 || uint64(j) > s.len.lo {
			ok = false
			break
		}
		o, n, bad := native(raw)
		if bad || n != len(raw) {
			ok = false
			break
		}
		if j < len(b) && s.len.hi > uint64(j) {
			// the run must not end inside a character: decoding with one more ASCII byte must not change it
			o2, _, bad2 := native(append(append([]byte(nil), raw...), 'A'))
			if bad2 || string(o2) != string(o)+"A" {
				ok = false
				break
			}
		}
		out = strConcat(out, concStr(string(o)))
		i = j
	}
	if ok {
		return done(st, out, s.len, false)
	}
	yes, no := e.split(st, asc)
	if no != nil {
		e.harness.incomplete("symbolic non-ASCII text conversion", "codec")
	}
	if yes == nil {
		return &Outcome{}, true
	}
	return done(yes, s, s.len, false)
}

// lift1 applies a native function to a text which depends on a single variable of at most 8 bits: the
// result is a table over the values of that variable.
func lift1(s *Str, f func([]byte) ([]byte, int, bool)) (out *Str, n, bad *Term, ok bool) {
	b := s.norm()
	var vars, apps []*Term
	collect(append(append([]*Term{}, b...), s.len), &vars, &apps)
	if len(vars) != 1 || len(apps) != 0 || vars[0].W > 8 || vars[0].W == 0 {
		return
	}
	v := vars[0]
	type res struct {
		o   []byte
		n   int
		bad bool
	}
	var rs []res
	max := 0
	for x := v.lo; x <= v.hi; x++ {
		m := newModel()
		m.vals[v.Name] = x
		l := int(m.eval(s.len))
		if l > len(b) {
			return
		}
		raw := make([]byte, l)
		for i := range raw {
			raw[i] = byte(m.eval(b[i]))
		}
		o, k, e := f(raw)
		rs = append(rs, res{o, k, e})
		if len(o) > max {
			max = len(o)
		}
	}
	// equal neighbours share one entry
	pick := func(w func(r res) *Term) *Term {
		hi := len(rs) - 1
		t := w(rs[hi])
		last := t
		for i := hi - 1; i >= 0; i-- {
			x := w(rs[i])
			if x != last {
				t = mkIte(mkULe(v, mkConst(v.W, v.lo+uint64(i))), x, t)
				last = x
			}
		}
		return t
	}
	bytes := make([]*Term, max)
	for i := range bytes {
		bytes[i] = pick(func(r res) *Term {
			if i < len(r.o) {
				return byteC[r.o[i]]
			}
			return byteC[0]
		})
	}
	l := pick(func(r res) *Term { return mkInt(int64(len(r.o))) })
	return strFrom(bytes, l), pick(func(r res) *Term { return mkInt(int64(r.n)) }), pick(func(r res) *Term { return mkBool(r.bad) }), true
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = strings.Contains
