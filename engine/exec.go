package main

// The symbolic interpreter for Go SSA.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	fi     *fnInfo
	work   []*State
	rets   []*State
	panics []*State
	tolern bool
}

func (e *Exec) posKey(fi *fnInfo, st *State) []int32 {
	b := st.block.Index
	nest := fi.nest[b]
	k := make([]int32, 0, 2*len(nest)+1)
	for i, h := range nest {
		k = append(k, int32(fi.lin[h]), st.iters[i])
	}
	return append(k, int32(fi.lin[b]))
}

func cmpKey(a, b []int32) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

// callFn runs fn from st with args; st is consumed.
func (e *Exec) callFn(st *State, fn *ssa.Function, args, free []Value, site ssa.Instruction) *Outcome {
	fi := e.info(fn)
	e.stats.Calls++
	if fi.intrOK {
		if o, ok := fi.intr(e, st, fn, args); ok {
			return o
		}
	}
	if fn.Blocks == nil {
		e.fail("call of function without body: %s", fi.name)
	}
	if fn.Synthetic == "" || true {
		if p := fn.Pkg; p != nil && e.initMode == 0 && strings.HasPrefix(p.Pkg.Path(), e.modPath) && !strings.Contains(p.Pkg.Path(), "zzverif") {
			e.stats.Funcs[fi.name] = true
		}
	}
	if e.depth > 400 {
		e.fail("call depth limit in %s", fi.name)
	}
	e.depth++
	defer func() { e.depth-- }()

	savedRegs, savedBlock, savedIters, savedDef := st.regs, st.block, st.iters, st.defers
	savedPanicking, savedPV, savedRec, savedPos := st.panicking, st.panicVal, st.recovered, st.panicPos
	fr := &frame{fi: fi}
	fr.tolern = e.initMode > 0 && fn.Name() == "init" && fn.Synthetic != ""
	st.regs = make([]Value, fi.nreg)
	for i, p := range fn.Params {
		if i < len(args) {
			st.regs[fi.reg[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		st.regs[fi.reg[p]] = free[i]
	}
	st.block = fn.Blocks[0]
	st.iters = nil
	if n := len(fi.nest[0]); n > 0 {
		st.iters = make([]int32, n)
	}
	st.defers = nil
	// a callee sees the caller's panicking state only for recover(); plain calls clear it
	fr.work = []*State{st}
	for {
		e.runFrame(fr)
		// panicking states with deferred calls
		again := false
		ps := fr.panics
		fr.panics = nil
		var done []*State
		for _, p := range e.mergeMany(ps, fi, nil) {
			if p.defers == nil {
				done = append(done, p)
				continue
			}
			again = true
			e.runDefersPanicking(fr, p, &done)
		}
		fr.panics = append(fr.panics, done...)
		if !again && len(fr.work) == 0 {
			break
		}
		if len(fr.work) == 0 {
			// only propagating panics left, possibly with more defers
			more := false
			for _, p := range fr.panics {
				if p.defers != nil {
					more = true
				}
			}
			if !more {
				break
			}
		}
	}
	out := &Outcome{}
	rets := fr.rets
	if len(rets) > 1 {
		// results are carried in regs[0]
		for _, r := range rets {
			r.defers = nil
			r.block = nil
			r.iters = nil
		}
		rets = e.mergeMany(rets, fi, nil)
	}
	restore := func(s *State) {
		s.regs, s.block, s.iters, s.defers = savedRegs, savedBlock, savedIters, savedDef
	}
	if len(rets) > 0 {
		out.st = rets[0]
		out.val = rets[0].regs[0]
		restore(out.st)
		out.st.regs = append([]Value(nil), savedRegs...)
		out.st.panicking, out.st.panicVal, out.st.panicPos = savedPanicking, savedPV, savedPos
		if !savedPanicking {
			out.st.recovered = savedRec
		}
	}
	for _, p := range fr.panics {
		restore(p)
		p.regs = append([]Value(nil), savedRegs...)
		out.panics = append(out.panics, p)
	}
	return out
}

func (e *Exec) runDefersPanicking(fr *frame, p *State, done *[]*State) {
	for p.defers != nil {
		d := p.defers
		p.defers = d.next
		o := e.safeDefer(d, p)
		if o == nil {
			return
		}
		for _, q := range o.panics {
			q.panicking = true
			q.recovered = TFalse
			if q.defers == nil {
				*done = append(*done, q)
			} else {
				fr.panics = append(fr.panics, q)
			}
		}
		if o.st == nil {
			return
		}
		p = o.st
		rec, still := e.split(p, p.recovered)
		if rec != nil {
			rec.panicking = false
			rec.panicVal = nil
			rec.recovered = nil
			// remaining defers run, then return from the recover block
			if r := fr.fi.fn.Recover; r != nil {
				rec.block = r
				rec.iters = nil
				// remaining deferred calls
				for rec != nil && rec.defers != nil {
					d := rec.defers
					rec.defers = d.next
					o := e.safeDefer(d, rec)
					if o == nil {
						rec = nil
						break
					}
					for _, q := range o.panics {
						fr.panics = append(fr.panics, q)
					}
					rec = o.st
				}
				if rec != nil {
					fr.work = append(fr.work, rec)
				}
			} else {
				// no named results: zero values
				rec.regs = []Value{e.zeroResults(fr.fi.fn)}
				fr.rets = append(fr.rets, rec)
			}
		}
		if still == nil {
			return
		}
		p = still
	}
	*done = append(*done, p)
}

func (e *Exec) safeDefer(d *deferNode, st *State) (o *Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				e.noteUnsupported(st, u.why, "deferred call")
				o = nil
				return
			}
			panic(r)
		}
	}()
	return d.call(e, st)
}

func (e *Exec) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return e.zero(r.At(0).Type())
	}
	tv := make(TupleV, r.Len())
	for i := range tv {
		tv[i] = e.zero(r.At(i).Type())
	}
	return tv
}

func (e *Exec) runFrame(fr *frame) {
	fi := fr.fi
	for len(fr.work) > 0 {
		if time.Now().After(e.deadline) {
			panic(abortErr{why: "time limit"})
		}
		// minimal position
		best := 0
		bk := e.posKey(fi, fr.work[0])
		for i := 1; i < len(fr.work); i++ {
			k := e.posKey(fi, fr.work[i])
			if cmpKey(k, bk) < 0 {
				best, bk = i, k
			}
		}
		var group, rest []*State
		for i, s := range fr.work {
			if i == best || cmpKey(e.posKey(fi, s), bk) == 0 {
				group = append(group, s)
			} else {
				rest = append(rest, s)
			}
		}
		fr.work = rest
		if len(group) > 1 {
			group = e.mergeMany(group, fi, fi.liveIn[group[0].block.Index])
		}
		for _, s := range group {
			e.execBlockSafe(fr, s)
		}
	}
}

func (e *Exec) execBlockSafe(fr *frame, st *State) {
	nw, nr := len(fr.work), len(fr.rets)
	_ = nr
	cur := st
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case unsup:
				if len(fr.work) > nw {
					fr.work = fr.work[:nw]
				}
				e.noteUnsupported(cur, u.why, fr.fi.name)
			case abortErr:
				panic(r)
			default:
				if _, ok := r.(error); ok || true {
					if os.Getenv("VERIF_DEBUG") != "" {
						debug.PrintStack()
					}
					e.noteUnsupported(cur, fmt.Sprintf("internal error: %v", r), fr.fi.name)
				}
			}
		}
	}()
	e.execBlock(fr, st)
}

func (e *Exec) noteUnsupported(st *State, why, where string) {
	if e.initMode > 0 {
		debugf("unsupported in init: %s in %s", why, where)
		return
	}
	e.harness.incomplete(why, where)
}

func (e *Exec) execBlock(fr *frame, st *State) {
	e.stats.Blocks++
	b := st.block
	for _, in := range b.Instrs {
		e.stats.Instrs++
		e.curIn = in
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			e.gotoBlock(fr, st, b, b.Succs[0])
			return
		case *ssa.If:
			c, ok := e.get(fr, st, x.Cond).(*Term)
			if !ok {
				e.fail("if condition is %T", e.get(fr, st, x.Cond))
			}
			t, f := e.split(st, c)
			if t != nil {
				e.gotoBlock(fr, t, b, b.Succs[0])
			}
			if f != nil {
				e.gotoBlock(fr, f, b, b.Succs[1])
			}
			return
		case *ssa.Return:
			var v Value
			switch len(x.Results) {
			case 0:
			case 1:
				v = e.get(fr, st, x.Results[0])
			default:
				tv := make(TupleV, len(x.Results))
				for i, r := range x.Results {
					tv[i] = e.get(fr, st, r)
				}
				v = tv
			}
			st.regs = []Value{v}
			fr.rets = append(fr.rets, st)
			return
		case *ssa.Panic:
			st.panicking = true
			st.recovered = TFalse
			st.panicVal = e.get(fr, st, x.X)
			st.panicPos = e.posStr(in)
			fr.panics = append(fr.panics, st)
			return
		case *ssa.RunDefers:
			for st != nil && st.defers != nil {
				d := st.defers
				st.defers = d.next
				o := d.call(e, st)
				for _, q := range o.panics {
					fr.panics = append(fr.panics, q)
				}
				st = o.st
			}
			if st == nil {
				return
			}
			continue
		}
		st = e.execInstrTol(fr, st, in)
		if st == nil {
			return
		}
	}
}

func (e *Exec) gotoBlock(fr *frame, st *State, from, to *ssa.BasicBlock) {
	fi := fr.fi
	// phis
	var vals []Value
	var regs []int
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for k, p := range to.Preds {
			if p == from {
				vals = append(vals, e.get(fr, st, phi.Edges[k]))
				regs = append(regs, fi.reg[phi])
				break
			}
		}
	}
	for i, r := range regs {
		st.regs[r] = vals[i]
	}
	// iteration counters
	on, nn := fi.nest[from.Index], fi.nest[to.Index]
	it := make([]int32, len(nn))
	for i, h := range nn {
		in := i < len(on) && on[i] == h
		if in {
			it[i] = st.iters[i]
			if h == to.Index {
				it[i]++
				if int(it[i]) > e.loopLimit {
					if int(it[i]) > e.maxIter || e.symbolicLoop(st, it[i]) {
						e.harness.boundHit(st, fmt.Sprintf("%s: loop at %s after %d iterations", fi.name, e.posStr(firstPos(to)), it[i]))
						return
					}
				}
			}
		}
	}
	st.block = to
	st.iters = it
	fr.work = append(fr.work, st)
}

// symbolicLoop: the loop kept forking (its path condition grows with the iterations).
func (e *Exec) symbolicLoop(st *State, it int32) bool {
	return pcDepth(st.pc) > int(it)/2
}

func firstPos(b *ssa.BasicBlock) ssa.Instruction {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in
		}
	}
	for _, p := range b.Preds {
		for _, in := range p.Instrs {
			if in.Pos().IsValid() {
				return in
			}
		}
	}
	return b.Instrs[0]
}

func (e *Exec) posStr(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		for _, i := range in.Block().Instrs {
			if i.Pos().IsValid() {
				p = i.Pos()
			}
			if i == in && p.IsValid() {
				break
			}
		}
	}
	pp := e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", shortFile(pp.Filename), pp.Line)
}

func shortFile(f string) string {
	if i := strings.Index(f, "/repo/"); i >= 0 {
		return f[i+6:]
	}
	parts := strings.Split(f, "/")
	if len(parts) > 3 {
		parts = parts[len(parts)-3:]
	}
	return strings.Join(parts, "/")
}

// execInstrTol: in package initialisers an unsupported instruction poisons its result only.
func (e *Exec) execInstrTol(fr *frame, st *State, in ssa.Instruction) (out *State) {
	if !fr.tolern {
		return e.execInstr(fr, st, in)
	}
	shallow := *st
	bak := &shallow
	depth := e.depth
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortErr); ok {
				panic(r)
			}
			e.depth = depth
			debugf("init %s: %v poisoned: %v", fr.fi.name, in, r)
			if v, ok := in.(ssa.Value); ok {
				bak.regs[fr.fi.reg[v]] = &Poison{fmt.Sprintf("init: %v", r)}
			}
			out = bak
		}
	}()
	r := e.execInstr(fr, st, in)
	if r == nil {
		fr.panics = nil
		if v, ok := in.(ssa.Value); ok {
			bak.regs[fr.fi.reg[v]] = &Poison{"init: no result"}
		}
		return bak
	}
	return r
}

// panicIf adds a panic outcome for condition bad; returns the continuing state.
func (e *Exec) panicIf(fr *frame, st *State, bad *Term, msg string, in ssa.Instruction) *State {
	if bad == TFalse {
		return st
	}
	b, ok := e.split(st, bad)
	if b != nil {
		e.raise(fr, b, msg, in)
	}
	return ok
}

func (e *Exec) raise(fr *frame, st *State, msg string, in ssa.Instruction) {
	st.panicking = true
	st.recovered = TFalse
	st.panicVal = e.runtimeError(msg)
	st.panicPos = e.posStr(in)
	fr.panics = append(fr.panics, st)
}

func (e *Exec) runtimeError(msg string) Value {
	t := e.namedType("runtime", "errorString")
	if t == nil {
		return &IfaceV{types.Typ[types.String], concStr("runtime error: " + msg)}
	}
	return &IfaceV{t, concStr(msg)}
}

func (e *Exec) namedType(pkg, name string) types.Type {
	k := pkg + "." + name
	if t, ok := e.typeIntr[k]; ok {
		return t
	}
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	e.typeIntr[k] = o.Type()
	return o.Type()
}

func (e *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			w := intWidth(b)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return mkConst(w, uint64(i))
			}
			u, _ := constant.Uint64Val(v)
			return mkConst(w, u)
		case b.Info()&types.IsString != 0:
			return concStr(constant.StringVal(c.Value))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return FloatV(f)
		}
	}
	e.fail("constant %v", c)
	return nil
}

func (e *Exec) get(fr *frame, st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return &PtrV{obj: e.globalObj(x)}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{bi: x}
	}
	r := st.regs[fr.fi.reg[v]]
	if r == nil {
		e.fail("unset register %s in %s", v.Name(), fr.fi.name)
	}
	return r
}

func (e *Exec) term(fr *frame, st *State, v ssa.Value) *Term {
	x := e.get(fr, st, v)
	t, ok := x.(*Term)
	if !ok {
		e.fail("expected scalar, have %s for %v", dumpValue(x), v)
	}
	return t
}

// ---- instructions ----

func (e *Exec) execInstr(fr *frame, st *State, in ssa.Instruction) *State {
	set := func(v Value) {
		st.regs[fr.fi.reg[in.(ssa.Value)]] = v
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		o := e.newObj(st, t, x.Comment, e.zero(t))
		set(&PtrV{obj: o})
	case *ssa.BinOp:
		v, s := e.binop(fr, st, x)
		if s == nil {
			return nil
		}
		st = s
		set(v)
	case *ssa.UnOp:
		return e.unop(fr, st, x)
	case *ssa.Call:
		return e.doCall(fr, st, x)
	case *ssa.ChangeInterface:
		set(e.get(fr, st, x.X))
	case *ssa.ChangeType:
		set(e.get(fr, st, x.X))
	case *ssa.Convert:
		set(e.convert(st, e.get(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(e.convert(st, e.get(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		v := e.get(fr, st, x.X)
		set(&IfaceV{x.X.Type(), v})
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.free = append(f.free, e.get(fr, st, b))
		}
		set(f)
	case *ssa.MakeMap:
		o := e.newObj(st, nil, "map", &MapC{})
		set(&MapRef{o})
	case *ssa.MakeSlice:
		return e.makeSlice(fr, st, x)
	case *ssa.Slice:
		return e.sliceOp(fr, st, x)
	case *ssa.SliceToArrayPointer:
		v := e.get(fr, st, x.X)
		n := deref(x.Type()).Underlying().(*types.Array).Len()
		s, ok := v.(*SliceV)
		if !ok {
			e.fail("slice to array pointer of %T", v)
		}
		st = e.panicIf(fr, st, mkSLt(s.len, mkInt(n)), "cannot convert slice to array pointer: length too short", in)
		if st == nil {
			return nil
		}
		if s.base == nil {
			if n == 0 {
				st.regs[fr.fi.reg[x]] = nilPtr
				return st
			}
			return nil
		}
		a := e.sliceArr(st, s)
		if s.off.Op == OConst && s.off.C == 0 && int64(a.n) == n {
			st.regs[fr.fi.reg[x]] = s.base
			return st
		}
		e.fail("slice to array pointer (view)")
	case *ssa.FieldAddr:
		v := e.get(fr, st, x.X)
		r, s := e.mapPtr(fr, st, v, in, func(p *PtrV) Value { return p.field(x.Field) })
		if s == nil {
			return nil
		}
		s.regs[fr.fi.reg[x]] = r
		return s
	case *ssa.Field:
		v := e.get(fr, st, x.X)
		set(e.mapVal(v, func(y Value) Value {
			s, ok := y.(*StructV)
			if !ok {
				e.fail("field of %s", dumpValue(y))
			}
			return s.f[x.Field]
		}))
	case *ssa.IndexAddr:
		return e.indexAddr(fr, st, x)
	case *ssa.Index:
		return e.index(fr, st, x)
	case *ssa.Lookup:
		return e.lookup(fr, st, x)
	case *ssa.MapUpdate:
		m := e.get(fr, st, x.Map)
		k, v := e.get(fr, st, x.Key), e.get(fr, st, x.Value)
		mt := x.Map.Type().Underlying().(*types.Map)
		for _, a := range alts(m) {
			mr, ok := a.v.(*MapRef)
			if !ok {
				e.fail("map update on %T", a.v)
			}
			if mr.obj == nil {
				st = e.panicIf(fr, st, a.g, "assignment to entry in nil map", in)
				if st == nil {
					return nil
				}
				continue
			}
			e.mapSet(st, mr, k, v, a.g, mt)
		}
	case *ssa.Store:
		p := e.get(fr, st, x.Addr)
		v := e.get(fr, st, x.Val)
		for _, a := range alts(p) {
			pp, ok := a.v.(*PtrV)
			if !ok {
				e.fail("store through %s", dumpValue(a.v))
			}
			if pp.obj == nil {
				st = e.panicIf(fr, st, a.g, "invalid memory address or nil pointer dereference", in)
				if st == nil {
					return nil
				}
			}
		}
		for _, a := range alts(p) {
			pp := a.v.(*PtrV)
			if pp.obj != nil {
				g := a.g
				if st.known(g) < 0 {
					continue
				}
				e.storePtr(st, pp, v, g)
			}
		}
	case *ssa.Extract:
		tv := e.get(fr, st, x.Tuple)
		set(e.mapVal(tv, func(y Value) Value {
			t, ok := y.(TupleV)
			if !ok {
				if p, isP := y.(*Poison); isP {
					return p
				}
				e.fail("extract from %T", y)
			}
			return t[x.Index]
		}))
	case *ssa.TypeAssert:
		return e.typeAssert(fr, st, x)
	case *ssa.Range:
		v := e.get(fr, st, x.X)
		switch y := v.(type) {
		case *Str:
			set(&IterV{isStr: true, str: y, pos: mkInt(0)})
		case *MapRef:
			it := &IterV{}
			if y.obj != nil {
				it.ents = e.objGet(st, y.obj).(*MapC).ents
			}
			set(it)
		default:
			e.fail("range over %s", dumpValue(v))
		}
	case *ssa.Next:
		return e.next(fr, st, x)
	case *ssa.Defer:
		return e.deferInstr(fr, st, x)
	case *ssa.Go:
		e.fail("goroutine")
	default:
		e.fail("instruction %T", in)
	}
	return st
}

func (e *Exec) mapVal(v Value, f func(Value) Value) Value {
	u, ok := v.(*Union)
	if !ok {
		return f(v)
	}
	as := make([]Alt, len(u.alts))
	for i, a := range u.alts {
		as[i] = Alt{a.g, f(a.v)}
	}
	return combine(as)
}

// mapPtr applies f to every non-nil pointer alternative; nil alternatives panic.
func (e *Exec) mapPtr(fr *frame, st *State, v Value, in ssa.Instruction, f func(*PtrV) Value) (Value, *State) {
	var as []Alt
	for _, a := range alts(v) {
		p, ok := a.v.(*PtrV)
		if !ok {
			if po, isP := a.v.(*Poison); isP {
				e.fail("dereference of poison: %s", po.why)
			}
			e.fail("dereference of %s", dumpValue(a.v))
		}
		if p.obj == nil {
			st = e.panicIf(fr, st, a.g, "invalid memory address or nil pointer dereference", in)
			if st == nil {
				return nil, nil
			}
			continue
		}
		as = append(as, Alt{a.g, nil})
		as[len(as)-1].v = p
	}
	if len(as) == 0 {
		return nil, nil
	}
	for i := range as {
		as[i].v = f(as[i].v.(*PtrV))
	}
	return combine(as), st
}

func (e *Exec) unop(fr *frame, st *State, x *ssa.UnOp) *State {
	reg := fr.fi.reg[x]
	v := e.get(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		// skip infeasible alternatives
		if u, ok := v.(*Union); ok {
			v = e.prune(st, u)
		}
		r, s := e.mapPtr(fr, st, v, x, func(p *PtrV) Value { return e.loadPtr(st, p) })
		if s == nil {
			return nil
		}
		s.regs[reg] = r
		return s
	case token.NOT:
		st.regs[reg] = mkNot(e.term(fr, st, x.X))
	case token.SUB:
		if f, ok := v.(FloatV); ok {
			st.regs[reg] = -f
		} else {
			st.regs[reg] = mkNeg(e.term(fr, st, x.X))
		}
	case token.XOR:
		st.regs[reg] = mkBNot(e.term(fr, st, x.X))
	default:
		e.fail("unop %v", x.Op)
	}
	return st
}

// prune drops alternatives refuted by path literals.
func (e *Exec) prune(st *State, u *Union) Value {
	var as []Alt
	for _, a := range u.alts {
		if st.known(a.g) < 0 {
			continue
		}
		if a.g.Op == OAnd {
			bad := false
			for _, l := range a.g.Args {
				if st.known(l) < 0 {
					bad = true
				}
			}
			if bad {
				continue
			}
		}
		as = append(as, a)
	}
	if len(as) == len(u.alts) {
		return u
	}
	if len(as) == 1 {
		return as[0].v
	}
	return &Union{as}
}

func (e *Exec) binop(fr *frame, st *State, x *ssa.BinOp) (Value, *State) {
	a, b := e.get(fr, st, x.X), e.get(fr, st, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		r := e.eqValue(st, a, b, t)
		if x.Op == token.NEQ {
			r = mkNot(r)
		}
		return r, st
	}
	switch p := a.(type) {
	case *Str:
		q, ok := b.(*Str)
		if !ok {
			e.fail("string op with %T", b)
		}
		switch x.Op {
		case token.ADD:
			return strConcat(p, q), st
		case token.LSS:
			return strLess(p, q), st
		case token.GTR:
			return strLess(q, p), st
		case token.LEQ:
			return mkNot(strLess(q, p)), st
		case token.GEQ:
			return mkNot(strLess(p, q)), st
		}
	case FloatV:
		q, ok := b.(FloatV)
		if !ok {
			e.fail("float op with %T", b)
		}
		switch x.Op {
		case token.ADD:
			return p + q, st
		case token.SUB:
			return p - q, st
		case token.MUL:
			return p * q, st
		case token.QUO:
			return p / q, st
		case token.LSS:
			return mkBool(p < q), st
		case token.LEQ:
			return mkBool(p <= q), st
		case token.GTR:
			return mkBool(p > q), st
		case token.GEQ:
			return mkBool(p >= q), st
		}
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			e.fail("binop with %s", dumpValue(b))
		}
		sg := isSigned(t)
		switch x.Op {
		case token.ADD:
			return mkAdd(p, q), st
		case token.SUB:
			return mkSub(p, q), st
		case token.MUL:
			return mkMul(p, q), st
		case token.QUO, token.REM:
			st = e.panicIf(fr, st, mkEq(q, mkConst(q.W, 0)), "integer divide by zero", x)
			if st == nil {
				return nil, nil
			}
			switch {
			case x.Op == token.QUO && sg:
				return mkSDiv(p, q), st
			case x.Op == token.QUO:
				return mkUDiv(p, q), st
			case sg:
				return mkSRem(p, q), st
			default:
				return mkURem(p, q), st
			}
		case token.AND:
			if p.W == 0 {
				return mkAnd(p, q), st
			}
			return mkBAnd(p, q), st
		case token.OR:
			if p.W == 0 {
				return mkOr(p, q), st
			}
			return mkBOr(p, q), st
		case token.XOR:
			return mkBXor(p, q), st
		case token.AND_NOT:
			return mkBAnd(p, mkBNot(q)), st
		case token.SHL, token.SHR:
			if isSigned(x.Y.Type()) {
				st = e.panicIf(fr, st, mkSLt(q, mkConst(q.W, 0)), "negative shift amount", x)
				if st == nil {
					return nil, nil
				}
			}
			return shiftGo(x.Op, p, q, sg), st
		case token.LSS:
			if sg {
				return mkSLt(p, q), st
			}
			return mkULt(p, q), st
		case token.GTR:
			if sg {
				return mkSLt(q, p), st
			}
			return mkULt(q, p), st
		case token.LEQ:
			if sg {
				return mkSLe(p, q), st
			}
			return mkULe(p, q), st
		case token.GEQ:
			if sg {
				return mkSLe(q, p), st
			}
			return mkULe(q, p), st
		}
	}
	e.fail("binop %v on %s", x.Op, dumpValue(a))
	return nil, nil
}

func shiftGo(op token.Token, p, q *Term, sg bool) *Term {
	w := p.W
	var cnt, big *Term
	if q.W > w {
		big = mkNot(mkULt(q, mkConst(q.W, uint64(w))))
		cnt = mkExtract(q, 0, w)
	} else {
		cnt = mkZExt(q, w)
		big = mkNot(mkULt(cnt, mkConst(w, uint64(w))))
		if q.W < w && uint64(w) > mask(q.W) {
			big = TFalse
		}
	}
	var norm, over *Term
	switch {
	case op == token.SHL:
		over = mkConst(w, 0)
		if big == TTrue {
			return over
		}
		norm = mkShl(p, cnt)
	case sg:
		over = mkAShr(p, mkConst(w, uint64(w)-1))
		if big == TTrue {
			return over
		}
		norm = mkAShr(p, cnt)
	default:
		over = mkConst(w, 0)
		if big == TTrue {
			return over
		}
		norm = mkLShr(p, cnt)
	}
	return mkIte(big, over, norm)
}

// eqValue compares two values of static type t.
func (e *Exec) eqValue(st *State, a, b Value, t types.Type) *Term {
	_, ua := a.(*Union)
	_, ub := b.(*Union)
	if ua || ub {
		var ors []*Term
		for _, x := range alts(a) {
			for _, y := range alts(b) {
				g := mkAnd(x.g, y.g)
				if g == TFalse {
					continue
				}
				ors = append(ors, mkAnd(g, e.eqValue(st, x.v, y.v, t)))
			}
		}
		return mkOr(ors...)
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return mkEq(x, y)
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			return strEq(x, y)
		}
	case FloatV:
		if y, ok := b.(FloatV); ok {
			return mkBool(x == y)
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			if x.obj != y.obj {
				return TFalse
			}
			if len(x.path) != len(y.path) {
				return TFalse
			}
			cs := []*Term{}
			for i := range x.path {
				if (x.path[i].idx == nil) != (y.path[i].idx == nil) {
					return TFalse
				}
				if x.path[i].idx == nil {
					if x.path[i].field != y.path[i].field {
						return TFalse
					}
				} else {
					cs = append(cs, mkEq(x.path[i].idx, y.path[i].idx))
				}
			}
			return mkAnd(cs...)
		}
	case *SliceV: // only against nil
		if y, ok := b.(*SliceV); ok {
			if y.base == nil {
				return mkBool(x.base == nil)
			}
			if x.base == nil {
				return mkBool(y.base == nil)
			}
		}
	case *MapRef:
		if y, ok := b.(*MapRef); ok {
			return mkBool(x.obj == y.obj)
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			xn := x.fn == nil && x.bi == nil && x.nat == nil
			yn := y.fn == nil && y.bi == nil && y.nat == nil
			if xn || yn {
				return mkBool(xn && yn)
			}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.t == nil || y.t == nil {
				return mkBool(x.t == nil && y.t == nil)
			}
			if !types.Identical(x.t, y.t) {
				return TFalse
			}
			return e.eqValue(st, x.v, y.v, x.t)
		}
		// interface against concrete value
		if x.t == nil {
			return TFalse
		}
		return e.eqValue(st, x.v, b, t)
	case *StructV:
		if y, ok := b.(*StructV); ok {
			cs := []*Term{}
			for i := range x.f {
				cs = append(cs, e.eqValue(st, x.f[i], y.f[i], nil))
			}
			return mkAnd(cs...)
		}
	case *Arr:
		if y, ok := b.(*Arr); ok && x.n == y.n {
			cs := []*Term{}
			for i := 0; i < x.n; i++ {
				cs = append(cs, e.eqValue(st, x.get(i), y.get(i), nil))
			}
			return mkAnd(cs...)
		}
	}
	if y, ok := b.(*IfaceV); ok {
		if y.t == nil {
			return TFalse
		}
		return e.eqValue(st, a, y.v, t)
	}
	e.fail("comparison of %s and %s", dumpValue(a), dumpValue(b))
	return nil
}

// addressOf gives a pointer a number, pointerAt finds the pointer again; nothing else can be done with it.
func (e *Exec) addressOf(v Value) *Term {
	p, ok := v.(*PtrV)
	if !ok {
		e.fail("address of %T", v)
	}
	if p.obj == nil {
		return mkInt(0)
	}
	for i, q := range e.addrs {
		if samePtr(p, q) {
			return mkInt(0xc000000000 + int64(i+1)<<20)
		}
	}
	e.addrs = append(e.addrs, p)
	return mkInt(0xc000000000 + int64(len(e.addrs))<<20)
}

func (e *Exec) pointerAt(v Value) Value {
	t, ok := v.(*Term)
	if !ok || t.Op != OConst {
		e.fail("pointer from a symbolic number")
	}
	if t.C == 0 {
		return nilPtr
	}
	i := int(t.C-0xc000000000)>>20 - 1
	if t.C < 0xc000000000 || i < 0 || i >= len(e.addrs) || t.C&(1<<20-1) != 0 {
		e.fail("pointer from the number %x", t.C)
	}
	return e.addrs[i]
}

func samePtr(p, q *PtrV) bool {
	if p.obj != q.obj || len(p.path) != len(q.path) {
		return false
	}
	for i := range p.path {
		if p.path[i] != q.path[i] {
			return false
		}
	}
	return true
}

// a slice seen as a reflect.SliceHeader
func (e *Exec) headerField(s *SliceV, field int) Value {
	switch field {
	case 0:
		if s.base == nil {
			return mkInt(0)
		}
		return e.addressOf(s.base.index(s.off))
	case 1:
		return s.len
	}
	return s.cap
}

func (e *Exec) setHeaderField(s *SliceV, field int, v Value) *SliceV {
	n := *s
	switch field {
	case 0:
		p, ok := e.pointerAt(v).(*PtrV)
		if !ok || p.obj == nil {
			n.base = nil
			break
		}
		k := len(p.path) - 1
		if k < 0 || p.path[k].idx == nil {
			e.fail("slice of a pointer which is no element")
		}
		n.base = &PtrV{obj: p.obj, path: p.path[:k]}
		n.off = p.path[k].idx
	case 1:
		n.len = v.(*Term)
	default:
		n.cap = v.(*Term)
	}
	return &n
}

func (e *Exec) convert(st *State, v Value, from, to types.Type) Value {
	if u, ok := v.(*Union); ok {
		as := make([]Alt, len(u.alts))
		for i, a := range u.alts {
			as[i] = Alt{a.g, e.convert(st, a.v, from, to)}
		}
		return combine(as)
	}
	if p, ok := v.(*Poison); ok {
		return p
	}
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := fu.(*types.TypeParam); ok {
		_ = tp
	}
	fb, fok := fu.(*types.Basic)
	tb, tok_ := tu.(*types.Basic)
	if tok_ && tb.Kind() == types.UnsafePointer || fok && fb.Kind() == types.UnsafePointer {
		if tok_ && tb.Kind() == types.Uintptr {
			return e.addressOf(v)
		}
		if fok && fb.Kind() == types.Uintptr {
			return e.pointerAt(v)
		}
		return v
	}
	if tok_ && tb.Info()&types.IsInteger != 0 {
		switch x := v.(type) {
		case *Term:
			w := intWidth(tb)
			if w <= x.W {
				return mkExtract(x, 0, w)
			}
			if isSigned(from) {
				return mkSExt(x, w)
			}
			return mkZExt(x, w)
		case FloatV:
			if isSigned(to) {
				return mkConst(intWidth(tb), uint64(int64(x)))
			}
			return mkConst(intWidth(tb), uint64(x))
		}
	}
	if tok_ && tb.Info()&types.IsFloat != 0 {
		switch x := v.(type) {
		case FloatV:
			if tb.Kind() == types.Float32 {
				return FloatV(float32(x))
			}
			return x
		case *Term:
			if x.Op == OConst {
				if isSigned(from) {
					return FloatV(float64(signed(x.C, x.W)))
				}
				return FloatV(float64(x.C))
			}
			e.fail("symbolic int to float")
		}
	}
	if tok_ && tb.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case *Str:
			return x
		case *Term: // string(rune)
			if x.Op == OConst {
				return concStr(string(rune(signed(x.C, x.W))))
			}
			if x.hi < 0x80 {
				return strFrom([]*Term{mkExtract(x, 0, 8)}, mkInt(1))
			}
			e.fail("string(rune) of symbolic rune")
		case *SliceV:
			el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				return e.sliceBytes(st, x)
			}
			return e.runesToString(st, x)
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(*Str); ok {
			el := ts.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				return e.mkByteSlice(st, s)
			}
			return e.stringToRunes(st, s, ts.Elem())
		}
		if _, ok := v.(*SliceV); ok {
			return v
		}
	}
	switch v.(type) {
	case *PtrV, *StructV, *Arr, *FuncV, *MapRef, *IfaceV:
		return v
	}
	e.fail("conversion %v -> %v of %s", from, to, dumpValue(v))
	return nil
}

func (e *Exec) runesToString(st *State, s *SliceV) Value {
	if s.base == nil {
		return concStr("")
	}
	a := e.sliceArr(st, s)
	if s.off.Op != OConst {
		e.fail("[]rune conversion with symbolic offset")
	}
	ascii := true
	conc := s.len.Op == OConst
	var ts []*Term
	n := int(min(s.len.hi, uint64(a.n)-s.off.C))
	for i := 0; i < n; i++ {
		t := a.get(int(s.off.C) + i).(*Term)
		if t.hi >= 0x80 {
			ascii = false
		}
		if t.Op != OConst {
			conc = false
		}
		ts = append(ts, t)
	}
	if ascii {
		out := make([]*Term, len(ts))
		for i, t := range ts {
			out[i] = mkExtract(t, 0, 8)
		}
		return strFrom(out, s.len)
	}
	if conc {
		var rs []rune
		for _, t := range ts {
			rs = append(rs, rune(signed(t.C, 32)))
		}
		return concStr(string(rs))
	}
	e.fail("symbolic []rune to string")
	return nil
}

func (e *Exec) stringToRunes(st *State, s *Str, el types.Type) Value {
	if c, ok := s.conc(); ok {
		rs := []rune(c)
		ts := make([]*Term, len(rs))
		for i, r := range rs {
			ts[i] = mkConst(32, uint64(uint32(r)))
		}
		o := e.newObj(st, types.NewArray(el, int64(len(ts))), "runes", arrFromTerms(ts))
		n := mkInt(int64(len(ts)))
		return &SliceV{&PtrV{obj: o}, mkInt(0), n, n}
	}
	b := s.norm()
	ts := make([]*Term, len(b))
	for i, t := range b {
		if t.hi >= 0x80 {
			e.fail("symbolic non-ASCII string to []rune")
		}
		ts[i] = mkZExt(t, 32)
	}
	o := e.newObj(st, types.NewArray(el, int64(len(ts))), "runes", arrFromTerms(ts))
	return &SliceV{&PtrV{obj: o}, mkInt(0), s.len, mkInt(int64(len(ts)))}
}

func (e *Exec) makeSlice(fr *frame, st *State, x *ssa.MakeSlice) *State {
	n, c := e.term(fr, st, x.Len), e.term(fr, st, x.Cap)
	n, c = e.toInt64(n, x.Len.Type()), e.toInt64(c, x.Cap.Type())
	st = e.panicIf(fr, st, mkSLt(n, mkInt(0)), "makeslice: len out of range", x)
	if st == nil {
		return nil
	}
	st = e.panicIf(fr, st, mkSLt(c, n), "makeslice: cap out of range", x)
	if st == nil {
		return nil
	}
	el := x.Type().Underlying().(*types.Slice).Elem()
	mx := e.upperBound(st, c)
	if mx > 1<<20 {
		e.fail("make of unbounded size (up to %d)", mx)
	}
	st.regs[fr.fi.reg[x]] = &SliceV{e.newArray(st, el, int(mx)), mkInt(0), n, c}
	return st
}

// upperBound gives a sound upper bound of t under the path condition (syntactic range first).
func (e *Exec) upperBound(st *State, t *Term) uint64 {
	if t.hi <= 4096 {
		return t.hi
	}
	for _, b := range []uint64{64, 512, 4096, 70000} {
		if t.hi <= b {
			return t.hi
		}
		if r, _ := e.feasible(st, mkNot(mkULe(t, mkConst(t.W, b)))); r == Unsat {
			return b
		}
	}
	return t.hi
}

func (e *Exec) toInt64(t *Term, ty types.Type) *Term {
	if t.W == 64 {
		return t
	}
	if isSigned(ty) {
		return mkSExt(t, 64)
	}
	return mkZExt(t, 64)
}

func (e *Exec) sliceOp(fr *frame, st *State, x *ssa.Slice) *State {
	v := e.get(fr, st, x.X)
	var lo, hi, mx *Term
	lo = mkInt(0)
	if x.Low != nil {
		lo = e.toInt64(e.term(fr, st, x.Low), x.Low.Type())
	}
	if x.High != nil {
		hi = e.toInt64(e.term(fr, st, x.High), x.High.Type())
	}
	if x.Max != nil {
		mx = e.toInt64(e.term(fr, st, x.Max), x.Max.Type())
	}
	var as []Alt
	for _, a := range alts(v) {
		var ln, cp *Term
		var res func(lo, hi, mx *Term) Value
		switch s := a.v.(type) {
		case *Str:
			ln, cp = s.len, s.len
			res = func(lo, hi, mx *Term) Value { return s.sub(lo, hi) }
		case *SliceV:
			ln, cp = s.len, s.cap
			res = func(lo, hi, mx *Term) Value {
				if s.base == nil {
					return nilSlice
				}
				return &SliceV{s.base, mkAdd(s.off, lo), mkRng(mkSub(hi, lo), s.cap.hi), mkRng(mkSub(mx, lo), s.cap.hi)}
			}
		case *PtrV:
			if s.obj == nil {
				st = e.panicIf(fr, st, a.g, "invalid memory address or nil pointer dereference", x)
				if st == nil {
					return nil
				}
				continue
			}
			n := deref(x.X.Type()).Underlying().(*types.Array).Len()
			ln, cp = mkInt(n), mkInt(n)
			res = func(lo, hi, mx *Term) Value {
				return &SliceV{s, lo, mkSub(hi, lo), mkSub(mx, lo)}
			}
		default:
			e.fail("slice of %s", dumpValue(a.v))
		}
		h, m := hi, mx
		if h == nil {
			h = ln
		}
		if m == nil {
			m = cp
		}
		// 0 <= lo <= h <= m <= cap
		bad := mkOr(mkSLt(lo, mkInt(0)), mkSLt(h, lo), mkSLt(m, h))
		if mx != nil {
			bad = mkOr(bad, mkSLt(cp, m))
		}
		st = e.panicIf(fr, st, mkAnd(a.g, bad), "slice bounds out of range", x)
		if st == nil {
			return nil
		}
		as = append(as, Alt{a.g, res(dropLeaves(lo, cp.hi), dropLeaves(h, cp.hi), m)})
	}
	if len(as) == 0 {
		return nil
	}
	st.regs[fr.fi.reg[x]] = combine(as)
	return st
}

// dropLeaves removes the constant leaves above max from a chain of conditionals whose value the path
// condition is known to keep within 0..max.
func dropLeaves(t *Term, max uint64) *Term {
	if t.Op != OIte || t.hi <= max {
		return t
	}
	if b := t.Args[2]; b.Op == OConst && b.C > max {
		return dropLeaves(t.Args[1], max)
	}
	if a := t.Args[1]; a.Op == OConst && a.C > max {
		return dropLeaves(t.Args[2], max)
	}
	b := dropLeaves(t.Args[2], max)
	if b == t.Args[2] {
		return t
	}
	return mkIte(t.Args[0], t.Args[1], b)
}

func (e *Exec) indexAddr(fr *frame, st *State, x *ssa.IndexAddr) *State {
	v := e.get(fr, st, x.X)
	i := e.toInt64(e.term(fr, st, x.Index), x.Index.Type())
	if u, ok := v.(*Union); ok {
		v = e.prune(st, u)
	}
	var as []Alt
	for _, a := range alts(v) {
		switch s := a.v.(type) {
		case *SliceV:
			bad := mkNot(mkULt(i, s.len))
			st = e.panicIf(fr, st, mkAnd(a.g, bad), "index out of range", x)
			if st == nil {
				return nil
			}
			if s.base == nil {
				continue
			}
			as = append(as, Alt{a.g, s.base.index(mkAdd(s.off, i))})
		case *PtrV:
			if s.obj == nil {
				st = e.panicIf(fr, st, a.g, "invalid memory address or nil pointer dereference", x)
				if st == nil {
					return nil
				}
				continue
			}
			n := deref(x.X.Type()).Underlying().(*types.Array).Len()
			st = e.panicIf(fr, st, mkAnd(a.g, mkNot(mkULt(i, mkInt(n)))), "index out of range", x)
			if st == nil {
				return nil
			}
			as = append(as, Alt{a.g, s.index(i)})
		default:
			e.fail("index of %s", dumpValue(a.v))
		}
	}
	if len(as) == 0 {
		return nil
	}
	st.regs[fr.fi.reg[x]] = combine(as)
	return st
}

func (e *Exec) index(fr *frame, st *State, x *ssa.Index) *State {
	v := e.get(fr, st, x.X)
	i := e.toInt64(e.term(fr, st, x.Index), x.Index.Type())
	switch s := v.(type) {
	case *Str:
		st = e.panicIf(fr, st, mkNot(mkULt(i, s.len)), "index out of range", x)
		if st == nil {
			return nil
		}
		st.regs[fr.fi.reg[x]] = s.at(i)
	case *Arr:
		st = e.panicIf(fr, st, mkNot(mkULt(i, mkInt(int64(s.n)))), "index out of range", x)
		if st == nil {
			return nil
		}
		st.regs[fr.fi.reg[x]] = e.loadPath(s, []PE{{field: -1, idx: i}})
	default:
		e.fail("index of %s", dumpValue(v))
	}
	return st
}

func (e *Exec) lookup(fr *frame, st *State, x *ssa.Lookup) *State {
	v := e.get(fr, st, x.X)
	if s, ok := v.(*Str); ok {
		i := e.toInt64(e.term(fr, st, x.Index), x.Index.Type())
		st = e.panicIf(fr, st, mkNot(mkULt(i, s.len)), "index out of range", x)
		if st == nil {
			return nil
		}
		st.regs[fr.fi.reg[x]] = s.at(i)
		return st
	}
	k := e.get(fr, st, x.Index)
	mt := x.X.Type().Underlying().(*types.Map)
	var as []Alt
	var oks []*Term
	for _, a := range alts(v) {
		mr, ok := a.v.(*MapRef)
		if !ok {
			e.fail("lookup in %s", dumpValue(a.v))
		}
		val, found := e.mapGet(st, mr, k, mt)
		as = append(as, Alt{a.g, val})
		oks = append(oks, mkAnd(a.g, found))
	}
	r := combine(as)
	if x.CommaOk {
		st.regs[fr.fi.reg[x]] = TupleV{r, mkOr(oks...)}
	} else {
		st.regs[fr.fi.reg[x]] = r
	}
	return st
}

func (e *Exec) mapGet(st *State, mr *MapRef, k Value, mt *types.Map) (Value, *Term) {
	res := e.zero(mt.Elem())
	if mr.obj == nil {
		return res, TFalse
	}
	mc := e.objGet(st, mr.obj).(*MapC)
	found := TFalse
	for i := 0; i < len(mc.ents); i++ {
		en := mc.ents[i]
		g := mkAnd(en.present, e.eqValue(st, en.key, k, mt.Key()))
		if g == TFalse {
			continue
		}
		res = mergeValue(g, en.val, res)
		found = mkOr(found, g)
	}
	return res, found
}

func (e *Exec) mapSet(st *State, mr *MapRef, k, v Value, guard *Term, mt *types.Map) {
	mc := e.objGet(st, mr.obj).(*MapC)
	n := &MapC{ents: append([]mapEntry(nil), mc.ents...)}
	found := TFalse
	for i := range n.ents {
		en := &n.ents[i]
		q := e.eqValue(st, en.key, k, mt.Key())
		if q == TTrue {
			// same key: revive or overwrite
			en.val = mergeValue(guard, v, en.val)
			en.present = mkOr(en.present, guard)
			st.heap.m[mr.obj] = n
			return
		}
		g := mkAnd(en.present, q, guard)
		if g == TFalse {
			continue
		}
		en.val = mergeValue(g, v, en.val)
		found = mkOr(found, g)
	}
	p := mkAnd(guard, mkNot(found))
	if p != TFalse {
		n.ents = append(n.ents, mapEntry{k, v, p})
	}
	st.heap.m[mr.obj] = n
}

func (e *Exec) mapDelete(st *State, mr *MapRef, k Value, mt *types.Map) {
	if mr.obj == nil {
		return
	}
	mc := e.objGet(st, mr.obj).(*MapC)
	n := &MapC{}
	for _, en := range mc.ents {
		q := e.eqValue(st, en.key, k, mt.Key())
		if q == TTrue {
			continue
		}
		en.present = mkAnd(en.present, mkNot(q))
		n.ents = append(n.ents, en)
	}
	st.heap.m[mr.obj] = n
}

func (e *Exec) typeAssert(fr *frame, st *State, x *ssa.TypeAssert) *State {
	v := e.get(fr, st, x.X)
	if u, ok := v.(*Union); ok {
		v = e.prune(st, u)
	}
	var as []Alt
	okT := TFalse
	it, isI := x.AssertedType.Underlying().(*types.Interface)
	for _, a := range alts(v) {
		iv, ok := a.v.(*IfaceV)
		if !ok {
			e.fail("type assertion on %s", dumpValue(a.v))
		}
		match := false
		if iv.t != nil {
			if isI {
				match = types.Implements(iv.t, it)
			} else {
				match = types.Identical(iv.t, x.AssertedType)
			}
		}
		if match {
			okT = mkOr(okT, a.g)
			if isI {
				as = append(as, Alt{a.g, iv})
			} else {
				as = append(as, Alt{a.g, iv.v})
			}
		} else if x.CommaOk {
			as = append(as, Alt{a.g, e.zero(x.AssertedType)})
		} else {
			st = e.panicIf(fr, st, a.g, fmt.Sprintf("interface conversion: not %v", x.AssertedType), x)
			if st == nil {
				return nil
			}
		}
	}
	if len(as) == 0 {
		return nil
	}
	r := combine(as)
	if x.CommaOk {
		st.regs[fr.fi.reg[x]] = TupleV{r, okT}
	} else {
		st.regs[fr.fi.reg[x]] = r
	}
	return st
}

func (e *Exec) next(fr *frame, st *State, x *ssa.Next) *State {
	it, ok := e.get(fr, st, x.Iter).(*IterV)
	if !ok {
		e.fail("next on %T", e.get(fr, st, x.Iter))
	}
	reg := fr.fi.reg[x]
	iterReg := fr.fi.reg[x.Iter]
	if !it.isStr {
		i := it.i
		for i < len(it.ents) {
			p := it.ents[i].present
			if p == TTrue || st.known(p) > 0 {
				break
			}
			if p == TFalse || st.known(p) < 0 {
				i++
				continue
			}
			r1, _ := e.feasible(st, p)
			if r1 == Unsat {
				i++
				continue
			}
			r2, _ := e.feasible(st, mkNot(p))
			if r2 == Unsat {
				break
			}
			e.fail("map range with undecided entry")
		}
		tt := x.Type().(*types.Tuple)
		if i >= len(it.ents) {
			var k, v Value = TFalse, TFalse
			if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				k = e.zero(tt.At(1).Type())
			}
			if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				v = e.zero(tt.At(2).Type())
			}
			st.regs[reg] = TupleV{TFalse, k, v}
			return st
		}
		st.regs[reg] = TupleV{TTrue, it.ents[i].key, it.ents[i].val}
		st.regs[iterReg] = &IterV{ents: it.ents, i: i + 1}
		return st
	}
	s, pos := it.str, it.pos
	more := mkULt(pos, s.len)
	if more == TFalse || s.maxLen() == 0 {
		st.regs[reg] = TupleV{TFalse, mkInt(0), mkConst(32, 0)}
		return st
	}
	b := s.at(pos)
	if b.hi < 0x80 {
		st.regs[reg] = TupleV{more, pos, mkZExt(b, 32)}
		st.regs[iterReg] = &IterV{isStr: true, str: s, pos: mkAdd(pos, mkIte(more, mkInt(1), mkInt(0)))}
		return st
	}
	// general: decode with the real utf8 decoder on the rest of the string
	f := e.lookupFunc("unicode/utf8", "DecodeRuneInString")
	if f == nil {
		e.fail("unicode/utf8 not loaded")
	}
	o := e.callFn(st, f, []Value{s.sub(pos, s.len)}, nil, x)
	fr.panics = append(fr.panics, o.panics...)
	if o.st == nil {
		return nil
	}
	st = o.st
	tv := o.val.(TupleV)
	st.regs[reg] = TupleV{more, pos, tv[0]}
	st.regs[iterReg] = &IterV{isStr: true, str: s, pos: mkAdd(pos, tv[1].(*Term))}
	return st
}

func (e *Exec) lookupFunc(pkg, name string) *ssa.Function {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// ---- calls ----

func (e *Exec) prepCall(fr *frame, st *State, c *ssa.CallCommon) (fv Value, args []Value) {
	fv = e.get(fr, st, c.Value)
	for _, a := range c.Args {
		args = append(args, e.get(fr, st, a))
	}
	return
}

func (e *Exec) deferInstr(fr *frame, st *State, x *ssa.Defer) *State {
	c := &x.Call
	fv, args := e.prepCall(fr, st, c)
	st.defers = &deferNode{next: st.defers, call: func(e *Exec, s *State) *Outcome {
		return e.invoke(s, c, fv, args, x)
	}}
	return st
}

func (e *Exec) doCall(fr *frame, st *State, x *ssa.Call) *State {
	c := &x.Call
	fv, args := e.prepCall(fr, st, c)
	reg := fr.fi.reg[x]
	o := e.invoke(st, c, fv, args, x)
	fr.panics = append(fr.panics, o.panics...)
	if o.st == nil {
		return nil
	}
	if o.val == nil {
		o.val = TupleV{}
	}
	o.st.regs[reg] = o.val
	return o.st
}

// invoke performs a call (static, closure, interface method or builtin).
func (e *Exec) invoke(st *State, c *ssa.CallCommon, fv Value, args []Value, site ssa.Instruction) *Outcome {
	if u, ok := fv.(*Union); ok {
		fv = e.prune(st, u)
	}
	if u, ok := fv.(*Union); ok {
		// one state per feasible alternative
		var outs []*Outcome
		out := &Outcome{}
		cur := st
		var as []Alt
		// group alternatives of the same callee with pointer receivers: keep simple, one by one
		as = append(as, u.alts...)
		sort.SliceStable(as, func(i, j int) bool { return false })
		for i, a := range as {
			if cur == nil {
				break
			}
			var yes *State
			if i == len(as)-1 {
				yes = cur
				cur = nil
			} else {
				yes, cur = e.split(cur, a.g)
			}
			if yes == nil {
				continue
			}
			o := e.invokeSafe(yes, c, a.v, args, site)
			if o != nil {
				outs = append(outs, o)
			}
		}
		var rets []*State
		for _, o := range outs {
			out.panics = append(out.panics, o.panics...)
			if o.st != nil {
				v := o.val
				if v == nil {
					v = TupleV{}
				}
				o.st.regs = append(o.st.regs, v)
				rets = append(rets, o.st)
			}
		}
		if len(rets) > 0 {
			m := e.mergeMany(rets, nil, nil)
			if len(m) != 1 {
				e.fail("call alternatives do not merge")
			}
			out.st = m[0]
			n := len(m[0].regs) - 1
			out.val = m[0].regs[n]
			m[0].regs = m[0].regs[:n]
		}
		return out
	}
	return e.invoke1(st, c, fv, args, site)
}

func (e *Exec) invokeSafe(st *State, c *ssa.CallCommon, fv Value, args []Value, site ssa.Instruction) (o *Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				e.noteUnsupported(st, u.why, "dynamic call")
				o = nil
				return
			}
			panic(r)
		}
	}()
	return e.invoke1(st, c, fv, args, site)
}

func (e *Exec) nilPanic(st *State, site ssa.Instruction, msg string) *Outcome {
	st.panicking = true
	st.recovered = TFalse
	st.panicVal = e.runtimeError(msg)
	st.panicPos = e.posStr(site)
	return &Outcome{panics: []*State{st}}
}

func (e *Exec) invoke1(st *State, c *ssa.CallCommon, fv Value, args []Value, site ssa.Instruction) *Outcome {
	if c.IsInvoke() {
		iv, ok := fv.(*IfaceV)
		if !ok {
			e.fail("invoke on %s", dumpValue(fv))
		}
		if iv.t == nil {
			return e.nilPanic(st, site, "invalid memory address or nil pointer dereference")
		}
		fn := e.method(iv.t, c.Method)
		if fn == nil {
			e.fail("no method %s on %v", c.Method.Name(), iv.t)
		}
		return e.callFn(st, fn, append([]Value{iv.v}, args...), nil, site)
	}
	f, ok := fv.(*FuncV)
	if !ok {
		e.fail("call of %s", dumpValue(fv))
	}
	switch {
	case f.bi != nil:
		return e.builtin(st, f.bi, c, args, site)
	case f.nat != nil:
		v, ok := f.nat(e, st, args)
		if !ok {
			return &Outcome{}
		}
		return &Outcome{st: st, val: v}
	case f.fn == nil:
		return e.nilPanic(st, site, "invalid memory address or nil pointer dereference")
	}
	return e.callFn(st, f.fn, args, f.free, site)
}

func (e *Exec) method(t types.Type, m *types.Func) *ssa.Function {
	key := t.String() + "#" + m.Id()
	if f, ok := e.methods[key]; ok {
		return f
	}
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.methods[key] = f
	return f
}

// callMethod calls a named method on an interface value (helper for intrinsics).
func (e *Exec) callMethod(st *State, iv *IfaceV, name string, args []Value) *Outcome {
	ms := e.prog.MethodSets.MethodSet(iv.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			fn := e.prog.MethodValue(ms.At(i))
			return e.callFn(st, fn, append([]Value{iv.v}, args...), nil, nil)
		}
	}
	return nil
}

func (e *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value, site ssa.Instruction) *Outcome {
	ret := func(v Value) *Outcome { return &Outcome{st: st, val: v} }
	switch b.Name() {
	case "len", "cap":
		return ret(e.mapVal(args[0], func(v Value) Value {
			switch s := v.(type) {
			case *Str:
				return s.len
			case *SliceV:
				if b.Name() == "cap" {
					return s.cap
				}
				return s.len
			case *MapRef:
				if s.obj == nil {
					return mkInt(0)
				}
				n := mkInt(0)
				for _, en := range e.objGet(st, s.obj).(*MapC).ents {
					n = mkAdd(n, mkIte(en.present, mkInt(1), mkInt(0)))
				}
				return n
			case *Arr:
				return mkInt(int64(s.n))
			case *PtrV:
				return mkInt(deref(c.Args[0].Type()).Underlying().(*types.Array).Len())
			}
			e.fail("len of %s", dumpValue(v))
			return nil
		}))
	case "append":
		return ret(e.appendOp(st, args[0], args[1], c.Args[0].Type()))
	case "copy":
		return ret(e.copyOp(st, args[0], args[1]))
	case "delete":
		mr, ok := args[0].(*MapRef)
		if !ok {
			e.fail("delete on %s", dumpValue(args[0]))
		}
		e.mapDelete(st, mr, args[1], c.Args[0].Type().Underlying().(*types.Map))
		return ret(TupleV{})
	case "clear":
		if mr, ok := args[0].(*MapRef); ok && mr.obj != nil {
			st.heap.m[mr.obj] = &MapC{}
			return ret(TupleV{})
		}
		e.fail("clear of %s", dumpValue(args[0]))
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok1 := r.(*Term)
			y, ok2 := a.(*Term)
			if !ok1 || !ok2 {
				e.fail("min/max of %T", r)
			}
			var lt *Term
			if isSigned(c.Args[0].Type()) {
				lt = mkSLt(x, y)
			} else {
				lt = mkULt(x, y)
			}
			if b.Name() == "min" {
				r = mkIte(lt, x, y)
			} else {
				r = mkIte(lt, y, x)
			}
		}
		return ret(r)
	case "print", "println":
		return ret(TupleV{})
	case "recover":
		if st.panicking && st.recovered != TTrue {
			v := st.panicVal
			st.recovered = TTrue
			return ret(v)
		}
		return ret(nilIface)
	case "ssa:wrapnilchk":
		for _, a := range alts(args[0]) {
			if p, ok := a.v.(*PtrV); ok && p.obj == nil {
				if a.g == TTrue {
					return e.nilPanic(st, site, "value method called using nil pointer")
				}
				e.fail("wrapnilchk on maybe-nil")
			}
		}
		return ret(args[0])
	case "ssa:deferstack":
		return ret(nilPtr)
	case "SliceData": // unsafe.SliceData
		return ret(e.mapVal(args[0], func(v Value) Value {
			s, ok := v.(*SliceV)
			if !ok {
				e.fail("SliceData of %s", dumpValue(v))
			}
			if s.base == nil {
				return nilPtr
			}
			return s.base.index(s.off)
		}))
	case "StringData":
		s := e.mkByteSlice(st, args[0].(*Str))
		return ret(s.base.index(mkInt(0)))
	case "String", "Slice": // unsafe.String(ptr, len)
		p, ok := args[0].(*PtrV)
		n, ok2 := args[1].(*Term)
		if !ok || !ok2 {
			e.fail("unsafe.String of %s", dumpValue(args[0]))
		}
		n = e.toInt64(n, c.Args[1].Type())
		if p.obj == nil {
			if b.Name() == "String" {
				return ret(concStr(""))
			}
			return ret(nilSlice)
		}
		k := len(p.path) - 1
		if k < 0 || p.path[k].idx == nil {
			e.fail("unsafe.String of non-element pointer")
		}
		sl := &SliceV{&PtrV{p.obj, p.path[:k]}, p.path[k].idx, n, n}
		if b.Name() == "String" {
			return ret(e.sliceBytes(st, sl))
		}
		return ret(sl)
	}
	e.fail("builtin %s", b.Name())
	return nil
}

// growCap mirrors runtime.growslice for concrete lengths.
func growCap(oldCap, newLen, elemSize int) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if elemSize == 0 {
		return newLen
	}
	// size classes
	mem := newcap * elemSize
	return roundSize(mem) / elemSize
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int) int {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}

var goSizes = types.SizesFor("gc", "amd64")

func (e *Exec) appendOp(st *State, dst, src Value, t types.Type) Value {
	el := t.Underlying().(*types.Slice).Elem()
	// source elements
	var srcLen *Term
	var srcGet func(i int) Value
	srcMax := 0
	switch s := src.(type) {
	case *Str:
		b := s.norm()
		srcLen, srcMax = s.len, len(b)
		srcGet = func(i int) Value { return b[i] }
	case *SliceV:
		srcLen = s.len
		if s.base != nil {
			a := e.sliceArr(st, s)
			srcMax = min(a.n, int(min(s.len.hi, 1<<30)))
			if s.off.Op == OConst {
				o := int(s.off.C)
				srcMax = min(srcMax, a.n-o)
				srcGet = func(i int) Value { return a.get(o + i) }
			} else {
				srcGet = func(i int) Value {
					return e.loadPath(a, []PE{{field: -1, idx: mkAdd(s.off, mkInt(int64(i)))}})
				}
			}
		}
	case *Union:
		// merge the alternatives into a fresh array
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return e.appendOp(st, dst, e.sliceBytes(st, s), t)
		}
		if pv := e.prune(st, s); pv != Value(s) {
			return e.appendOp(st, dst, pv, t)
		}
		return e.appendOp(st, dst, e.flattenSlice(st, s, el), t)
	default:
		e.fail("append of %s", dumpValue(src))
	}
	if srcMax == 0 || srcLen == mkInt(0) {
		return dst
	}
	du, isU := dst.(*Union)
	if isU {
		if pv := e.prune(st, du); pv != Value(du) {
			return e.appendOp(st, pv, src, t)
		}
		dst = e.flattenSlice(st, du, el)
	}
	d, ok := dst.(*SliceV)
	if !ok {
		e.fail("append to %s", dumpValue(dst))
	}
	newLen := mkAdd(d.len, srcLen)
	fits := mkNot(mkSLt(d.cap, newLen))
	if d.base == nil {
		fits = mkEq(srcLen, mkInt(0))
	} else if fits != TTrue && fits != TFalse {
		if st.known(fits) > 0 {
			fits = TTrue
		} else if st.known(fits) < 0 {
			fits = TFalse
		} else if r, _ := e.feasible(st, mkNot(fits)); r == Unsat {
			fits = TTrue
		} else if r, _ := e.feasible(st, fits); r == Unsat {
			fits = TFalse
		}
	}
	conc := d.len.Op == OConst && srcLen.Op == OConst && d.cap.Op == OConst
	if fits == TTrue {
		// in place
		e.writeElems(st, d.base, mkAdd(d.off, d.len), srcGet, srcMax, srcLen, TTrue)
		return &SliceV{d.base, d.off, newLen, d.cap}
	}
	// reallocate
	oldMax := 0
	if d.base != nil {
		a := e.sliceArr(st, d)
		oldMax = min(a.n, int(min(d.len.hi, 1<<30)))
	}
	var ncap int
	if conc {
		ncap = growCap(int(d.cap.C), int(newLen.C), int(goSizes.Sizeof(el)))
	} else {
		ncap = growCap(oldMax, oldMax+srcMax, int(goSizes.Sizeof(el)))
		if ncap < oldMax+srcMax {
			ncap = oldMax + srcMax
		}
		if ncap < 64 && fits != TFalse {
			ncap = 64
		}
	}
	if ncap > 1<<21 {
		e.fail("append grows to %d", ncap)
	}
	nb := e.newArray(st, el, ncap)
	if d.base != nil && oldMax > 0 {
		a := e.sliceArr(st, d)
		na := st.heap.m[nb.obj].(*Arr)
		if d.off.Op == OConst {
			for i := 0; i < oldMax; i++ {
				na = na.set(i, a.get(int(d.off.C)+i), st.tok)
			}
		} else {
			for i := 0; i < oldMax; i++ {
				na = na.set(i, e.loadPath(a, []PE{{field: -1, idx: mkAdd(d.off, mkInt(int64(i)))}}), st.tok)
			}
		}
		st.heap.m[nb.obj] = na
	}
	if fits == TFalse || d.base == nil {
		e.writeElems(st, nb, d.len, srcGet, srcMax, srcLen, TTrue)
		r := &SliceV{nb, mkInt(0), newLen, mkInt(int64(ncap))}
		if fits == TFalse {
			return r
		}
		return mergeValue(mkEq(srcLen, mkInt(0)), d, r)
	}
	// undecided: write to the old array when it fits, else use the new one
	e.writeElems(st, d.base, mkAdd(d.off, d.len), srcGet, srcMax, srcLen, fits)
	e.writeElems(st, nb, d.len, srcGet, srcMax, srcLen, TTrue)
	return mergeValue(fits, &SliceV{d.base, d.off, newLen, d.cap}, &SliceV{nb, mkInt(0), newLen, mkInt(int64(ncap))})
}

// flattenSlice copies a union of slices into one fresh slice (aliasing with the originals is lost).
func (e *Exec) flattenSlice(st *State, u *Union, el types.Type) Value {
	mx := 0
	type part struct {
		g *Term
		s *SliceV
		a *Arr
	}
	var ps []part
	ln := mkInt(0)
	for i := len(u.alts) - 1; i >= 0; i-- {
		s, ok := u.alts[i].v.(*SliceV)
		if !ok {
			e.fail("append to union with %s", dumpValue(u.alts[i].v))
		}
		if i == len(u.alts)-1 {
			ln = s.len
		} else {
			ln = mkIte(u.alts[i].g, s.len, ln)
		}
		if s.base == nil {
			continue
		}
		a := e.sliceArr(st, s)
		mx = max(mx, min(a.n, int(min(s.len.hi, 1<<30))))
		ps = append(ps, part{u.alts[i].g, s, a})
	}
	vals := make([]Value, mx)
	for i := range vals {
		var v Value = e.zero(el)
		for _, p := range ps {
			idx := mkAdd(p.s.off, mkInt(int64(i)))
			if idx.lo >= uint64(p.a.n) || i >= p.a.n {
				continue
			}
			if s := p.s.len; s.hi <= uint64(i) {
				continue
			}
			v = mergeValue(p.g, e.loadPath(p.a, []PE{{field: -1, idx: idx}}), v)
		}
		vals[i] = v
	}
	o := e.newObj(st, types.NewArray(el, int64(mx)), "flat", arrFrom(vals))
	return &SliceV{&PtrV{obj: o}, mkInt(0), ln, mkInt(int64(mx))}
}

// writeElems stores src[0:n) at base[at:], n <= srcMax, under guard g.
func (e *Exec) writeElems(st *State, base *PtrV, at *Term, srcGet func(int) Value, srcMax int, n, g *Term) {
	if srcMax == 0 {
		return
	}
	// fetch all first (aliasing)
	vals := make([]Value, srcMax)
	for i := range vals {
		vals[i] = srcGet(i)
	}
	v := e.loadPath(e.objGet(st, base.obj), base.path)
	a, ok := v.(*Arr)
	if !ok {
		e.fail("writeElems into %T", v)
	}
	if at.Op == OConst && g == TTrue && n.Op == OConst {
		nn := min(int(n.C), srcMax)
		if nn == 0 {
			return
		}
		na := &Arr{own: st.tok, n: a.n, ch: append([]*chunk(nil), a.ch...)}
		for i, c := range na.ch {
			if c.own == st.tok {
				na.ch[i] = &chunk{e: c.e}
			}
		}
		for i := 0; i < nn; i++ {
			na = na.set(int(at.C)+i, vals[i], st.tok)
		}
		e.storeAgg(st, base, na)
		return
	}
	if at.Op == OConst {
		na := a
		for i := 0; i < srcMax; i++ {
			k := int(at.C) + i
			if k >= a.n {
				break
			}
			gi := mkAnd(g, mkULt(mkInt(int64(i)), n))
			if gi == TFalse {
				continue
			}
			na = na.set(k, mergeValue(gi, vals[i], na.get(k)), nil)
		}
		e.storeAgg(st, base, na)
		return
	}
	// symbolic position: rebuild each cell as a selection over the source
	na := a
	lo := int(at.lo)
	hi := a.n - 1
	if at.hi < uint64(a.n) {
		hi = min(hi, int(at.hi)+srcMax-1)
	}
	if hi-lo > 1<<14 {
		e.fail("symbolic-position write over %d cells", hi-lo)
	}
	for k := lo; k <= hi; k++ {
		// cell k gets vals[k-at] when at <= k < at+n
		// case analysis on at
		p0, p1 := max(int(at.lo), k-srcMax+1), k
		if at.hi < uint64(p1) {
			p1 = int(at.hi)
		}
		if p0 > p1 {
			continue
		}
		old := na.get(k)
		nv := old
		if at.Op == OIte && constLeaves(at, 60) || p1-p0 <= 2 || trailZeros(at) > 2 || true {
			for p := p0; p <= p1; p++ {
				gi := mkAnd(g, mkEq(at, mkInt(int64(p))), mkULt(mkInt(int64(k-p)), n))
				if gi == TFalse {
					continue
				}
				nv = mergeValue(gi, vals[k-p], nv)
			}
		}
		if !ifaceEq(nv, old) {
			na = na.set(k, nv, nil)
		}
	}
	e.storeAgg(st, base, na)
}

func (e *Exec) storeAgg(st *State, p *PtrV, a *Arr) {
	if len(p.path) == 0 {
		st.heap.m[p.obj] = a
		return
	}
	disown(a)
	e.storePtr(st, p, a, TTrue)
}

func (e *Exec) copyOp(st *State, dst, src Value) Value {
	if u, ok := dst.(*Union); ok {
		dst = e.prune(st, u)
	}
	if u, ok := dst.(*Union); ok {
		var as []Alt
		for _, a := range u.alts {
			d, ok := a.v.(*SliceV)
			if !ok {
				e.fail("copy to %s", dumpValue(a.v))
			}
			as = append(as, Alt{a.g, e.copyTo(st, d, src, a.g)})
		}
		return combine(as)
	}
	d, ok := dst.(*SliceV)
	if !ok {
		e.fail("copy to %s", dumpValue(dst))
	}
	return e.copyTo(st, d, src, TTrue)
}

func (e *Exec) copyTo(st *State, d *SliceV, src Value, g *Term) Value {
	var srcLen *Term
	var srcGet func(i int) Value
	srcMax := 0
	if u, ok := src.(*Union); ok {
		src = e.prune(st, u)
	}
	if _, ok := src.(*Union); ok {
		src = e.sliceBytes(st, src)
	}
	switch s := src.(type) {
	case *Str:
		b := s.norm()
		srcLen, srcMax = s.len, len(b)
		srcGet = func(i int) Value { return b[i] }
	case *SliceV:
		srcLen = s.len
		if s.base != nil {
			a := e.sliceArr(st, s)
			srcMax = min(a.n, int(min(s.len.hi, 1<<30)))
			if s.off.Op == OConst {
				o := int(s.off.C)
				srcMax = min(srcMax, a.n-o)
				srcGet = func(i int) Value { return a.get(o + i) }
			} else {
				if d.len.hi < uint64(srcMax) {
					srcMax = int(d.len.hi)
				}
				srcGet = func(i int) Value {
					return e.loadPath(a, []PE{{field: -1, idx: mkAdd(s.off, mkInt(int64(i)))}})
				}
			}
		}
	default:
		e.fail("copy from %s", dumpValue(src))
	}
	n := mkIte(mkSLt(srcLen, d.len), srcLen, d.len)
	if d.base == nil || srcMax == 0 {
		return n
	}
	if d.len.hi < uint64(srcMax) {
		srcMax = int(d.len.hi)
	}
	e.writeElems(st, d.base, d.off, srcGet, srcMax, n, g)
	return n
}

// ---- globals and package initialisation ----

func (e *Exec) globalObj(g *ssa.Global) *Obj {
	if o, ok := e.globals[g]; ok {
		e.ensureInit(g.Pkg)
		return o
	}
	e.nextObj++
	t := deref(g.Type())
	o := &Obj{id: e.nextObj, typ: t, name: g.Name()}
	e.globals[g] = o
	e.root.m[o] = e.zero(t)
	e.ensureInit(g.Pkg)
	return o
}

func (e *Exec) buildPkg(p *ssa.Package) {
	if !e.built[p] {
		e.built[p] = true
		p.Build()
	}
}

func (e *Exec) ensureInit(p *ssa.Package) {
	if e.inited[p] != 0 {
		return
	}
	e.inited[p] = 1
	e.buildPkg(p)
	initFn := p.Func("init")
	if initFn == nil || initFn.Blocks == nil {
		return
	}
	if skipInit[p.Pkg.Path()] {
		if p.Pkg.Path() == "os" {
			if fs := e.prog.ImportedPackage("io/fs"); fs != nil {
				for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
					a, b := p.Var(n), fs.Var(n)
					if a != nil && b != nil {
						e.root.m[e.globalObj(a)] = e.root.m[e.globalObj(b)]
					}
				}
			}
		}
		return
	}
	e.initMode++
	t0 := time.Now()
	defer func() {
		e.initMode--
		if d := time.Since(t0); d > time.Second {
			debugf("init %s took %v", p.Pkg.Path(), d)
		}
	}()
	st := &State{heap: &Heap{parent: e.root, m: map[*Obj]Value{}, depth: 1}, tok: new(tok), model: newModel()}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortErr); ok {
					panic(r)
				}
				debugf("init %s failed: %v", p.Pkg.Path(), r)
			}
		}()
		o := e.callFn(st, initFn, nil, nil, nil)
		if o.st == nil {
			debugf("init %s did not return", p.Pkg.Path())
			return
		}
		// flush into the root
		var ls []*Heap
		for l := o.st.heap; l != e.root; l = l.parent {
			ls = append(ls, l)
		}
		for i := len(ls) - 1; i >= 0; i-- {
			for k, v := range ls[i].m {
				disown(v)
				e.root.m[k] = v
			}
		}
	}()
	e.inited[p] = 2
}

var skipInit = map[string]bool{"runtime": true, "internal/cpu": true, "os": true, "syscall": true, "reflect": true, "internal/godebug": true, "internal/poll": true, "net/http": true, "log": false, "crypto/tls": true, "net": true, "golang.org/x/sys/unix": true, "internal/reflectlite": true, "internal/testlog": true}

var _ = math.MaxInt64
