package main

import (
	"fmt"
	"go/types"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

type PC struct {
	parent *PC
	lit    *Term
	depth  int
}

type deferNode struct {
	call func(e *Exec, st *State) *Outcome
	next *deferNode
}

type State struct {
	pc        *PC
	heap      *Heap
	tok       *tok
	regs      []Value
	model     *Model
	block     *ssa.BasicBlock
	iters     []int32
	defers    *deferNode
	panicking bool
	panicVal  Value
	panicPos  string
	recovered *Term
	exitCode  *Term
}

type Outcome struct {
	st     *State
	val    Value
	panics []*State
}

func (st *State) lits() []*Term {
	var out []*Term
	for p := st.pc; p != nil; p = p.parent {
		out = append(out, p.lit)
	}
	return out
}

func (st *State) has(l *Term) bool {
	for p := st.pc; p != nil; p = p.parent {
		if p.lit == l {
			return true
		}
	}
	return false
}

// known returns +1 if l is a path literal, -1 if its negation is, 0 otherwise.
func (st *State) known(l *Term) int {
	if l == TTrue {
		return 1
	}
	if l == TFalse {
		return -1
	}
	if r := st.known1(l); r != 0 {
		return r
	}
	return st.knownDeep(l, 3)
}

func (st *State) known1(l *Term) int {
	n := mkNot(l)
	for p := st.pc; p != nil; p = p.parent {
		if p.lit == l {
			return 1
		}
		if p.lit == n {
			return -1
		}
	}
	return 0
}

func (st *State) knownDeep(l *Term, d int) int {
	if l == TTrue {
		return 1
	}
	if l == TFalse {
		return -1
	}
	switch l.Op {
	case ONot:
		return -st.knownDeep(l.Args[0], d)
	case OAnd, OOr:
		if d == 0 || len(l.Args) > 300 {
			return st.known1(l)
		}
		win, all := -1, 1
		if l.Op == OOr {
			win, all = 1, -1
		}
		unk := false
		for _, a := range l.Args {
			switch st.knownDeep(a, d-1) {
			case win:
				return win
			case 0:
				unk = true
			}
		}
		if unk {
			return 0
		}
		return all
	}
	return st.known1(l)
}

func (st *State) add(l *Term) {
	if l == TTrue {
		return
	}
	if l.Op == OAnd {
		for _, a := range l.Args {
			st.add(a)
		}
		return
	}
	if l.Op == ONot && l.Args[0].Op == OOr {
		for _, a := range l.Args[0].Args {
			st.add(mkNot(a))
		}
		return
	}
	if st.has(l) {
		return
	}
	d := 1
	if st.pc != nil {
		d = st.pc.depth + 1
	}
	st.pc = &PC{st.pc, l, d}
}

func (st *State) fork() *State {
	n := *st
	base := st.heap
	st.heap = base.child()
	n.heap = base.child()
	st.tok, n.tok = new(tok), new(tok)
	n.regs = append([]Value(nil), st.regs...)
	return &n
}

func pcAnc(a, b *PC) *PC {
	for a != b {
		da, db := 0, 0
		if a != nil {
			da = a.depth
		}
		if b != nil {
			db = b.depth
		}
		if da >= db {
			a = a.parent
		} else {
			b = b.parent
		}
	}
	return a
}

func pcDepth(p *PC) int {
	if p == nil {
		return 0
	}
	return p.depth
}

func pcSuffix(p, anc *PC) []*Term {
	var out []*Term
	for ; p != anc; p = p.parent {
		out = append(out, p.lit)
	}
	// reverse: oldest first
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// mergeGuard computes the condition selecting a over b, and the merged path condition.
func mergeGuard(a, b *State) (*Term, *PC) {
	anc := pcAnc(a.pc, b.pc)
	sa, sb := pcSuffix(a.pc, anc), pcSuffix(b.pc, anc)
	ga, gb := mkAnd(sa...), mkAnd(sb...)
	guard := ga
	if len(sa) > 0 && len(sb) > 0 {
		found := false
		for _, x := range sa {
			nx := mkNot(x)
			for _, y := range sb {
				if nx == y {
					guard = x
					found = true
					break
				}
			}
			if found {
				break
			}
		}
		if !found {
			// a literal of one side refuted structurally by the other
			guard = ga
		}
	}
	or := mkOr(ga, gb)
	tmp := &State{pc: anc}
	tmp.add(or)
	return guard, tmp.pc
}

func (e *Exec) mergeStates(a, b *State, fi *fnInfo, live []uint64) *State {
	c, pc := mergeGuard(a, b)
	n := &State{pc: pc, block: a.block, iters: a.iters, defers: a.defers, panicking: a.panicking, tok: new(tok)}
	n.heap = mergeHeaps(c, a.heap, b.heap).child()
	n.model = a.model
	if n.model == nil {
		n.model = b.model
	}
	if a.regs != nil {
		n.regs = make([]Value, len(a.regs))
		for i := range n.regs {
			if live != nil && live[i/64]>>(uint(i)%64)&1 == 0 {
				continue
			}
			if a.regs[i] == nil {
				n.regs[i] = b.regs[i]
				continue
			}
			if b.regs[i] == nil || ifaceEq(a.regs[i], b.regs[i]) {
				n.regs[i] = a.regs[i]
				continue
			}
			n.regs[i] = mergeValue(c, a.regs[i], b.regs[i])
		}
	}
	if a.panicking {
		n.panicVal = mergeValue(c, a.panicVal, b.panicVal)
		n.panicPos = a.panicPos
		n.recovered = mkIte(c, a.recovered, b.recovered)
	}
	e.stats.Merges++
	return n
}

// mergeMany merges a list of states (deepest common ancestor first). key equality is the caller's job.
func (e *Exec) mergeMany(ss []*State, fi *fnInfo, live []uint64) []*State {
	var out []*State
	for len(ss) > 0 {
		group := []*State{ss[0]}
		var rest []*State
		for _, s := range ss[1:] {
			if s.defers == ss[0].defers && s.panicking == ss[0].panicking {
				group = append(group, s)
			} else {
				rest = append(rest, s)
			}
		}
		ss = rest
		for len(group) > 1 {
			bi, bj, bd := 0, 1, -1
			if len(group) <= 10 {
				for i := range group {
					for j := i + 1; j < len(group); j++ {
						if d := pcDepth(pcAnc(group[i].pc, group[j].pc)); d > bd {
							bi, bj, bd = i, j, d
						}
					}
				}
			} else {
				for i := 0; i+1 < len(group); i++ {
					if d := pcDepth(pcAnc(group[i].pc, group[i+1].pc)); d >= bd {
						bi, bj, bd = i, i+1, d
					}
				}
			}
			m := e.mergeStates(group[bi], group[bj], fi, live)
			group[bi] = m
			group = append(group[:bj], group[bj+1:]...)
		}
		out = append(out, group[0])
	}
	return out
}

// ---- executor ----

type Stats struct {
	Blocks, Instrs, Forks, Merges, Calls int
	Funcs                                map[string]bool
}

type Exec struct {
	sweeper   *sweep
	feasSize  int     // conditions larger than this are not asked about (0: all are)
	addrs     []*PtrV // pointers that were given a number
	prog      *ssa.Program
	fns       map[*ssa.Function]*fnInfo
	zeroCache map[types.Type]Value
	root      *Heap
	globals   map[*ssa.Global]*Obj
	inited    map[*ssa.Package]int
	built     map[*ssa.Package]bool
	nextObj   int
	solver    *Solver
	stats     Stats
	loopLimit int
	maxIter   int
	deadline  time.Time
	curTime   time.Duration
	initMode  int
	modPath   string
	harness   *HarnessRun
	exits     []*State
	methods   map[string]*ssa.Function
	depth     int
	typeIntr  map[string]types.Type
	feasTO    int
	shadows   map[string]*Obj
	posStack  []string
	varPrefix string
	curIn     ssa.Instruction
}

type unsup struct{ why string }

func (e *Exec) fail(format string, a ...interface{}) {
	panic(unsup{fmt.Sprintf(format, a...)})
}

type abortErr struct {
	why   string
	split *CaseDim
}

// feasible: can pc ∧ lit hold?
func (e *Exec) feasible(st *State, lit *Term) (Res, *Model) {
	if lit == TTrue {
		return Sat, st.model
	}
	if lit == TFalse {
		return Unsat, nil
	}
	switch st.known(lit) {
	case 1:
		return Sat, st.model
	case -1:
		return Unsat, nil
	}
	if lit.Op == OAnd {
		for _, a := range lit.Args {
			if st.known(a) < 0 {
				return Unsat, nil
			}
		}
	}
	if st.model != nil && st.model.eval(lit) != 0 {
		return Sat, st.model
	}
	if e.feasSize > 0 && int(lit.size) > e.feasSize {
		return Unknown, nil // taken to be possible
	}
	r, m := e.query(st, lit, e.feasTO)
	if r == Sat && st.model != nil {
		m = e.combineModel(st.model, m)
	}
	return r, m
}

func (e *Exec) combineModel(base, m *Model) *Model {
	n := newModel()
	for k, v := range base.vals {
		n.vals[k] = v
	}
	for k, v := range base.apps {
		n.apps[k] = v
	}
	for k, v := range m.vals {
		n.vals[k] = v
	}
	for k, v := range m.apps {
		n.apps[k] = v
	}
	return n
}

func (e *Exec) query(st *State, lit *Term, to int) (Res, *Model) {
	lits := sliceLits([]*Term{lit}, st.lits())
	lits = append(lits, lit)
	key := cacheKey(lits)
	if r, ok := e.solver.cache[key]; ok && r == Unsat {
		e.solver.stats.Cached++
		return Unsat, nil
	}
	t0 := time.Now()
	r, m := e.solver.check(lits, to)
	if d := time.Since(t0); d > time.Second && verbose > 0 && e.curIn != nil {
		fmt.Fprintf(os.Stderr, "[query %.1fs %v at %s in %s]\n", d.Seconds(), r, e.posStr(e.curIn), e.curIn.Parent())
	}
	if r == Unsat {
		e.solver.cache[key] = r
	}
	if r == Sat && st.model == nil {
		// model of the slice only; make it a full model if the rest is satisfiable
		all := append(st.lits(), lit)
		for _, l := range all {
			if m.eval(l) == 0 {
				r2, m2 := e.solver.check(all, to)
				if r2 == Sat {
					return Sat, m2
				}
				return r2, nil
			}
		}
	}
	return r, m
}

// split returns the states where c holds / does not hold (nil when infeasible). st is consumed.
func (e *Exec) split(st *State, c *Term) (*State, *State) {
	if c == TTrue {
		return st, nil
	}
	if c == TFalse {
		return nil, st
	}
	switch st.known(c) {
	case 1:
		return st, nil
	case -1:
		return nil, st
	}
	n := mkNot(c)
	rt, mt := e.feasible(st, c)
	if rt == Unsat {
		return nil, st
	}
	rf, mf := e.feasible(st, n)
	if rf == Unsat {
		return st, nil
	}
	e.stats.Forks++
	o := st.fork()
	st.add(c)
	st.model = mt
	o.add(n)
	o.model = mf
	return st, o
}

// constrain adds c to the path; returns nil when that is infeasible.
func (e *Exec) constrain(st *State, c *Term) *State {
	if c == TTrue {
		return st
	}
	r, m := e.feasible(st, c)
	if r == Unsat {
		return nil
	}
	st.add(c)
	st.model = m
	return st
}

func (e *Exec) newObj(st *State, typ types.Type, name string, content Value) *Obj {
	e.nextObj++
	o := &Obj{id: e.nextObj, typ: typ, name: name}
	st.heap.m[o] = content
	return o
}

func (e *Exec) newArray(st *State, elem types.Type, n int) *PtrV {
	o := e.newObj(st, types.NewArray(elem, int64(n)), "array", newArr(n, e.zero(elem)))
	return &PtrV{obj: o}
}

func debugf(format string, a ...interface{}) {
	if verbose > 1 {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

// ---- memory access ----

func (e *Exec) loadPath(v Value, path []PE) Value {
	for k, p := range path {
		switch x := v.(type) {
		case *StructV:
			if p.idx != nil {
				e.fail("index into struct")
			}
			v = x.f[p.field]
		case *Arr:
			if p.idx == nil {
				e.fail("field of array")
			}
			if p.idx.Op == OConst {
				// the bounds check came before: an index outside belongs to an alternative that cannot be
				if p.idx.C >= uint64(x.n) {
					if x.n == 0 {
						return &Poison{why: "element of an empty array"}
					}
					v = x.get(x.n - 1)
					continue
				}
				v = x.get(int(p.idx.C))
				continue
			}
			lo, hi := p.idx.lo, p.idx.hi
			if hi >= uint64(x.n) {
				hi = uint64(x.n) - 1
			}
			if x.n == 0 {
				return &Poison{why: "element of an empty array"}
			}
			if lo > hi {
				lo = hi
			}
			rest := path[k+1:]
			return e.selValue(p.idx, x, int(lo), int(hi), rest)
		case *Union:
			var as []Alt
			for _, a := range x.alts {
				as = append(as, Alt{a.g, e.loadPath(a.v, path[k:])})
			}
			return combine(as)
		case *SliceV:
			if p.idx != nil {
				e.fail("index into slice header")
			}
			v = e.headerField(x, p.field)
		case *Poison:
			e.fail("load through poison: %s", x.why)
		default:
			e.fail("loadPath through %T", v)
		}
	}
	return v
}

func (e *Exec) selValue(idx *Term, x *Arr, lo, hi int, rest []PE) Value {
	if idx.Op == OConst {
		i := int(idx.C)
		if i >= x.n {
			i = x.n - 1
		}
		return e.loadPath(x.get(i), rest)
	}
	if idx.Op == OIte && constLeaves(idx, 100) {
		return mergeValue(idx.Args[0], e.selValue(idx.Args[1], x, lo, hi, rest), e.selValue(idx.Args[2], x, lo, hi, rest))
	}
	if lo == hi {
		return e.loadPath(x.get(lo), rest)
	}
	// whole equal chunks collapse quickly
	if lo/chunkN != hi/chunkN {
		same := true
		c0 := x.ch[lo/chunkN]
		for i := lo/chunkN + 1; i <= hi/chunkN; i++ {
			if x.ch[i] != c0 {
				same = false
				break
			}
		}
		if same && uniform(c0) {
			return e.loadPath(x.get(lo), rest)
		}
	}
	mid := splitPoint(lo, hi)
	return mergeValue(splitCond(idx, mid), e.selValue(idx, x, lo, mid-1, rest), e.selValue(idx, x, mid, hi, rest))
}

func uniform(c *chunk) bool {
	for _, v := range c.e[1:] {
		if !ifaceEq(v, c.e[0]) {
			return false
		}
	}
	return true
}

func (e *Exec) storePath(st *State, v Value, path []PE, val Value, g *Term, owned bool) Value {
	if len(path) == 0 {
		if g == TTrue {
			return val
		}
		return mergeValue(g, val, v)
	}
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		nv := e.storePath(st, x.f[p.field], path[1:], val, g, owned && x.own == st.tok)
		if owned && x.own == st.tok {
			x.f[p.field] = nv
			return x
		}
		n := &StructV{own: st.tok, f: append([]Value(nil), x.f...)}
		n.f[p.field] = nv
		return n
	case *Arr:
		own := owned && x.own == st.tok
		if !own {
			x = &Arr{own: st.tok, n: x.n, ch: append([]*chunk(nil), x.ch...)}
			for i, c := range x.ch { // children must not look owned
				if c.own == st.tok {
					x.ch[i] = &chunk{e: c.e}
				}
			}
		}
		if p.idx.Op == OConst {
			i := int(p.idx.C)
			if p.idx.C >= uint64(x.n) {
				return x
			}
			chOwned := own && x.ch[i/chunkN].own == st.tok
			nv := e.storePath(st, x.get(i), path[1:], val, g, chOwned)
			return x.set(i, nv, st.tok)
		}
		lo, hi := p.idx.lo, p.idx.hi
		if hi >= uint64(x.n) {
			hi = uint64(x.n) - 1
		}
		if lo > hi {
			return x
		}
		if hi-lo > 1<<16 {
			e.fail("symbolic store over %d elements", hi-lo)
		}
		for i := int(lo); i <= int(hi); i++ {
			gi := mkAnd(g, mkEq(p.idx, mkConst(p.idx.W, uint64(i))))
			if gi == TFalse {
				continue
			}
			chOwned := own && x.ch[i/chunkN].own == st.tok
			nv := e.storePath(st, x.get(i), path[1:], val, gi, chOwned)
			x = x.set(i, nv, st.tok)
		}
		return x
	case *Union:
		n := &Union{}
		for _, a := range x.alts {
			n.alts = append(n.alts, Alt{a.g, e.storePath(st, a.v, path, val, g, false)})
		}
		return n
	case *SliceV:
		if p.idx != nil || len(path) != 1 || g != TTrue {
			e.fail("store into slice header")
		}
		return e.setHeaderField(x, p.field, val)
	case *Poison:
		e.fail("store through poison: %s", x.why)
	}
	e.fail("storePath through %T", v)
	return nil
}

func (e *Exec) objGet(st *State, o *Obj) Value {
	v, ok := st.heap.get(o)
	if !ok {
		e.fail("object %s#%d has no content", o.name, o.id)
	}
	return v
}

// loadPtr loads through a non-nil simple pointer.
func (e *Exec) loadPtr(st *State, p *PtrV) Value {
	v := e.loadPath(e.objGet(st, p.obj), p.path)
	switch v.(type) {
	case *StructV, *Arr:
		disown(v)
	}
	return v
}

func (e *Exec) storePtr(st *State, p *PtrV, val Value, g *Term) {
	v := e.objGet(st, p.obj)
	_, local := st.heap.m[p.obj]
	st.heap.m[p.obj] = e.storePath(st, v, p.path, val, g, local)
}

func (p *PtrV) field(i int) *PtrV {
	np := make([]PE, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = PE{field: i}
	return &PtrV{p.obj, np}
}
func (p *PtrV) index(i *Term) *PtrV {
	np := make([]PE, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = PE{field: -1, idx: i}
	return &PtrV{p.obj, np}
}

// sliceArr returns the backing array value of a simple non-nil slice.
func (e *Exec) sliceArr(st *State, s *SliceV) *Arr {
	v := e.loadPath(e.objGet(st, s.base.obj), s.base.path)
	a, ok := v.(*Arr)
	if !ok {
		e.fail("slice backing is %T", v)
	}
	return a
}

// sliceBytes returns the bytes of a []byte value as a Str snapshot.
func (e *Exec) sliceBytes(st *State, v Value) *Str {
	switch s := v.(type) {
	case *SliceV:
		if s.base == nil {
			return concStr("")
		}
		a := e.sliceArr(st, s)
		lo := int(s.off.lo)
		hi := a.n
		if s.off.hi < uint64(a.n) && s.len.hi < uint64(a.n) {
			if h := int(s.off.hi + s.len.hi); h < hi {
				hi = h
			}
			if end := mkAdd(s.off, s.len); end.hi < uint64(hi) {
				hi = int(end.hi)
			}
		}
		if lo > hi {
			lo = hi
		}
		ts := make([]*Term, hi-lo)
		for i := range ts {
			t, ok := a.get(lo + i).(*Term)
			if !ok {
				e.fail("non-scalar byte element %T", a.get(lo+i))
			}
			ts[i] = t
		}
		return &Str{arr: ts, off: mkSub(s.off, mkInt(int64(lo))), len: s.len}
	case *Str:
		return s
	case *Union:
		var r *Str
		for i := len(s.alts) - 1; i >= 0; i-- {
			x := e.sliceBytes(st, s.alts[i].v)
			if r == nil {
				r = x
			} else {
				r = mergeStr(s.alts[i].g, x, r)
			}
		}
		return r
	case *Poison:
		e.fail("bytes of poison: %s", s.why)
	}
	e.fail("bytes of %T", v)
	return nil
}

// mkByteSlice allocates a []byte with the content of s.
func (e *Exec) mkByteSlice(st *State, s *Str) *SliceV {
	b := s.norm()
	o := e.newObj(st, types.NewArray(types.Typ[types.Uint8], int64(len(b))), "bytes", arrFromTerms(b))
	return &SliceV{base: &PtrV{obj: o}, off: mkInt(0), len: s.len, cap: mkInt(int64(len(b)))}
}
