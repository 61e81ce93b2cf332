package main

// Equivalence by canonical forms, for conditions over terms too large for the solver as a whole (the rounds of a
// cipher). Terms are translated to AND and XOR gates. Every gate carries a canonical form: an exclusive-or of
// atoms, where an atom is an input or a truth table over at most maxArgs such forms. Exclusive-ors are compared
// as sets; every truth table that is used as an atom is proved by the solver to be what the gates below it
// compute, for every value of its arguments. A condition whose form is a constant is decided that way;
// otherwise values that contradict it are looked for.

import (
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
)

const maxArgs = 8

type lit uint32 // form<<1 | negated, or gate<<1 | negated

const lfalse, ltrue = lit(0), lit(1)

type table [4]uint64 // of 2^8 entries, those beyond 2^n repeated

type atom struct {
	args []uint32 // forms, ascending; none for an input
	tt   table
}

// prod is the form of a conjunction of two forms.
type prod struct {
	expA, expB bool // whether the operand was replaced by its truth table
	args       []uint32
	tt         table
	out        lit
}

type gate struct {
	kind   byte // 0 input, 1 and, 2 xor, 3 sealed
	needed bool
	a, b   lit // gates
	canon  lit // form
	p      *prod
}

type sweep struct {
	e      *Exec
	gates  []gate
	hash   map[[3]uint32]lit
	forms  [][]uint32 // atoms, ascending
	formOf map[string]uint32
	atoms  []atom
	atomOf map[string]uint32
	prods  map[[3]lit]*prod
	bits   map[int32][]lit // term -> gates of the bits, least significant first
	vars   map[string][]uint32
	names  []*Term
	inputs int // bits of all inputs
	rnd    *rand.Rand
	lemmas map[string]bool
	asked  int
	used   int
	bad    int
	time   time.Duration
}

func newSweep(e *Exec) *sweep {
	s := &sweep{e: e, hash: map[[3]uint32]lit{}, formOf: map[string]uint32{}, atomOf: map[string]uint32{}, prods: map[[3]lit]*prod{}, bits: map[int32][]lit{}, vars: map[string][]uint32{}, lemmas: map[string]bool{}, rnd: rand.New(rand.NewSource(1))}
	s.form(nil)
	s.gates = append(s.gates, gate{}) // false
	return s
}

func packed(x []uint32) string {
	b := make([]byte, 4*len(x))
	for i, v := range x {
		b[4*i], b[4*i+1], b[4*i+2], b[4*i+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
	}
	return string(b)
}

func (s *sweep) form(atoms []uint32) uint32 {
	k := packed(atoms)
	if f, ok := s.formOf[k]; ok {
		return f
	}
	f := uint32(len(s.forms))
	s.forms = append(s.forms, atoms)
	s.formOf[k] = f
	return f
}

func (s *sweep) canon(l lit) lit { return s.gates[l>>1].canon ^ l&1 }

func (s *sweep) sum(a, b lit) lit {
	x, y := s.forms[a>>1], s.forms[b>>1]
	out := make([]uint32, 0, len(x)+len(y))
	for len(x) > 0 && len(y) > 0 {
		switch {
		case x[0] < y[0]:
			out = append(out, x[0])
			x = x[1:]
		case x[0] > y[0]:
			out = append(out, y[0])
			y = y[1:]
		default:
			x, y = x[1:], y[1:]
		}
	}
	out = append(append(out, x...), y...)
	return lit(s.form(out))<<1 | (a^b)&1
}

var tableVar = func() (t [maxArgs]table) {
	for v := range t {
		for i := 0; i < 256; i++ {
			if i>>uint(v)&1 != 0 {
				t[v][i/64] |= 1 << uint(i%64)
			}
		}
	}
	return
}()

func (t table) at(i int) uint64 { return t[i/64] >> uint(i%64) & 1 }

// view is a form as a truth table over other forms.
func (s *sweep) view(l lit, expand bool) ([]uint32, table) {
	if expand {
		if x := s.forms[l>>1]; len(x) == 1 && s.atoms[x[0]].args != nil {
			at := &s.atoms[x[0]]
			t := at.tt
			if l&1 != 0 {
				for i := range t {
					t[i] = ^t[i]
				}
			}
			return at.args, t
		}
	}
	t := tableVar[0]
	if l&1 != 0 {
		for i := range t {
			t[i] = ^t[i]
		}
	}
	return []uint32{uint32(l >> 1)}, t
}

func lift(t table, from, to []uint32) (out table) {
	pos := make([]uint, len(from))
	same := true
	for i, f := range from {
		for to[pos[i]] != f {
			pos[i]++
		}
		same = same && pos[i] == uint(i)
	}
	if same {
		return t
	}
	n := 1 << uint(len(to))
	for i := 0; i < n; i++ {
		k := 0
		for j, p := range pos {
			k |= i >> p & 1 << uint(j)
		}
		out[i/64] |= t.at(k) << uint(i%64)
	}
	return spread(out, len(to))
}

func spread(t table, n int) table {
	switch {
	case n < 6:
		w := uint(1) << uint(n)
		t[0] &= 1<<w - 1
		for ; w < 64; w *= 2 {
			t[0] |= t[0] << w
		}
		t[1], t[2], t[3] = t[0], t[0], t[0]
	case n == 6:
		t[1], t[2], t[3] = t[0], t[0], t[0]
	case n == 7:
		t[2], t[3] = t[0], t[1]
	}
	return t
}

func union(x, y []uint32) []uint32 {
	out := make([]uint32, 0, len(x)+len(y))
	for len(x) > 0 && len(y) > 0 {
		switch {
		case x[0] < y[0]:
			out = append(out, x[0])
			x = x[1:]
		case x[0] > y[0]:
			out = append(out, y[0])
			y = y[1:]
		default:
			out = append(out, x[0])
			x, y = x[1:], y[1:]
		}
	}
	return append(append(out, x...), y...)
}

// product is the form of the conjunction of two forms.
func (s *sweep) product(a, b lit, sealA, sealB bool) *prod {
	key := [3]lit{a, b, 0}
	if sealA {
		key[2] |= 1
	}
	if sealB {
		key[2] |= 2
	}
	if p := s.prods[key]; p != nil {
		return p
	}
	p := &prod{}
	for try := 0; try < 4; try++ {
		ea, eb := try&1 == 0, try&2 == 0
		if ea && sealA || eb && sealB {
			continue
		}
		xa, ta := s.view(a, ea)
		xb, tb := s.view(b, eb)
		u := union(xa, xb)
		if len(u) > maxArgs {
			continue
		}
		p.expA, p.expB = ea && !(len(xa) == 1 && xa[0] == uint32(a>>1)), eb && !(len(xb) == 1 && xb[0] == uint32(b>>1))
		ta, tb = lift(ta, xa, u), lift(tb, xb, u)
		for i := range ta {
			ta[i] &= tb[i]
		}
		p.args, p.tt = u, ta
		break
	}
	p.out = s.reduce(p.args, p.tt)
	s.prods[key] = p
	return p
}

// reduce drops arguments a truth table does not depend on and names what remains.
func (s *sweep) reduce(args []uint32, t table) lit {
	var keep []uint32
	var pos []uint
	linear := true
	for v := range args {
		dep, flips := false, true
		for i := 0; i < 1<<uint(len(args)); i++ {
			if i>>uint(v)&1 == 0 {
				if t.at(i) != t.at(i|1<<uint(v)) {
					dep = true
				} else {
					flips = false
				}
			}
		}
		if dep {
			keep = append(keep, args[v])
			pos = append(pos, uint(v))
			linear = linear && flips
		}
	}
	neg := lit(t.at(0))
	if linear && (len(keep) < 2 || s.inputs > maxArgs) {
		out := neg
		for _, f := range keep {
			out = s.sum(out, lit(f)<<1)
		}
		return out
	}
	var r table
	for i := 0; i < 1<<uint(len(keep)); i++ {
		k := 0
		for j, p := range pos {
			k |= i >> uint(j) & 1 << p
		}
		r[i/64] |= (t.at(k) ^ uint64(neg)) << uint(i%64)
	}
	r = spread(r, len(keep))
	words := append([]uint32(nil), keep...)
	for _, w := range r {
		words = append(words, uint32(w), uint32(w>>32))
	}
	key := packed(words)
	at, ok := s.atomOf[key]
	if !ok {
		at = uint32(len(s.atoms))
		s.atoms = append(s.atoms, atom{keep, r})
		s.atomOf[key] = at
	}
	return lit(s.form([]uint32{at}))<<1 | neg
}

func (s *sweep) and(a, b lit) lit {
	if a > b {
		a, b = b, a
	}
	switch {
	case a == lfalse || a == b^1:
		return lfalse
	case a == ltrue || a == b:
		return b
	}
	k := [3]uint32{1, uint32(a), uint32(b)}
	if l, ok := s.hash[k]; ok {
		return l
	}
	large := s.inputs > maxArgs
	p := s.product(s.canon(a), s.canon(b), large && s.gates[a>>1].kind == 3, large && s.gates[b>>1].kind == 3)
	l := s.gate(gate{kind: 1, a: a, b: b, canon: p.out, p: p})
	if !p.expA {
		s.need(a)
	}
	if !p.expB {
		s.need(b)
	}
	return s.settle(k, l)
}

// settle replaces a gate that is constant.
func (s *sweep) settle(k [3]uint32, l lit) lit {
	if c := s.canon(l); c>>1 == 0 {
		s.need(l)
		l = c & 1
	}
	s.hash[k] = l
	return l
}

func (s *sweep) gate(g gate) lit {
	n := uint32(len(s.gates))
	s.gates = append(s.gates, g)
	if n&0xfff == 0 && time.Now().After(s.e.deadline) {
		panic(abortErr{why: "time limit"})
	}
	return lit(n) << 1
}

// seal makes a gate whose form is an argument in the truth tables above it.
func (s *sweep) seal(l lit) lit {
	g := s.gates[l>>1]
	if g.kind != 1 && g.kind != 2 {
		return l
	}
	if x := s.forms[g.canon>>1]; len(x) != 1 || s.atoms[x[0]].args == nil {
		return l
	}
	k := [3]uint32{3, uint32(l >> 1), 0}
	r, ok := s.hash[k]
	if !ok {
		s.need(l)
		r = s.gate(gate{kind: 3, a: l &^ 1, canon: g.canon})
		s.hash[k] = r
	}
	return r ^ l&1
}

func (s *sweep) or(a, b lit) lit { return s.and(a^1, b^1) ^ 1 }

func (s *sweep) xor(a, b lit) lit {
	neg := (a ^ b) & 1
	a, b = a&^1, b&^1
	if a > b {
		a, b = b, a
	}
	switch {
	case a == b:
		return lfalse ^ neg
	case a == lfalse:
		return b ^ neg
	}
	if s.inputs <= maxArgs { // everything fits one truth table
		return s.or(s.and(a, b^1), s.and(a^1, b)) ^ neg
	}
	k := [3]uint32{2, uint32(a), uint32(b)}
	if l, ok := s.hash[k]; ok {
		return l ^ neg
	}
	s.need(a)
	s.need(b)
	l := s.gate(gate{kind: 2, a: a, b: b, canon: s.sum(s.canon(a), s.canon(b))})
	return s.settle(k, l) ^ neg
}

func (s *sweep) ite(c, a, b lit) lit {
	switch {
	case c == ltrue:
		return a
	case c == lfalse:
		return b
	case a == b:
		return a
	case a == b^1:
		return s.xor(c, b)
	case c&1 != 0:
		return s.ite(c^1, b, a)
	}
	return s.or(s.and(c, a), s.and(c^1, b))
}

// need proves that the form of a gate is what it computes.
func (s *sweep) need(l lit) {
	g := &s.gates[l>>1]
	if g.kind == 3 {
		s.need(g.a)
		return
	}
	if g.kind != 1 || g.needed {
		return
	}
	g.needed = true
	s.used++
	txt := s.lemma(uint32(l >> 1))
	if _, known := s.lemmas[txt]; !known {
		s.lemmas[txt] = s.ask(txt)
		if !s.lemmas[txt] {
			s.bad++
			if verbose > 1 {
				fmt.Fprintf(os.Stderr, "[sweep: not proved: %s]\n", txt)
			}
		}
	}
}

// lemma states that the gates below n, down to the operands that were not replaced by truth tables, compute
// the truth table of n.
func (s *sweep) lemma(n uint32) string {
	vars := map[uint32]string{}
	name := map[uint32]string{}
	var head, body strings.Builder
	v := func(f lit) string {
		if f>>1 == 0 {
			if f&1 != 0 {
				return "true"
			}
			return "false"
		}
		t, ok := vars[uint32(f>>1)]
		if !ok {
			t = fmt.Sprintf("x%d", len(vars))
			vars[uint32(f>>1)] = t
			fmt.Fprintf(&head, "(declare-const %s Bool)\n", t)
		}
		if f&1 != 0 {
			return "(not " + t + ")"
		}
		return t
	}
	var tab func(args []uint32, t table, from, n int) string
	tab = func(args []uint32, t table, from, n int) string {
		all := true
		for i := 1; i < 1<<uint(n) && all; i++ {
			all = t.at(from+i) == t.at(from)
		}
		if all {
			return [2]string{"false", "true"}[t.at(from)]
		}
		lo, hi := tab(args, t, from, n-1), tab(args, t, from+1<<uint(n-1), n-1)
		if lo == hi {
			return lo
		}
		return "(ite " + v(lit(args[n-1])<<1) + " " + hi + " " + lo + ")"
	}
	var ref func(l lit, exp bool) string
	ng := 0
	ref = func(l lit, exp bool) string {
		if !exp {
			return v(s.canon(l))
		}
		g := &s.gates[l>>1]
		t := name[uint32(l>>1)]
		if t == "" {
			var def string
			if g.kind == 1 && s.viewIs(g) {
				def = "(and " + ref(g.a, g.p.expA) + " " + ref(g.b, g.p.expB) + ")"
			} else { // an exclusive-or of which one atom is left
				args, tt := s.view(g.canon, true)
				def = tab(args, tt, 0, len(args))
				s.need(l)
			}
			t = fmt.Sprintf("g%d", ng)
			ng++
			name[uint32(l>>1)] = t
			fmt.Fprintf(&body, "(define-fun %s () Bool %s)\n", t, def)
		}
		if l&1 != 0 {
			return "(not " + t + ")"
		}
		return t
	}
	g := &s.gates[n]
	def := "(and " + ref(g.a, g.p.expA) + " " + ref(g.b, g.p.expB) + ")"
	rhs := tab(g.p.args, g.p.tt, 0, len(g.p.args))
	fmt.Fprintf(&body, "(assert (xor %s %s))\n", def, rhs)
	return head.String() + body.String()
}

// viewIs reports whether the arguments of a gate's form are among those of its product.
func (s *sweep) viewIs(g *gate) bool {
	args, _ := s.view(g.canon, true)
	for _, a := range args {
		ok := false
		for _, b := range g.p.args {
			ok = ok || a == b
		}
		if !ok {
			return false
		}
	}
	return true
}

func (s *sweep) ask(txt string) bool {
	sv := s.e.solver
	if sv.cmd == nil || sv.nAssert > 20000 {
		sv.close()
		sv.start()
		sv.nAssert = 0
	}
	t0 := time.Now()
	s.asked++
	sv.nAssert++
	sv.stats.Queries++
	fmt.Fprintf(sv.in, "(set-option :timeout 3000)\n(push)\n%s(check-sat)\n(pop)\n(echo \"#\")\n", txt)
	sv.in.Flush()
	proc := sv.cmd.Process
	wd := time.AfterFunc(10*time.Second, func() { proc.Kill() })
	ans := sv.readTo()
	wd.Stop()
	d := time.Since(t0)
	sv.stats.Time += d
	s.time += d
	switch {
	case ans == "unsat":
		sv.count(Unsat)
		return true
	case ans == "sat":
		sv.count(Sat)
	default:
		sv.count(Unknown)
		if strings.Contains(ans, "error") {
			fmt.Fprintln(os.Stderr, "sweep:", ans)
			sv.close()
		}
	}
	return false
}

func (s *sweep) input(t *Term) []lit {
	w := int(t.W)
	if w == 0 {
		w = 1
	}
	out := make([]lit, w)
	var ids []uint32
	for b := range out {
		if b >= bits.Len64(t.hi) {
			continue // false
		}
		at := uint32(len(s.atoms))
		s.atoms = append(s.atoms, atom{})
		out[b] = s.gate(gate{canon: lit(s.form([]uint32{at})) << 1})
		ids = append(ids, uint32(out[b]>>1))
	}
	s.names = append(s.names, t)
	s.vars[t.Name] = ids
	return out
}

// search looks for values that make a gate true.
func (s *sweep) search(root lit, ok func(m *Model) bool) *Model {
	words := make([]uint64, len(s.gates))
	for round := 0; round < 64; round++ {
		vals := map[string][64]uint64{}
		for _, t := range s.names {
			var vs [64]uint64
			for i := range vs {
				v := s.rnd.Uint64()
				if span := t.hi - t.lo; span != ^uint64(0) {
					v = t.lo + v%(span+1)
				}
				vs[i] = v
			}
			vals[t.Name] = vs
			for b, id := range s.vars[t.Name] {
				words[id] = 0
				for i, v := range vs {
					words[id] |= v >> uint(b) & 1 << uint(i)
				}
			}
		}
		w := func(l lit) uint64 {
			x := words[l>>1]
			if l&1 != 0 {
				x = ^x
			}
			return x
		}
		for i := range s.gates {
			switch g := &s.gates[i]; g.kind {
			case 1:
				words[i] = w(g.a) & w(g.b)
			case 2:
				words[i] = w(g.a) ^ w(g.b)
			case 3:
				words[i] = w(g.a)
			}
		}
		for x := w(root); x != 0; x &= x - 1 {
			i := bits.TrailingZeros64(x)
			m := newModel()
			for n, vs := range vals {
				m.vals[n] = vs[i]
			}
			if ok(m) {
				return m
			}
			if x&(x-1) == 0 || bits.OnesCount64(x) < 60 {
				break
			}
		}
		if time.Now().After(s.e.deadline) {
			break
		}
	}
	return nil
}

func (s *sweep) constant(w int, c uint64) []lit {
	out := make([]lit, w)
	for i := range out {
		out[i] = lit(c >> uint(i) & 1)
	}
	return out
}

func (s *sweep) adder(a, b []lit, c lit) []lit {
	out := make([]lit, len(a))
	for i := range a {
		x := s.xor(a[i], b[i])
		out[i] = s.xor(x, c)
		c = s.or(s.and(a[i], b[i]), s.and(x, c))
	}
	return out
}

func (s *sweep) less(a, b []lit, or lit) lit { // unsigned a < b, or when equal
	r := or
	for i := range a {
		r = s.ite(s.xor(a[i], b[i]), b[i], r)
	}
	return r
}

func (s *sweep) eq(a, b []lit) lit {
	r := ltrue
	for i := range a {
		r = s.and(r, s.xor(a[i], b[i])^1)
	}
	return r
}

type sweepUnsup string

// seals tells the terms whose operands are arguments in truth tables: numbers compared or computed with, but
// not what is chosen between, or conditions.
func seals(op, arg Op) bool {
	switch op {
	case OEq, OULt, OSLt:
		return true
	case OBAnd, OBOr, OBNot:
		return arg != OBAnd && arg != OBOr && arg != OBNot
	case OAdd, OShl, OLShr, OAShr:
		return true
	}
	return false
}

// term translates a term whose arguments are translated.
func (s *sweep) term(t *Term) []lit {
	w := int(t.W)
	arg := func(i int) []lit {
		x := s.get(t.Args[i])
		if seals(t.Op, t.Args[i].Op) {
			x = append([]lit(nil), x...)
			for i := range x {
				x[i] = s.seal(x[i])
			}
		}
		return x
	}
	fold := func(f func(a, b lit) lit) []lit {
		out := append([]lit(nil), arg(0)...)
		for k := 1; k < len(t.Args); k++ {
			for i, b := range arg(k) {
				out[i] = f(out[i], b)
			}
		}
		return out
	}
	not := func(a []lit) []lit {
		out := make([]lit, len(a))
		for i := range a {
			out[i] = a[i] ^ 1
		}
		return out
	}
	switch t.Op {
	case OVar:
		return s.input(t)
	case ORng:
		return arg(0)
	case ONot, OBNot:
		return not(arg(0))
	case OAnd, OBAnd:
		return fold(s.and)
	case OOr, OBOr:
		return fold(s.or)
	case OBXor:
		return fold(s.xor)
	case OIte:
		c, a, b := arg(0)[0], arg(1), arg(2)
		out := make([]lit, len(a))
		for i := range a {
			out[i] = s.ite(c, a[i], b[i])
		}
		return out
	case OEq:
		return []lit{s.eq(arg(0), arg(1))}
	case OULt:
		return []lit{s.less(arg(0), arg(1), lfalse)}
	case OSLt:
		a, b := append([]lit(nil), arg(0)...), append([]lit(nil), arg(1)...)
		k := len(a) - 1
		a[k] ^= 1
		b[k] ^= 1
		return []lit{s.less(a, b, lfalse)}
	case OAdd:
		out := arg(0)
		for k := 1; k < len(t.Args); k++ {
			out = s.adder(out, arg(k), lfalse)
		}
		return out
	case OConcat:
		var out []lit
		for k := len(t.Args) - 1; k >= 0; k-- {
			out = append(out, arg(k)...)
		}
		return out
	case OExtract:
		n := w
		if n == 0 {
			n = 1
		}
		return append([]lit(nil), arg(0)[int(t.C):int(t.C)+n]...)
	case OSExt:
		out := append([]lit(nil), arg(0)...)
		for len(out) < w {
			out = append(out, out[len(arg(0))-1])
		}
		return out
	case OShl, OLShr, OAShr:
		a, n := arg(0), arg(1)
		fill := lfalse
		if t.Op == OAShr {
			fill = a[len(a)-1]
		}
		for k := range n {
			if n[k] == lfalse {
				continue
			}
			out := make([]lit, len(a))
			for i := range a {
				v := fill
				if k < 16 {
					j := i + 1<<uint(k)
					if t.Op == OShl {
						j = i - 1<<uint(k)
					}
					if j >= 0 && j < len(a) {
						v = a[j]
					}
				}
				out[i] = s.ite(n[k], v, a[i])
			}
			a = out
		}
		return a
	}
	panic(sweepUnsup(opNames[t.Op]))
}

func (s *sweep) get(t *Term) []lit {
	if t.Op == OConst {
		w := int(t.W)
		if w == 0 {
			w = 1
		}
		return s.constant(w, t.C)
	}
	return s.bits[t.ID]
}

// translate works bottom up in the order terms were made, so that earlier rounds come first.
func (s *sweep) translate(root *Term) []lit {
	need := map[int32]bool{}
	var order []*Term
	st := []*Term{root}
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if t.Op == OConst || need[t.ID] || s.bits[t.ID] != nil {
			continue
		}
		need[t.ID] = true
		order = append(order, t)
		st = append(st, t.Args...)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	for _, t := range order {
		if t.Op == OVar {
			s.inputs += bits.Len64(t.hi)
		}
	}
	for _, t := range order {
		s.bits[t.ID] = s.term(t)
	}
	return s.get(root)
}

// sweepDecide decides whether neg can hold.
func (e *Exec) sweepDecide(st *State, neg *Term) (r Res, m *Model) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(sweepUnsup); ok {
				fmt.Fprintln(os.Stderr, "sweep: no translation of", string(u))
				r, m = Unknown, nil
				return
			}
			panic(x)
		}
	}()
	if e.sweeper == nil {
		e.sweeper = newSweep(e)
	}
	s := e.sweeper
	root := s.translate(neg)[0]
	s.need(root)
	if verbose > 0 {
		fmt.Fprintf(os.Stderr, "[sweep: %d gates, %d forms, %d atoms, %d tables used, %d lemmas asked in %v, %d not proved, root %d]\n", len(s.gates), len(s.forms), len(s.atoms), s.used, s.asked, s.time, s.bad, root)
	}
	if root == lfalse && s.bad == 0 {
		return Unsat, nil
	}
	if root != lfalse {
		found := s.search(root, func(m *Model) bool {
			ok := m.eval(neg) != 0
			for p := st.pc; p != nil && ok; p = p.parent {
				ok = m.eval(p.lit) != 0
			}
			return ok
		})
		if found != nil {
			return Sat, found
		}
	}
	return Unknown, nil
}
