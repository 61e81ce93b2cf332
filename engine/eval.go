package main

// Concrete evaluation of terms under a model.

type Model struct {
	vals map[string]uint64 // variable name -> value
	apps map[int32]uint64  // application term -> value
	memo map[int32]uint64
}

func newModel() *Model {
	return &Model{vals: map[string]uint64{}, apps: map[int32]uint64{}, memo: map[int32]uint64{}}
}

func (m *Model) eval(t *Term) uint64 {
	if t.Op == OConst {
		return t.C
	}
	if v, ok := m.memo[t.ID]; ok {
		return v
	}
	v := m.eval1(t) & mask1(t.W)
	m.memo[t.ID] = v
	return v
}

func mask1(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) eval1(t *Term) uint64 {
	switch t.Op {
	case OVar:
		if v, ok := m.vals[t.Name]; ok {
			return v
		}
		return t.lo
	case OApp:
		if v, ok := m.apps[t.ID]; ok {
			return v
		}
		return 0
	case ORng:
		return m.eval(t.Args[0])
	case OAnd:
		for _, a := range t.Args {
			if m.eval(a) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, a := range t.Args {
			if m.eval(a) != 0 {
				return 1
			}
		}
		return 0
	case OIte:
		if m.eval(t.Args[0]) != 0 {
			return m.eval(t.Args[1])
		}
		return m.eval(t.Args[2])
	}
	var a [2]uint64
	if len(t.Args) <= 2 {
		for i, x := range t.Args {
			a[i] = m.eval(x)
		}
	}
	w := t.W
	switch t.Op {
	case ONot:
		return 1 - a[0]
	case OEq:
		return b2u(a[0] == a[1])
	case OULt:
		return b2u(a[0] < a[1])
	case OSLt:
		return b2u(signed(a[0], t.Args[0].W) < signed(a[1], t.Args[0].W))
	case OAdd:
		var s uint64
		for _, x := range t.Args {
			s += m.eval(x)
		}
		return s
	case OMul:
		return a[0] * a[1]
	case OUDiv:
		if a[1] == 0 {
			return mask(w)
		}
		return a[0] / a[1]
	case OURem:
		if a[1] == 0 {
			return a[0]
		}
		return a[0] % a[1]
	case OSDiv:
		x, y := signed(a[0], w), signed(a[1], w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w)
		}
		if y == -1 {
			return uint64(-x)
		}
		return uint64(x / y)
	case OSRem:
		x, y := signed(a[0], w), signed(a[1], w)
		if y == 0 {
			return a[0]
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	case OShl:
		if a[1] >= uint64(w) {
			return 0
		}
		return a[0] << a[1]
	case OLShr:
		if a[1] >= uint64(w) {
			return 0
		}
		return a[0] >> a[1]
	case OAShr:
		k := a[1]
		if k >= uint64(w) {
			k = uint64(w) - 1
		}
		return uint64(signed(a[0], w) >> k)
	case OBAnd:
		return a[0] & a[1]
	case OBOr:
		return a[0] | a[1]
	case OBXor:
		return a[0] ^ a[1]
	case OBNot:
		return ^a[0]
	case OConcat:
		var s uint64
		for _, x := range t.Args {
			s = s<<x.W | m.eval(x)
		}
		return s
	case OExtract:
		return a[0] >> t.C
	case OSExt:
		return uint64(signed(a[0], t.Args[0].W))
	}
	panic("eval: op " + opNames[t.Op])
}
