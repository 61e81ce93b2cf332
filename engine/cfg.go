package main

// Per-function information: register numbering, weak topological order, liveness.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	fn     *ssa.Function
	reg    map[ssa.Value]int
	nreg   int
	lin    []int   // block index -> linear order
	nest   [][]int // block index -> enclosing component heads (block indices), outermost first
	liveIn [][]uint64
	name   string
	intr   intrinsic
	intrOK bool
	isHead []bool
}

func (e *Exec) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.fns[fn]; ok {
		return fi
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		e.buildPkg(fn.Pkg)
	}
	fi := &fnInfo{fn: fn, reg: map[ssa.Value]int{}, name: fullName(fn)}
	e.fns[fn] = fi
	fi.intr, fi.intrOK = lookupIntrinsic(fi.name, fn)
	for _, p := range fn.Params {
		fi.reg[p] = fi.nreg
		fi.nreg++
	}
	for _, p := range fn.FreeVars {
		fi.reg[p] = fi.nreg
		fi.nreg++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				fi.reg[v] = fi.nreg
				fi.nreg++
			}
		}
	}
	if len(fn.Blocks) > 0 {
		fi.wto()
		fi.liveness()
	}
	return fi
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// wto computes Bourdoncle's weak topological order.
func (fi *fnInfo) wto() {
	n := len(fi.fn.Blocks)
	fi.lin = make([]int, n)
	fi.nest = make([][]int, n)
	fi.isHead = make([]bool, n)
	dfn := make([]int, n)
	const inf = 1 << 30
	num := 0
	var stack []int
	type comp struct {
		head  int
		elems []interface{} // int or *comp, in reverse order
	}
	succs := func(v int) []int {
		var out []int
		for _, s := range fi.fn.Blocks[v].Succs {
			out = append(out, s.Index)
		}
		return out
	}
	var visit func(v int, part *[]interface{}) int
	component := func(v int) *comp {
		var part []interface{}
		for _, s := range succs(v) {
			if dfn[s] == 0 {
				visit(s, &part)
			}
		}
		return &comp{v, part}
	}
	visit = func(v int, part *[]interface{}) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range succs(v) {
			var m int
			if dfn[s] == 0 {
				m = visit(s, part)
			} else {
				m = dfn[s]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != v {
					dfn[el] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append(*part, component(v))
			} else {
				*part = append(*part, v)
			}
		}
		return head
	}
	var top []interface{}
	visit(0, &top)
	if r := fi.fn.Recover; r != nil && dfn[r.Index] == 0 {
		var p2 []interface{}
		visit(r.Index, &p2)
		top = append(p2, top...) // reversed order: recover block last
	}
	ord := 0
	var walk func(part []interface{}, nest []int)
	walk = func(part []interface{}, nest []int) {
		for i := len(part) - 1; i >= 0; i-- {
			switch x := part[i].(type) {
			case int:
				fi.lin[x] = ord
				fi.nest[x] = nest
				ord++
			case *comp:
				fi.isHead[x.head] = true
				nn := append(append([]int(nil), nest...), x.head)
				fi.lin[x.head] = ord
				fi.nest[x.head] = nn
				ord++
				walk(x.elems, nn)
			}
		}
	}
	walk(top, nil)
}

func (fi *fnInfo) liveness() {
	n := len(fi.fn.Blocks)
	words := (fi.nreg + 63) / 64
	use := make([][]uint64, n)
	def := make([][]uint64, n)
	fi.liveIn = make([][]uint64, n)
	phiUse := make([][]uint64, n) // uses at the end of the block, by successors' phis
	for i := range use {
		use[i] = make([]uint64, words)
		def[i] = make([]uint64, words)
		fi.liveIn[i] = make([]uint64, words)
		phiUse[i] = make([]uint64, words)
	}
	set := func(b []uint64, i int) { b[i/64] |= 1 << (uint(i) % 64) }
	has := func(b []uint64, i int) bool { return b[i/64]>>(uint(i)%64)&1 != 0 }
	var ops []*ssa.Value
	for bi, b := range fi.fn.Blocks {
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				for k, ed := range phi.Edges {
					if r, ok := fi.reg[ed]; ok {
						set(phiUse[b.Preds[k].Index], r)
					}
				}
				// phi results are live-in (assigned on the edge)
				set(use[bi], fi.reg[phi])
				continue
			}
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if *o == nil {
					continue
				}
				if r, ok := fi.reg[*o]; ok && !has(def[bi], r) {
					set(use[bi], r)
				}
			}
			if v, ok := in.(ssa.Value); ok {
				set(def[bi], fi.reg[v])
			}
		}
	}
	// the recover block reads named results through allocs: keep everything it needs live everywhere
	var recUse []uint64
	if r := fi.fn.Recover; r != nil {
		recUse = use[r.Index]
	}
	for ch := true; ch; {
		ch = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fi.fn.Blocks[bi]
			for w := 0; w < words; w++ {
				out := phiUse[bi][w]
				for _, s := range b.Succs {
					v := fi.liveIn[s.Index][w]
					// remove phi results of s
					out |= v &^ phiMask(fi, s, w)
				}
				if recUse != nil {
					out |= recUse[w]
				}
				nv := use[bi][w] | (out &^ def[bi][w])
				if nv != fi.liveIn[bi][w] {
					fi.liveIn[bi][w] = nv
					ch = true
				}
			}
		}
	}
}

func phiMask(fi *fnInfo, b *ssa.BasicBlock, w int) uint64 {
	var m uint64
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r := fi.reg[p]
		if r/64 == w {
			m |= 1 << (uint(r) % 64)
		}
	}
	return m
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
