package main

// SMT solver back ends: one incremental z3 process for feasibility queries, and a one-shot
// portfolio (z3 + cvc5) for the property assertions.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

func (r Res) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	OneShot                      int
	Cached                       int
	Time                         time.Duration
	BySolver                     map[string]int
}

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	stdin   io.WriteCloser
	defined map[int32]bool
	nAssert int
	stats   SolverStats
	cache   map[string]Res
	tmp     string
	slow    int
}

func newSolver(tmp string) *Solver {
	return &Solver{tmp: tmp, cache: map[string]Res{}, stats: SolverStats{BySolver: map[string]int{}}}
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.stdin = in
	if err := s.cmd.Start(); err != nil {
		panic("cannot start z3-new: " + err.Error())
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	fmt.Fprintln(s.in, "(set-option :print-success false)")
	fmt.Fprintln(s.in, "(set-option :produce-models true)")
	fmt.Fprintln(s.in, "(set-option :model.completion true)")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.stdin.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(w uint8, c uint64) string {
	if w == 0 {
		if c != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, c)
	}
	return fmt.Sprintf("#b%0*b", int(w), c)
}

func termRef(t *Term) string {
	switch t.Op {
	case OConst:
		return constStr(t.W, t.C)
	case OVar:
		return "|" + t.Name + "|"
	}
	return "t" + strconv.Itoa(int(t.ID))
}

// emit writes declarations/definitions needed for t (post-order, iterative).
func emit(w io.Writer, t *Term, defined map[int32]bool, vars, apps *[]*Term) {
	type fr struct {
		t *Term
		i int
	}
	if defined[t.ID] || t.Op == OConst {
		return
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.Args) {
			a := f.t.Args[f.i]
			f.i++
			if a.Op != OConst && !defined[a.ID] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if defined[x.ID] {
			continue
		}
		defined[x.ID] = true
		if x.Op == OVar {
			fmt.Fprintf(w, "(declare-const |%s| %s)\n", x.Name, sortName(x.W))
			if x.W > 0 && (x.lo != 0 || x.hi != mask(x.W)) {
				if x.lo != 0 {
					fmt.Fprintf(w, "(assert (bvule %s |%s|))\n", constStr(x.W, x.lo), x.Name)
				}
				if x.hi != mask(x.W) {
					fmt.Fprintf(w, "(assert (bvule |%s| %s))\n", x.Name, constStr(x.W, x.hi))
				}
			}
			if vars != nil {
				*vars = append(*vars, x)
			}
			continue
		}
		if x.Op == OApp {
			d := ufDecls[x.Name]
			if !defined[-2-int32(ufIndex(x.Name))] {
				defined[-2-int32(ufIndex(x.Name))] = true
				fmt.Fprintf(w, "(declare-fun |%s| (", x.Name)
				for _, a := range d[1:] {
					fmt.Fprintf(w, " %s", sortName(a))
				}
				fmt.Fprintf(w, ") %s)\n", sortName(d[0]))
			}
			if apps != nil {
				*apps = append(*apps, x)
			}
		}
		fmt.Fprintf(w, "(define-fun t%d () %s ", x.ID, sortName(x.W))
		writeBody(w, x)
		fmt.Fprint(w, ")\n")
	}
}

func ufIndex(n string) int {
	for i, x := range ufOrder {
		if x == n {
			return i
		}
	}
	return -1
}

func writeBody(w io.Writer, x *Term) {
	switch x.Op {
	case OExtract:
		fmt.Fprintf(w, "((_ extract %d %d) %s)", int(x.C)+int(x.W)-1, x.C, termRef(x.Args[0]))
	case ORng:
		fmt.Fprint(w, termRef(x.Args[0]))
	case OSExt:
		fmt.Fprintf(w, "((_ sign_extend %d) %s)", x.W-x.Args[0].W, termRef(x.Args[0]))
	case OApp:
		fmt.Fprintf(w, "(|%s|", x.Name)
		for _, a := range x.Args {
			fmt.Fprintf(w, " %s", termRef(a))
		}
		fmt.Fprint(w, ")")
	default:
		fmt.Fprintf(w, "(%s", opNames[x.Op])
		for _, a := range x.Args {
			fmt.Fprintf(w, " %s", termRef(a))
		}
		fmt.Fprint(w, ")")
	}
}

func collect(lits []*Term, vars, apps *[]*Term) {
	seen := map[int32]bool{}
	var st []*Term
	st = append(st, lits...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t.ID] {
			continue
		}
		seen[t.ID] = true
		if t.Op == OVar {
			*vars = append(*vars, t)
		}
		if t.Op == OApp {
			*apps = append(*apps, t)
		}
		st = append(st, t.Args...)
	}
}

// slice keeps only the literals connected (through variables) to the seeds.
func sliceLits(seeds []*Term, lits []*Term) []*Term {
	vs := emptyVars
	for _, s := range seeds {
		vs = vs.union(s.vars)
	}
	used := make([]bool, len(lits))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, l := range lits {
			if !used[i] && l.vars.intersects(vs) {
				used[i] = true
				n := vs.union(l.vars)
				if n != vs {
					vs = n
					changed = true
				}
			}
		}
	}
	for i, l := range lits {
		if used[i] {
			out = append(out, l)
		}
	}
	return out
}

func cacheKey(lits []*Term) string {
	ids := make([]int, len(lits))
	for i, l := range lits {
		ids[i] = int(l.ID)
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, i := range ids {
		b.WriteString(strconv.Itoa(i))
		b.WriteByte(',')
	}
	return b.String()
}

// check decides the conjunction of lits with the incremental solver.
func (s *Solver) check(lits []*Term, timeoutMs int) (Res, *Model) {
	if s.cmd == nil || s.nAssert > 20000 || len(s.defined) > 400000 {
		s.close()
		s.start()
		s.nAssert = 0
	}
	t0 := time.Now()
	s.stats.Queries++
	for _, l := range lits {
		emit(s.in, l, s.defined, nil, nil)
	}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(push)\n", timeoutMs)
	for _, l := range lits {
		fmt.Fprintf(s.in, "(assert %s)\n", termRef(l))
	}
	s.nAssert += len(lits)
	var vars, apps []*Term
	collect(lits, &vars, &apps)
	fmt.Fprint(s.in, "(check-sat)\n(echo \"#\")\n")
	s.in.Flush()
	killed := int32(0)
	proc := s.cmd.Process
	wd := time.AfterFunc(time.Duration(timeoutMs)*time.Millisecond*3/2+2*time.Second, func() {
		atomic.StoreInt32(&killed, 1)
		proc.Kill()
	})
	ans := s.readTo()
	wd.Stop()
	if strings.Contains(ans, "(error") {
		s.stats.Time += time.Since(t0)
		if atomic.LoadInt32(&killed) == 0 {
			fmt.Fprintln(os.Stderr, "solver error:", ans)
		}
		s.close()
		s.stats.Unknown++
		return Unknown, nil
	}
	var r Res
	var m *Model
	switch {
	case strings.HasPrefix(ans, "sat"):
		r = Sat
		m = s.getModel(vars, apps)
	case strings.HasPrefix(ans, "unsat"):
		r = Unsat
	}
	if s.cmd != nil {
		fmt.Fprint(s.in, "(pop)\n")
	}
	d := time.Since(t0)
	s.stats.Time += d
	s.count(r)
	if d > 2*time.Second && verbose > 0 {
		fmt.Fprintf(os.Stderr, "[slow query %v: %v, %d lits]\n", d, r, len(lits))
	}
	return r, m
}

func (s *Solver) count(r Res) {
	switch r {
	case Sat:
		s.stats.Sat++
	case Unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
}

func (s *Solver) readTo() string {
	var b strings.Builder
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.close()
			return "(error eof)"
		}
		if strings.TrimSpace(line) == "#" {
			return strings.TrimSpace(b.String())
		}
		b.WriteString(line)
	}
}

func (s *Solver) getModel(vars, apps []*Term) *Model {
	m := newModel()
	if len(vars)+len(apps) == 0 {
		return m
	}
	fmt.Fprint(s.in, "(get-value (")
	for _, v := range vars {
		fmt.Fprintf(s.in, "%s ", termRef(v))
	}
	for _, a := range apps {
		fmt.Fprintf(s.in, "t%d ", a.ID)
	}
	fmt.Fprint(s.in, "))\n(echo \"#\")\n")
	s.in.Flush()
	parseValues(s.readTo(), vars, apps, m)
	return m
}

// parseValues reads "((name value) (name value) ...)"; values come in the order asked for.
func parseValues(txt string, vars, apps []*Term, m *Model) bool {
	var vals []uint64
	// tokens
	depth := 0
	i := 0
	n := len(txt)
	for i < n {
		c := txt[i]
		switch {
		case c == '(':
			depth++
			i++
		case c == ')':
			depth--
			i++
		case c == '|':
			j := strings.IndexByte(txt[i+1:], '|')
			i += j + 2
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '#':
			j := i + 2
			for j < n && txt[j] != ')' && txt[j] != ' ' && txt[j] != '\n' {
				j++
			}
			base := 16
			if txt[i+1] == 'b' {
				base = 2
			}
			v, _ := strconv.ParseUint(txt[i+2:j], base, 64)
			vals = append(vals, v)
			i = j
		default:
			j := i
			for j < n && txt[j] != ')' && txt[j] != ' ' && txt[j] != '\n' && txt[j] != '(' {
				j++
			}
			w := txt[i:j]
			if w == "true" {
				vals = append(vals, 1)
			} else if w == "false" {
				vals = append(vals, 0)
			}
			i = j
		}
	}
	if len(vals) != len(vars)+len(apps) {
		fmt.Fprintln(os.Stderr, "model parse mismatch", len(vals), len(vars)+len(apps))
		return false
	}
	for k, v := range vars {
		m.vals[v.Name] = vals[k]
	}
	for k, a := range apps {
		m.apps[a.ID] = vals[len(vars)+k]
	}
	return true
}

// oneShot decides the conjunction with fresh solver processes; all lists the solvers to use.
// With crossCheck every solver is run to completion (or timeout) and disagreement is an error.
func (s *Solver) oneShot(lits []*Term, timeout time.Duration, crossCheck bool) (Res, *Model) {
	t0 := time.Now()
	s.stats.Queries++
	s.stats.OneShot++
	var b bytes.Buffer
	var vars, apps []*Term
	defs := map[int32]bool{}
	var body bytes.Buffer
	for _, l := range lits {
		emit(&body, l, defs, &vars, &apps)
	}
	logic := "QF_BV"
	if len(apps) > 0 {
		logic = "QF_UFBV"
	}
	fmt.Fprintf(&b, "(set-option :produce-models true)\n(set-logic %s)\n", logic)
	b.Write(body.Bytes())
	for _, l := range lits {
		fmt.Fprintf(&b, "(assert %s)\n", termRef(l))
	}
	fmt.Fprint(&b, "(check-sat)\n")
	if len(vars)+len(apps) > 0 {
		fmt.Fprint(&b, "(get-value (")
		for _, v := range vars {
			fmt.Fprintf(&b, "%s ", termRef(v))
		}
		for _, a := range apps {
			fmt.Fprintf(&b, "t%d ", a.ID)
		}
		fmt.Fprint(&b, "))\n")
	}
	f := filepath.Join(s.tmp, fmt.Sprintf("q%d.smt2", s.stats.Queries))
	os.WriteFile(f, b.Bytes(), 0644)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type ans struct {
		who string
		out string
	}
	cmds := [][]string{{"z3-new", "-smt2", f}, {"cvc5", "--lang=smt2", f}}
	ch := make(chan ans, len(cmds))
	var wg sync.WaitGroup
	for _, c := range cmds {
		c := c
		wg.Add(1)
		go func() {
			defer wg.Done()
			out, _ := exec.CommandContext(ctx, c[0], c[1:]...).Output()
			ch <- ans{c[0], string(out)}
		}()
	}
	go func() { wg.Wait(); close(ch) }()
	res := Unknown
	var model *Model
	for a := range ch {
		o := strings.TrimSpace(a.out)
		r := Unknown
		var m *Model
		if strings.HasPrefix(o, "sat") {
			m = newModel()
			if parseValues(o[3:], vars, apps, m) {
				r = Sat
			}
		} else if strings.HasPrefix(o, "unsat") {
			r = Unsat
		}
		if r == Unknown {
			continue
		}
		s.stats.BySolver[a.who]++
		if res != Unknown && r != res {
			panic("solver disagreement: z3 and cvc5 give different verdicts on " + f)
		}
		if res == Unknown {
			res, model = r, m
		}
		if !crossCheck {
			cancel()
			break
		}
	}
	s.stats.Time += time.Since(t0)
	s.count(res)
	return res, model
}

var verbose int
