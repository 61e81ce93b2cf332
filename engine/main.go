package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is one harness run with concrete case values.
type Job struct {
	Harness string         `json:"harness"`
	Cases   map[string]int `json:"cases"`
	Limit   int            `json:"limit"`
}

type RunResult struct {
	Harness     string          `json:"harness"`
	Cases       map[string]int  `json:"cases"`
	Split       *CaseDim        `json:"split,omitempty"`
	Error       string          `json:"error,omitempty"`
	TimedOut    bool            `json:"timed_out,omitempty"`
	Paths       int             `json:"paths"`
	Obligations int             `json:"obligations"`
	Trivial     int             `json:"trivial"`
	Discharged  int             `json:"discharged"`
	Undecided   map[string]int  `json:"undecided"`
	Incomplete  map[string]int  `json:"incomplete"`
	Violations  []Violation     `json:"violations"`
	Bounds      []Violation     `json:"bounds"`
	Asserts     map[string]int  `json:"asserts"`
	Reached     map[string]bool `json:"reached"`
	Witnesses   []Witness       `json:"witnesses"`
	Funcs       []string        `json:"funcs"`
	Solver      SolverStats     `json:"solver"`
	Blocks      int             `json:"blocks"`
	Instrs      int             `json:"instrs"`
	Forks       int             `json:"forks"`
	Merges      int             `json:"merges"`
	Terms       int             `json:"terms"`
	Inputs      int             `json:"inputs"`
	Wall        float64         `json:"wall_s"`
	Recycle     bool            `json:"recycle,omitempty"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif check|run|worker|scratch|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "worker":
		cmdWorker(os.Args[2:])
	case "scratch":
		if err := buildScratch(os.Args[2], os.Args[3], os.Args[4]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// worker executes jobs in one loaded program.
type worker struct {
	prog  *ssa.Program
	e     *Exec
	defs  map[string]*HarnessDef
	tier  string
	cross bool
	tmp   string
	nJob  int
}

func newWorker(scratch, verif, tier string, cross bool, names []string) (*worker, error) {
	defs, err := harnessDefs(filepath.Join(verif, "harness"))
	if err != nil {
		return nil, err
	}
	w := &worker{defs: map[string]*HarnessDef{}, tier: tier, cross: cross}
	pk := map[string]bool{}
	for _, n := range names {
		for _, d := range defs {
			if d.Name == n {
				w.defs[n] = d
				pk[d.Pkg] = true
			}
		}
	}
	w.prog, _, err = loadProgram(scratch, sortedKeys(pk))
	if err != nil {
		return nil, err
	}
	w.tmp, _ = os.MkdirTemp("", "verif-q")
	w.e = newExec(w.prog, w.tmp)
	return w, nil
}

func (w *worker) close() {
	w.e.solver.close()
	os.RemoveAll(w.tmp)
}

func (w *worker) run(j Job) (res *RunResult) {
	res = &RunResult{Harness: j.Harness, Cases: j.Cases}
	start := time.Now()
	def := w.defs[j.Harness]
	if def == nil {
		res.Error = "no such harness"
		return
	}
	e := w.e
	w.nJob++
	e.varPrefix = fmt.Sprintf("j%d.", w.nJob)
	e.solver.close()
	e.solver = newSolver(w.tmp)
	e.stats = Stats{Funcs: map[string]bool{}}
	e.exits, e.depth, e.initMode = nil, 0, 0
	e.shadows = map[string]*Obj{}
	e.loopLimit = def.optT("loop", w.tier, 600)
	e.sweeper = nil
	e.feasSize = def.optT("feassize", w.tier, 0)
	e.feasTO = def.optT("feas", w.tier, 2000)
	e.deadline = start.Add(time.Duration(j.Limit) * time.Second)
	h := newHarness(e, j.Harness)
	h.thorough = w.tier == "thorough"
	h.crossCheck = w.cross
	h.sweep = def.optT("sweep", w.tier, 0) != 0
	h.assertTO = time.Duration(def.optT("assert", w.tier, 60)) * time.Second
	if j.Cases == nil {
		j.Cases = map[string]int{}
	}
	h.resetCase(copyCases(j.Cases))
	e.harness = h
	t0 := len(allTerms)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(abortErr); ok {
					if a.split != nil {
						res.Split = a.split
						return
					}
					res.TimedOut = true
					h.incomplete(a.why, "harness")
					return
				}
				if u, ok := r.(unsup); ok {
					h.incomplete(u.why, "harness")
					return
				}
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(r)
				}
				res.Error = fmt.Sprint(r)
			}
		}()
		pkg := w.prog.ImportedPackage(def.Pkg)
		if pkg == nil {
			res.Error = "package not loaded: " + def.Pkg
			return
		}
		e.buildPkg(pkg)
		e.runHarness(h, pkg.Func(def.Name))
	}()
	res.Paths, res.Obligations, res.Trivial, res.Discharged = h.Paths, h.Obligations, h.Trivial, h.Discharged
	res.Undecided, res.Incomplete, res.Violations, res.Bounds = h.Undecided, h.Incomplete, h.Violations, h.Bounds
	res.Asserts, res.Reached, res.Witnesses = h.Asserts, h.Reached, h.Witnesses
	res.Funcs = sortedKeys(e.stats.Funcs)
	res.Solver = e.solver.stats
	res.Blocks, res.Instrs, res.Forks, res.Merges = e.stats.Blocks, e.stats.Instrs, e.stats.Forks, e.stats.Merges
	res.Terms = len(allTerms) - t0
	res.Inputs = len(h.inputs)
	res.Wall = time.Since(start).Seconds()
	res.Recycle = len(allTerms) > 4000000 || len(varList) > 30000
	return
}

// runHarness executes the harness function from a fresh state over the initialised globals.
func (e *Exec) runHarness(h *HarnessRun, fn *ssa.Function) {
	if fn == nil {
		e.fail("harness function missing")
	}
	// initialise the packages up front: a lazily run initialiser must not see the run's state
	e.ensureInit(fn.Pkg)
	st := &State{heap: e.root.child(), tok: new(tok), model: newModel()}
	o := e.callFn(st, fn, nil, nil, nil)
	h.finish(o)
}

func cmdWorker(args []string) {
	fl := flag.NewFlagSet("worker", flag.ExitOnError)
	scratch := fl.String("scratch", "", "")
	verif := fl.String("verif", "/verif", "")
	tier := fl.String("tier", "quick", "")
	names := fl.String("harnesses", "", "")
	cross := fl.Bool("cross", false, "")
	mem := fl.Int("mem", 4, "GB")
	fl.Parse(args)
	debug.SetMemoryLimit(int64(*mem) << 30)
	debug.SetGCPercent(200)
	runtime.GOMAXPROCS(2)
	enc := json.NewEncoder(os.Stdout)
	w, err := newWorker(*scratch, *verif, *tier, *cross, strings.Split(*names, ","))
	if err != nil {
		enc.Encode(&RunResult{Error: "load: " + err.Error()})
		return
	}
	defer w.close()
	in := bufio.NewReader(os.Stdin)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j Job
		if json.Unmarshal(line, &j) != nil {
			return
		}
		enc.Encode(w.run(j))
	}
}

// cmdRun: development entry: run one harness (all its cases) in this process.
func cmdRun(args []string) int {
	fl := flag.NewFlagSet("run", flag.ExitOnError)
	scratch := fl.String("scratch", "", "scratch module (built when empty)")
	verif := fl.String("verif", "/verif", "")
	repo := fl.String("repo", "/repo", "")
	name := fl.String("harness", "", "")
	tier := fl.String("tier", "quick", "")
	limit := fl.Int("limit", 600, "")
	v := fl.Int("v", 1, "")
	cross := fl.Bool("cross", false, "")
	maxc := fl.Int("max", 1000, "cases")
	only := fl.String("case", "", "name=value,... fixed")
	full := fl.Bool("full", false, "print witnesses and functions")
	fl.Parse(args)
	verbose = *v
	if p := os.Getenv("VERIF_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *scratch == "" {
		d, _ := os.MkdirTemp("", "verif-s")
		defer os.RemoveAll(d)
		if err := buildScratch(*repo, *verif, d); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		*scratch = d
	}
	w, err := newWorker(*scratch, *verif, *tier, *cross, []string{*name})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer w.close()
	c0 := map[string]int{}
	for _, kv := range strings.Split(*only, ",") {
		if i := strings.Index(kv, "="); i > 0 {
			var n int
			fmt.Sscan(kv[i+1:], &n)
			c0[kv[:i]] = n
		}
	}
	q := []map[string]int{c0}
	n := 0
	for len(q) > 0 && n < *maxc {
		c := q[0]
		q = q[1:]
		r := w.run(Job{*name, c, *limit})
		if r.Split != nil {
			for v := r.Split.Lo; v <= r.Split.Hi; v++ {
				k := copyCases(c)
				k[r.Split.Name] = v
				q = append(q, k)
			}
			continue
		}
		n++
		nw := len(r.Witnesses)
		if !*full {
			if len(r.Witnesses) > 1 {
				r.Witnesses = r.Witnesses[:1]
			}
			if len(r.Witnesses) == 1 && len(r.Witnesses[0].Inputs) > 40 {
				r.Witnesses[0].Inputs = nil
			}
			for i := range r.Violations {
				if len(r.Violations[i].Inputs) > 60 {
					r.Violations[i].Inputs = nil
				}
			}
		}
		b, _ := json.Marshal(r)
		fmt.Println(string(b))
		fmt.Fprintf(os.Stderr, "== case %v: %.1fs paths %d obl %d disch %d triv %d undec %v incompl %v viol %d bounds %d wit %d queries %d solver %.1fs terms %d instrs %d\n", c, r.Wall, r.Paths, r.Obligations, r.Discharged, r.Trivial, r.Undecided, r.Incomplete, len(r.Violations), len(r.Bounds), nw, r.Solver.Queries, r.Solver.Time.Seconds(), r.Terms, r.Instrs)
		for l := range r.Asserts {
			if !r.Reached[l] {
				fmt.Fprintf(os.Stderr, "   NOT REACHED: %s\n", l)
			}
		}
	}
	return 0
}
