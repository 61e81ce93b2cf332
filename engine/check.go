package main

// The check command: explores every harness of a property, replays what the solver found against the
// real code, and writes the evidence.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type known struct {
	property, harness, label, what string
	hit                            bool
}

func readKnown(path string) []*known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []*known
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) label=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out = append(out, &known{property: m[1], harness: m[2], label: m[3], what: m[4]})
		}
	}
	return out
}

// workerProc is one worker subprocess.
type workerProc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
	err bytes.Buffer
}

type harnessSum struct {
	Name        string         `json:"harness"`
	What        string         `json:"what"`
	Cases       int            `json:"cases"`
	CasesLost   int            `json:"cases_not_finished,omitempty"`
	Paths       int            `json:"paths"`
	Inputs      int            `json:"symbolic_inputs"`
	Obligations int            `json:"obligations"`
	Trivial     int            `json:"discharged_by_simplification"`
	Discharged  int            `json:"discharged"`
	Undecided   map[string]int `json:"undecided,omitempty"`
	Incomplete  map[string]int `json:"outside_the_claim,omitempty"`
	Asserts     []string       `json:"assertions"`
	Unreached   []string       `json:"assertions_without_reachability_witness,omitempty"`
	Queries     int            `json:"solver_queries"`
	SolverS     float64        `json:"solver_s"`
	Replayed    int            `json:"traces_replayed_natively"`
	Mismatch    []string       `json:"replay_mismatches,omitempty"`
	Unrepro     []string       `json:"candidates_not_reproduced,omitempty"`
	WallS       float64        `json:"wall_s"`
	reached     map[string]bool
	asserts     map[string]int
	nWit        int
}

type checker struct {
	prop, tier, verif, repo, scratch string
	cross                            bool
	self                             string
	defs                             []*HarnessDef
	byName                           map[string]*HarnessDef
	deadline                         time.Time
	mu                               sync.Mutex
	cond                             *sync.Cond
	queue                            []Job
	spent                            map[string]time.Duration
	pending                          int
	stop                             bool
	sums                             map[string]*harnessSum
	funcs                            map[string]bool
	tot                              RunResult
	bins                             map[string]string
	binErr                           map[string]string
	binWG                            sync.WaitGroup
	tmp                              string
	known                            []*known
	violations                       []string
	confirmed                        map[string]bool
	tried                            map[string]int
	notes                            []string
	samples                          []interface{}
	terms, blocks, instrs, forks     int
	merges, queries, sat, unsat, unk int
	oneshot                          int
	solverT                          time.Duration
	dropped                          []string
	knownSeen                        map[string]bool
}

func cmdCheck(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("property", "", "")
	tier := fl.String("tier", "", "")
	repo := fl.String("repo", "/repo", "")
	verif := fl.String("verif", "", "")
	only := fl.String("only", "", "one harness")
	fl.IntVar(&verbose, "v", 0, "")
	par := fl.Int("par", 8, "")
	keep := fl.Bool("keep", false, "keep scratch")
	fl.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	if *verif == "" {
		*verif, _ = os.Getwd()
	}
	start := time.Now()
	c := &checker{prop: *prop, tier: *tier, verif: *verif, repo: *repo, sums: map[string]*harnessSum{}, funcs: map[string]bool{}, bins: map[string]string{}, binErr: map[string]string{}, confirmed: map[string]bool{}, tried: map[string]int{}, byName: map[string]*HarnessDef{}, knownSeen: map[string]bool{}}
	c.cond = sync.NewCond(&c.mu)
	c.self, _ = os.Executable()
	budget := 480 * time.Second
	if *tier == "thorough" {
		budget = 2700 * time.Second
		c.cross = true
	}
	if v := os.Getenv("VERIF_BUDGET"); v != "" {
		n, _ := strconv.Atoi(v)
		budget = time.Duration(n) * time.Second
	}
	c.deadline = start.Add(budget)
	c.known = readKnown(filepath.Join(*verif, "KNOWN_FINDINGS"))
	tmp, err := os.MkdirTemp("", "verif-c")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	if !*keep {
		defer os.RemoveAll(tmp)
	} else {
		fmt.Println("scratch:", tmp)
	}
	c.tmp = tmp
	c.scratch = filepath.Join(tmp, "m")
	if err := buildScratch(*repo, *verif, c.scratch); err != nil {
		fmt.Println("error: cannot prepare the sources:", err)
		return 2
	}
	defs, err := harnessDefs(filepath.Join(*verif, "harness"))
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	for _, d := range defs {
		mine := false
		for _, p := range strings.Fields(d.Prop) {
			mine = mine || p == *prop
		}
		if mine && (*only == "" || d.Name == *only) {
			if d.Opts["tier"] == "thorough" && *tier != "thorough" {
				continue
			}
			c.defs = append(c.defs, d)
		}
	}
	if len(c.defs) == 0 {
		fmt.Println("error: no harness for", *prop)
		return 2
	}
	c.pruneBroken()
	if len(c.defs) == 0 {
		fmt.Println("error: no harness of", *prop, "fits the current sources:", strings.Join(c.dropped, "; "))
		return 2
	}
	for _, d := range c.defs {
		c.byName[d.Name] = d
		c.sums[d.Name] = &harnessSum{Name: d.Name, What: d.Comment, Undecided: map[string]int{}, Incomplete: map[string]int{}, reached: map[string]bool{}, asserts: map[string]int{}}
		c.push(Job{Harness: d.Name, Cases: map[string]int{}})
	}
	c.buildReplay()
	var wg sync.WaitGroup
	for i := 0; i < *par; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			c.worker(i)
		}(i)
	}
	wg.Wait()
	c.finishReports(start)
	if len(c.violations) > 0 {
		return 1
	}
	return 0
}

func (c *checker) push(j Job) {
	if c.spent == nil {
		c.spent = map[string]time.Duration{}
	}
	c.queue = append(c.queue, j)
	c.pending++
	c.cond.Signal()
}

// pruneBroken drops harness files that do not compile against the current sources.
func (c *checker) pruneBroken() {
	for try := 0; try < 10; try++ {
		pk := map[string]bool{}
		for _, d := range c.defs {
			pk["./"+d.Dir] = true
		}
		if len(pk) == 0 {
			return
		}
		cmd := exec.Command("go", append([]string{"build", "-o", "/dev/null", "-gcflags=-e"}, sortedKeys(pk)...)...)
		cmd.Dir = c.scratch
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err == nil {
			return
		}
		bad := map[string]bool{}
		re := regexp.MustCompile(`(?m)^(?:\./)?(\S+\.go):\d+`)
		for _, m := range re.FindAllStringSubmatch(string(out), -1) {
			p := filepath.ToSlash(m[1])
			if strings.HasPrefix(filepath.Base(p), "zz_") {
				bad[p] = true
			}
		}
		if len(bad) == 0 {
			fmt.Println("error: the current sources do not compile:", string(out))
			os.RemoveAll(c.tmp)
			os.Exit(2)
		}
		for p := range bad {
			names := funcNames(filepath.Join(c.scratch, p))
			os.Remove(filepath.Join(c.scratch, p))
			c.dropped = append(c.dropped, p+" does not fit the current sources")
			var ds []*HarnessDef
			for _, d := range c.defs {
				if d.Dir == filepath.ToSlash(filepath.Dir(p)) && names[d.Name] {
					continue
				}
				ds = append(ds, d)
			}
			c.defs = ds
		}
		fmt.Fprintln(os.Stderr, string(out))
	}
}

func funcNames(p string) map[string]bool {
	out := map[string]bool{}
	f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
	if err != nil {
		return out
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			out[fd.Name.Name] = true
		}
	}
	return out
}

// buildReplay compiles one native replay binary per harness package.
func (c *checker) buildReplay() {
	dirs := map[string][]*HarnessDef{}
	for _, d := range c.defs {
		dirs[d.Dir] = append(dirs[d.Dir], d)
	}
	i := 0
	for dir, ds := range dirs {
		i++
		name := "main"
		fs, _ := filepath.Glob(filepath.Join(c.scratch, dir, "zz_*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			if a, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.PackageClauseOnly); err == nil {
				name = a.Name.Name
			}
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\tzzvrt %q\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tzzvrt.Main(map[string]func(){\n", name, modPath+"/zzverif/vrt")
		for _, d := range ds {
			fmt.Fprintf(&b, "\t\t%q: %s,\n", d.Name, d.Name)
		}
		fmt.Fprintf(&b, "\t})\n}\n")
		os.WriteFile(filepath.Join(c.scratch, dir, "zz_replay_test.go"), b.Bytes(), 0644)
		bin := filepath.Join(c.tmp, fmt.Sprintf("replay%d", i))
		c.bins[dir] = bin
		c.binWG.Add(1)
		go func(dir, bin string) {
			defer c.binWG.Done()
			cmd := exec.Command("go", "test", "-c", "-vet=off", "-trimpath", "-o", bin, "./"+dir)
			cmd.Dir = c.scratch
			cmd.Env = goEnv()
			if out, err := cmd.CombinedOutput(); err != nil {
				c.mu.Lock()
				c.binErr[dir] = string(out)
				c.mu.Unlock()
			}
		}(dir, bin)
	}
}

func (c *checker) startWorker() (*workerProc, error) {
	var names []string
	for _, d := range c.defs {
		names = append(names, d.Name)
	}
	args := []string{"worker", "-scratch", c.scratch, "-verif", c.verif, "-tier", c.tier, "-harnesses", strings.Join(names, ",")}
	if c.cross {
		args = append(args, "-cross")
	}
	w := &workerProc{}
	w.cmd = exec.Command(c.self, args...)
	w.cmd.Env = append(goEnv(), "TMPDIR="+c.tmp)
	w.cmd.Stderr = &w.err
	in, err := w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.in, w.out = bufio.NewWriter(in), bufio.NewReaderSize(out, 1<<20)
	return w, w.cmd.Start()
}

func (w *workerProc) kill() {
	if w != nil && w.cmd.Process != nil {
		w.cmd.Process.Kill()
		w.cmd.Wait()
	}
}

func (c *checker) worker(id int) {
	var w *workerProc
	defer func() { w.kill() }()
	for {
		c.mu.Lock()
		for len(c.queue) == 0 && c.pending > 0 && !c.stop {
			c.cond.Wait()
		}
		if c.stop || len(c.queue) == 0 {
			c.cond.Broadcast()
			c.mu.Unlock()
			return
		}
		j := c.next()
		begun := time.Now()
		c.spent[j.Harness] += time.Second // while it runs
		c.mu.Unlock()
		left := int(time.Until(c.deadline).Seconds())
		def := c.byName[j.Harness]
		lim := def.optT("limit", c.tier, 150)
		if c.tier == "thorough" {
			lim = def.optT("limit", c.tier, 900)
		}
		if left < lim {
			lim = left
		}
		var r *RunResult
		if lim < 2 {
			r = &RunResult{Harness: j.Harness, Cases: j.Cases, TimedOut: true, Incomplete: map[string]int{"not started: time budget used up": 1}}
		} else {
			j.Limit = lim
			if w == nil {
				var err error
				w, err = c.startWorker()
				if err != nil {
					r = &RunResult{Harness: j.Harness, Cases: j.Cases, Error: err.Error()}
					w = nil
				}
			}
			if w != nil {
				r = w.do(j)
				if r.Error != "" || r.Recycle {
					if r.Error != "" && w.err.Len() > 0 {
						s := w.err.String()
						if len(s) > 2000 {
							s = s[len(s)-2000:]
						}
						fmt.Fprintln(os.Stderr, s)
					}
					w.kill()
					w = nil
				}
			}
		}
		r.Harness, r.Cases = j.Harness, j.Cases
		c.mu.Lock()
		c.spent[j.Harness] += time.Since(begun) - time.Second
		c.mu.Unlock()
		c.handle(r)
	}
}

// next takes a job of the harness which had the least time so far: one whose paths explode does not keep the others
// from being decided.
func (c *checker) next() Job {
	at := 0
	for i, j := range c.queue {
		if c.spent[j.Harness] < c.spent[c.queue[at].Harness] {
			at = i
		}
	}
	j := c.queue[at]
	c.queue = append(c.queue[:at], c.queue[at+1:]...)
	return j
}

func (w *workerProc) do(j Job) *RunResult {
	b, _ := json.Marshal(j)
	w.in.Write(append(b, '\n'))
	w.in.Flush()
	type res struct {
		b   []byte
		err error
	}
	ch := make(chan res, 1)
	go func() {
		l, err := w.out.ReadBytes('\n')
		ch <- res{l, err}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			return &RunResult{Error: "worker ended: " + x.err.Error()}
		}
		r := &RunResult{}
		if err := json.Unmarshal(x.b, r); err != nil {
			return &RunResult{Error: err.Error()}
		}
		return r
	case <-time.After(time.Duration(j.Limit+60) * time.Second):
		w.cmd.Process.Kill()
		<-ch
		return &RunResult{Error: "worker overran its time limit", TimedOut: true}
	}
}

func (c *checker) handle(r *RunResult) {
	c.mu.Lock()
	if r.Split != nil {
		for v := r.Split.Lo; v <= r.Split.Hi; v++ {
			k := copyCases(r.Cases)
			k[r.Split.Name] = v
			c.push(Job{Harness: r.Harness, Cases: k})
		}
		c.pending--
		c.cond.Broadcast()
		c.mu.Unlock()
		return
	}
	s := c.sums[r.Harness]
	s.Cases++
	if r.TimedOut || r.Error != "" {
		s.CasesLost++
	}
	if r.Error != "" {
		s.Incomplete["engine: "+r.Error]++
	}
	s.Paths += r.Paths
	if r.Inputs > s.Inputs {
		s.Inputs = r.Inputs
	}
	s.Obligations += r.Obligations
	s.Trivial += r.Trivial
	s.Discharged += r.Discharged
	for k, v := range r.Undecided {
		s.Undecided[k] += v
	}
	for k, v := range r.Incomplete {
		s.Incomplete[k] += v
	}
	for k, v := range r.Asserts {
		s.asserts[k] += v
	}
	for k, v := range r.Reached {
		if v {
			s.reached[k] = true
		}
	}
	s.Queries += r.Solver.Queries + r.Solver.OneShot
	s.SolverS += r.Solver.Time.Seconds()
	s.WallS += r.Wall
	for _, f := range r.Funcs {
		if !strings.Contains(f, "/zzh/") && !strings.Contains(f, "zzverif") {
			c.funcs[strings.ReplaceAll(f, modPath, "bbs")] = true
		}
	}
	c.queries += r.Solver.Queries
	c.oneshot += r.Solver.OneShot
	c.sat += r.Solver.Sat
	c.unsat += r.Solver.Unsat
	c.unk += r.Solver.Unknown
	c.solverT += r.Solver.Time
	c.terms += r.Terms
	c.blocks += r.Blocks
	c.instrs += r.Instrs
	c.forks += r.Forks
	c.merges += r.Merges
	maxWit := 24
	if c.tier == "thorough" {
		maxWit = 120
	}
	nw := maxWit - s.nWit
	if nw > 4 && s.nWit > 8 {
		nw = 4
	}
	if nw > len(r.Witnesses) {
		nw = len(r.Witnesses)
	}
	if nw < 0 {
		nw = 0
	}
	s.nWit += nw
	c.mu.Unlock()

	c.binWG.Wait()
	for _, v := range append(append([]Violation(nil), r.Violations...), r.Bounds...) {
		c.candidate(r.Harness, v)
	}
	for i := 0; i < nw; i++ {
		c.witness(r.Harness, r.Witnesses[len(r.Witnesses)*i/nw])
	}
	c.mu.Lock()
	c.pending--
	c.cond.Broadcast()
	c.mu.Unlock()
}

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Label    string            `json:"label,omitempty"`
	Kind     string            `json:"kind,omitempty"`
	Message  string            `json:"message,omitempty"`
	Inputs   map[string]uint64 `json:"inputs"`
	Cases    map[string]int    `json:"cases"`
	Thorough bool              `json:"thorough"`
	Output   string            `json:"native_output,omitempty"`
}

// replay runs the inputs natively; returns the output and whether it hung.
func (c *checker) replay(harness string, rf *replayFile) (string, bool, error) {
	def := c.byName[harness]
	bin := c.bins[def.Dir]
	c.mu.Lock()
	be := c.binErr[def.Dir]
	c.mu.Unlock()
	if be != "" {
		return "", false, fmt.Errorf("replay binary: %s", be)
	}
	d, err := os.MkdirTemp(c.tmp, "r")
	if err != nil {
		return "", false, err
	}
	defer os.RemoveAll(d)
	b, _ := json.Marshal(rf)
	f := filepath.Join(d, "in.json")
	os.WriteFile(f, b, 0644)
	rt := filepath.Join(d, "root")
	os.Mkdir(rt, 0755)
	run := func(to time.Duration) (string, bool, error) {
		os.RemoveAll(rt)
		os.Mkdir(rt, 0755)
		ctx, cancel := context.WithTimeout(context.Background(), to)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "0")
		cmd.Dir = rt
		cmd.Env = append(goEnv(), "VERIF_REPLAY="+f, "VERIF_ROOT="+rt, "TZ=", "GOMEMLIMIT=2GiB", "GOMAXPROCS=2")
		lim := &capWriter{max: 1 << 20}
		cmd.Stdout, cmd.Stderr = lim, lim
		err := cmd.Run()
		return lim.String(), ctx.Err() != nil, err
	}
	out, hung, err := run(10 * time.Second)
	if hung { // be sure it is not the load of the machine
		out, hung, err = run(30 * time.Second)
	}
	return out, hung, err
}

type capWriter struct {
	mu  sync.Mutex
	b   bytes.Buffer
	max int
}

func (w *capWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n := w.max - w.b.Len(); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		w.b.Write(p[:n])
	}
	return len(p), nil
}
func (w *capWriter) String() string { return w.b.String() }

var failRE = regexp.MustCompile(`(?m)^VERIF-ASSERT-FAIL (.*)$`)

// candidate replays a solver counterexample and reports it when the real code shows it.
func (c *checker) candidate(harness string, v Violation) {
	key := harness + "|" + v.Label + "|" + v.Kind
	if v.Kind == "panic" {
		key += "|" + v.Pos
	}
	c.mu.Lock()
	if c.confirmed[key] || c.tried[key] >= 6 {
		c.mu.Unlock()
		return
	}
	c.tried[key]++
	c.mu.Unlock()
	rf := &replayFile{Property: c.prop, Harness: harness, Label: v.Label, Kind: v.Kind, Message: v.Msg + " " + v.Pos, Inputs: v.Inputs, Cases: v.Cases, Thorough: c.tier == "thorough"}
	out, hung, _ := c.replay(harness, rf)
	var labels []string
	for _, m := range failRE.FindAllStringSubmatch(out, -1) {
		labels = append(labels, strings.TrimSpace(m[1]))
	}
	if hung {
		labels = append(labels, "termination")
	}
	pan := ""
	if i := strings.Index(out, "VERIF-PANIC "); i >= 0 {
		pan = strings.SplitN(out[i:], "\n", 2)[0]
		labels = append(labels, "no-panic")
	} else if strings.Contains(out, "fatal error: ") || strings.Contains(out, "unexpected fault address") {
		labels = append(labels, "no-panic")
		pan = "fatal error"
	}
	ok := false
	for _, l := range labels {
		if l == v.Label {
			ok = true
		}
	}
	// a different failure of the same run is a reproduction too
	lab := v.Label
	if !ok && len(labels) > 0 {
		ok = true
		lab = labels[0]
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if !ok {
		if strings.Contains(out, "VERIF-OK") || strings.Contains(out, "VERIF-ASSUME-FAIL") || v.Kind != "nonterm" {
			d := fmt.Sprintf("%s %s %s %s", v.Kind, v.Label, v.Pos, v.Msg)
			s := c.sums[harness]
			if len(s.Unrepro) < 10 {
				s.Unrepro = append(s.Unrepro, strings.TrimSpace(d))
			}
			if verbose > 0 {
				b, _ := json.Marshal(rf)
				if len(out) > 1500 {
					out = out[:1500]
				}
				fmt.Fprintf(os.Stderr, "[not reproduced: %s %s\n%s\n%s]\n", harness, d, b, out)
			}
		}
		return
	}
	if c.confirmed[key] {
		return
	}
	c.confirmed[key] = true
	for _, k := range c.known {
		if k.property == c.prop && k.harness == harness && k.label == lab {
			if !k.hit {
				k.hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.what)
			}
			return
		}
	}
	dir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.prop, harness, len(c.violations)+1))
	if len(out) > 4000 {
		out = out[:4000]
	}
	rf.Output = out
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(p, b, 0644)
	msg := lab
	if pan != "" && lab == "no-panic" {
		msg += " " + pan
	}
	c.violations = append(c.violations, fmt.Sprintf("%s: %s %s", harness, v.Kind, msg))
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, p)
	fmt.Printf("  harness %s: %s %s\n", harness, msg, v.Pos)
	// one confirmed violation decides the check
	c.stop = true
	c.cond.Broadcast()
}

// witness replays a model of a complete path and compares what both sides observed.
func (c *checker) witness(harness string, w Witness) {
	rf := &replayFile{Property: c.prop, Harness: harness, Inputs: w.Inputs, Cases: w.Cases, Thorough: c.tier == "thorough"}
	out, hung, err := c.replay(harness, rf)
	if strings.Contains(out, "unexpected fault address") {
		// memory which is no longer mapped has no contents in the encoding; the real code touched it
		c.candidate(harness, Violation{Kind: "fault", Label: "no-panic", Msg: "touches memory that is not mapped", Inputs: w.Inputs, Cases: w.Cases})
		return
	}
	bad := ""
	switch {
	case hung:
		bad = "native run hung"
	case strings.Contains(out, "VERIF-ERROR"):
		bad = "replay error: " + out
	case strings.Contains(out, "VERIF-ASSUME-FAIL"):
		bad = "an assumption fails natively"
	case strings.Contains(out, "VERIF-ASSERT-FAIL"):
		// the native run fails an assertion the encoding holds for this input: report it like a counterexample
		m := failRE.FindStringSubmatch(out)
		bad = "native assertion failure " + m[1]
	case strings.Contains(out, "VERIF-PANIC"):
		bad = "native panic " + out
	case !strings.Contains(out, "VERIF-OK"):
		bad = fmt.Sprint("no verdict: ", err, out)
	default:
		var got []Obs
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "VERIF-OBS ") {
				var o Obs
				json.Unmarshal([]byte(l[len("VERIF-OBS "):]), &o)
				got = append(got, o)
			}
		}
		if w.Obs != nil {
			gm := map[string]string{}
			for _, o := range got {
				gm[o.Name] = o.Val
			}
			for _, o := range w.Obs {
				if g, ok := gm[o.Name]; !ok || g != o.Val {
					bad = fmt.Sprintf("observation %s: encoding %s, native %s", o.Name, o.Val, g)
					break
				}
			}
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	s := c.sums[harness]
	if bad != "" {
		if len(bad) > 400 {
			bad = bad[:400]
		}
		if len(s.Mismatch) < 5 {
			s.Mismatch = append(s.Mismatch, bad)
		}
		if verbose > 0 {
			b, _ := json.Marshal(rf)
			fmt.Fprintf(os.Stderr, "[witness mismatch %s: %s\n%s]\n", harness, bad, b)
		}
		return
	}
	s.Replayed++
	if s.Replayed <= 2 && len(c.samples) < 12 {
		in := map[string]uint64{}
		ks := []string{}
		for k := range w.Inputs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			if i < 24 {
				in[k] = w.Inputs[k]
			}
		}
		c.samples = append(c.samples, map[string]interface{}{"harness": harness, "cases": w.Cases, "inputs": in, "inputs_total": len(ks), "observed": w.Obs})
	}
}

func (c *checker) finishReports(start time.Time) {
	var hs []*harnessSum
	obl, dis, val, lost := 0, 0, 0, 0
	vac := []string{}
	for _, d := range c.defs {
		s := c.sums[d.Name]
		for l := range s.asserts {
			s.Asserts = append(s.Asserts, l)
			if !s.reached[l] {
				s.Unreached = append(s.Unreached, l)
			}
		}
		sort.Strings(s.Asserts)
		sort.Strings(s.Unreached)
		if len(s.Asserts) == 0 {
			vac = append(vac, d.Name+" reached no assertion")
		}
		obl += s.Obligations
		dis += s.Discharged
		val += s.Replayed
		lost += s.CasesLost
		if len(s.Undecided) == 0 {
			s.Undecided = nil
		}
		if len(s.Incomplete) == 0 {
			s.Incomplete = nil
		}
		hs = append(hs, s)
	}
	as := []string{
		"file system, clock, randomness, process exit and log output are replaced by the stubs in /verif/shim (bounded by the harness assumptions); fmt, errors, sort.Slice and Big5 conversion by models in /verif/shim/vstd and the engine",
		"bounds (sizes, case ranges, loop limits, character sets) are those written in the harness sources under /verif/harness; nothing outside them is claimed",
		"single goroutine; machine integers are bit-vectors of their Go width on amd64",
	}
	for _, d := range c.dropped {
		as = append(as, "dropped: "+d)
	}
	cov := map[string]interface{}{
		"states": c.blocks, "transitions": c.instrs, "traces_validated_against_impl": val, "samples": c.samples,
		"obligations": obl, "discharged": dis,
		"functions_encoded":  sortedKeys(c.funcs),
		"harnesses":          hs,
		"queries":            map[string]interface{}{"total": c.queries, "sat": c.sat, "unsat": c.unsat, "unknown": c.unk, "one_shot": c.oneshot, "solver_s": round2(c.solverT.Seconds())},
		"symbolic":           map[string]int{"basic_blocks": c.blocks, "instructions": c.instrs, "forks": c.forks, "merges": c.merges, "terms": c.terms},
		"cases_not_finished": lost,
		"vacuity":            vac,
		"explanation":        "states = basic blocks executed symbolically, transitions = SSA instructions executed symbolically; each assertion is decided for all inputs within the harness bounds by the solver; a path through unsupported code or past a bound is listed under outside_the_claim",
	}
	if c.samples == nil {
		cov["samples"] = []interface{}{}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": as,
		"wall_s": round2(time.Since(start).Seconds()), "violations": len(c.violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(b, '\n'), 0644)
	for _, s := range hs {
		fmt.Printf("%s %-28s cases %d paths %d obligations %d discharged %d queries %d solver %.1fs replayed %d", c.prop, s.Name, s.Cases, s.Paths, s.Obligations, s.Discharged, s.Queries, s.SolverS, s.Replayed)
		if s.CasesLost > 0 {
			fmt.Printf(" UNFINISHED %d", s.CasesLost)
		}
		if len(s.Undecided) > 0 {
			fmt.Printf(" undecided %v", s.Undecided)
		}
		if len(s.Incomplete) > 0 {
			fmt.Printf(" outside %v", s.Incomplete)
		}
		if len(s.Unreached) > 0 {
			fmt.Printf(" unreached %v", s.Unreached)
		}
		if len(s.Mismatch) > 0 {
			fmt.Printf(" MISMATCH %v", s.Mismatch)
		}
		if len(s.Unrepro) > 0 {
			fmt.Printf(" unreproduced %v", s.Unrepro)
		}
		fmt.Println()
	}
	for _, d := range c.dropped {
		fmt.Println("dropped:", d)
	}
	fmt.Printf("%s %s: %d obligations, %d discharged, %d queries, %.1fs solver, %.1fs wall, %d violations\n", c.prop, c.tier, obl, dis, c.queries, c.solverT.Seconds(), time.Since(start).Seconds(), len(c.violations))
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
