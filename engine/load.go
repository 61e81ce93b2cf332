package main

// Building the scratch module (repository sources with the environment replaced by shims, harnesses,
// runtime) and loading it as SSA.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Ptt-official-app/go-bbs"

// shims: import path -> shim package (under zzverif/).
var shimFor = map[string]string{
	"os":        "vos",
	"io/ioutil": "vos",
	"time":      "vtime",
	"math/rand": "vrand",
	"log":       "vlog",

	"golang.org/x/sys/unix": "vunix",
	"syscall":               "vsyscall",

	"fmt":                       "vfmt",
	"flag":                      "vflag",
	"encoding/json":             "vjson",
	"net/http":                  "vhttp",
	"github.com/golang-jwt/jwt": "vjwt",

	"github.com/Ptt-official-app/go-bbs/crypt": "vcrypt",
}

type HarnessDef struct {
	Name    string // function name
	Prop    string
	Dir     string // package directory relative to the module root
	Pkg     string // package import path
	Opts    map[string]string
	Comment string
}

func (h *HarnessDef) opt(k string, def int) int {
	if v, ok := h.Opts[k]; ok {
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	}
	return def
}

// optT looks for k.<tier> first.
func (h *HarnessDef) optT(k, tier string, def int) int {
	return h.opt(k+"."+tier, h.opt(k, def))
}

// harnessDefs parses the //verif: directives of all harness files.
func harnessDefs(root string) ([]*HarnessDef, error) {
	var out []*HarnessDef
	err := filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		for _, dd := range f.Decls {
			fd, ok := dd.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			h := &HarnessDef{Name: fd.Name.Name, Dir: rel, Opts: map[string]string{}}
			h.Pkg = modPath
			if rel != "." {
				h.Pkg += "/" + rel
			}
			var txt []string
			for _, c := range fd.Doc.List {
				t := strings.TrimPrefix(c.Text, "//")
				if strings.HasPrefix(t, "verif:prop ") {
					h.Prop = strings.TrimSpace(t[len("verif:prop "):])
				} else if strings.HasPrefix(t, "verif:opts ") {
					for _, kv := range strings.Fields(t[len("verif:opts "):]) {
						if i := strings.Index(kv, "="); i > 0 {
							h.Opts[kv[:i]] = kv[i+1:]
						}
					}
				} else {
					txt = append(txt, strings.TrimSpace(t))
				}
			}
			h.Comment = strings.Join(txt, " ")
			if h.Prop != "" {
				out = append(out, h)
			}
		}
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	for i := 1; i < len(out) && err == nil; i++ {
		// a harness is chosen by its name
		if out[i].Name == out[i-1].Name {
			err = fmt.Errorf("two harnesses are called %s", out[i].Name)
		}
	}
	return out, err
}

// shimExports lists the exported package-level names of a shim.
func shimExports(dir string) (map[string]bool, error) {
	out := map[string]bool{}
	fset := token.NewFileSet()
	ps, err := parser.ParseDir(fset, dir, nil, 0)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					if x.Recv == nil && x.Name.IsExported() {
						out[x.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range x.Specs {
						switch y := s.(type) {
						case *ast.TypeSpec:
							if y.Name.IsExported() {
								out[y.Name.Name] = true
							}
						case *ast.ValueSpec:
							for _, n := range y.Names {
								if n.IsExported() {
									out[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return out, nil
}

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(dst), 0755)
	return os.WriteFile(dst, b, 0644)
}

// buildScratch writes the module to analyse into dir.
func buildScratch(repo, verif, dir string) error {
	exports := map[string]map[string]bool{}
	for _, s := range shimFor {
		e, err := shimExports(filepath.Join(verif, "shim", s))
		if err != nil {
			return err
		}
		exports[s] = e
	}
	err := filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			n := d.Name()
			if rel != "." && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "node_modules" || n == "testcase") {
				return filepath.SkipDir
			}
			return nil
		}
		n := d.Name()
		if n == "go.mod" || n == "go.sum" {
			return copyFile(filepath.Join(dir, rel), p)
		}
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			return nil
		}
		out, err := rewriteFile(p, exports)
		if err != nil {
			return fmt.Errorf("%s: %v", rel, err)
		}
		dst := filepath.Join(dir, rel)
		os.MkdirAll(filepath.Dir(dst), 0755)
		return os.WriteFile(dst, out, 0644)
	})
	if err != nil {
		return err
	}
	// shims
	sh := filepath.Join(verif, "shim")
	err = filepath.WalkDir(sh, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(sh, p)
		return copyFile(filepath.Join(dir, "zzverif", rel), p)
	})
	if err != nil {
		return err
	}
	// harnesses
	hd := filepath.Join(verif, "harness")
	return filepath.WalkDir(hd, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(hd, p)
		dst := filepath.Join(dir, filepath.Dir(rel), "zz_"+filepath.Base(rel))
		return copyFile(dst, p)
	})
}

type edit struct {
	off, end int
	txt      string
}

// rewriteFile redirects selectors of shimmed packages (os.Open -> vos.Open ...), keeping every line in place.
func rewriteFile(path string, exports map[string]map[string]bool) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	// local name -> import spec
	type imp struct {
		spec *ast.ImportSpec
		shim string
		path string
	}
	imps := map[string]imp{}
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		sh, ok := shimFor[p]
		if !ok {
			continue
		}
		name := p[strings.LastIndex(p, "/")+1:]
		if s.Name != nil {
			name = s.Name.Name
		}
		imps[name] = imp{s, sh, p}
	}
	if len(imps) == 0 {
		return src, nil
	}
	var edits []edit
	used := map[string]bool{}
	keep := map[string]string{} // local import name -> a selector to keep it used
	rest := map[string]bool{}   // local import names with selectors that stay
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		im, ok := imps[id.Name]
		if !ok {
			return true
		}
		if exports[im.shim][se.Sel.Name] {
			o := fset.Position(id.Pos()).Offset
			edits = append(edits, edit{o, o + len(id.Name), "zz" + im.shim})
			used[im.shim] = true
			keep[id.Name] = im.path
		} else {
			rest[id.Name] = true
		}
		return true
	})
	if len(edits) == 0 {
		return src, nil
	}
	for n := range keep {
		if !rest[n] { // nothing is left of this import
			sp := imps[n].spec
			edits = append(edits, edit{fset.Position(sp.Pos()).Offset, fset.Position(sp.Path.End()).Offset, `_ "unsafe"`})
			delete(keep, n)
		}
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b bytes.Buffer
	pos := 0
	// imports go on the package line so that line numbers stay
	pe := fset.Position(f.Name.End()).Offset
	b.Write(src[:pe])
	var us []string
	for u := range used {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		fmt.Fprintf(&b, "; import zz%s %q", u, modPath+"/zzverif/"+u)
	}
	pos = pe
	for _, e := range edits {
		b.Write(src[pos:e.off])
		b.WriteString(e.txt)
		pos = e.end
	}
	b.Write(src[pos:])
	anchor := map[string]string{"os": "var _ = %s.ErrExist", "io/ioutil": "var _ = %s.Discard", "time": "var _ %s.Duration", "math/rand": "var _ *%s.Rand", "log": "var _ *%s.Logger", "golang.org/x/sys/unix": "var _ = %s.PROT_READ", "syscall": "var _ = %s.EINVAL", "fmt": "var _ = %s.Sprint", "flag": "var _ = %s.ErrHelp", "encoding/json": "var _ = %s.Valid", "net/http": "var _ = %s.NewRequest", "github.com/golang-jwt/jwt": "var _ = %s.DecodeSegment", "github.com/Ptt-official-app/go-bbs/crypt": "var _ = %s.Fcrypt"}
	var ks []string
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "\n"+anchor[keep[k]]+"\n", k)
	}
	return b.Bytes(), nil
}

var _ = printer.Fprint

func goEnv() []string {
	env := []string{}
	for _, v := range os.Environ() {
		if strings.HasPrefix(v, "GOFLAGS=") || strings.HasPrefix(v, "GOPROXY=") || strings.HasPrefix(v, "TZ=") {
			continue
		}
		env = append(env, v)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func loadProgram(dir string, pkgs []string) (*ssa.Program, []*ssa.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
		Env:  append(goEnv(), "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, append(pkgs, modPath+"/zzverif/vstd")...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load errors: %s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	return prog, sp, nil
}

func newExec(prog *ssa.Program, tmp string) *Exec {
	e := &Exec{
		prog: prog, fns: map[*ssa.Function]*fnInfo{}, zeroCache: map[types.Type]Value{},
		root: &Heap{m: map[*Obj]Value{}}, globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]int{}, built: map[*ssa.Package]bool{},
		solver: newSolver(tmp), methods: map[string]*ssa.Function{}, typeIntr: map[string]types.Type{}, shadows: map[string]*Obj{},
		loopLimit: 600, maxIter: 200000, feasTO: 2000, modPath: modPath,
	}
	e.stats.Funcs = map[string]bool{}
	return e
}
