package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Harness is one function to explore.
type Harness struct {
	name    string
	pkg     string
	props   []string
	opts    Options
	fn      *ssa.Function
	nsample int
	bounds  string // the doc comment: what is covered
	tiers   map[string]bool
	reach   []string
	noval   bool // outputs may legitimately differ natively (map order, random numbers)
}

var swaps = map[string]string{
	"time":      "trypo/zzverif/shim/time",
	"sync":      "trypo/zzverif/shim/sync",
	"net/rpc":   "trypo/zzverif/shim/rpc",
	"math/rand": "trypo/zzverif/shim/rand",
	"net/http":  "trypo/zzverif/shim/http",
	"net":       "trypo/zzverif/shim/net",

	"sync/atomic": "trypo/zzverif/shim/atomic",
}

// Loaded is the repository with the harness packages laid over it.
type Loaded struct {
	*Program
	pkgs      []*packages.Package
	harnesses []*Harness
	repo      string
	hdir      string
	overlay   map[string][]byte
	fset      *token.FileSet
}

func repoFiles(repo string) ([]string, error) {
	var fs []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "vendor" || n == "testdata" || n == "zzverif") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			fs = append(fs, p)
		}
		return nil
	})
	return fs, err
}

// swapImports rewrites the import paths of a file in place.
func swapImports(name string, src []byte, keep map[string]bool) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ImportsOnly)
	if err != nil {
		return src
	}
	type ed struct {
		at, end int
		s       string
	}
	var eds []ed
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if to, ok := swaps[p]; ok && !keep[p] {
			eds = append(eds, ed{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, strconv.Quote(to)})
		}
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].at > eds[j].at })
	out := src
	for _, e := range eds {
		out = append(append(append([]byte{}, out[:e.at]...), e.s...), out[e.end:]...)
	}
	return out
}

// overlayFor lists the files laid over the repository.
func overlayFor(repo, hdir string, keep map[string]bool) (map[string][]byte, error) {
	ov := map[string][]byte{}
	fs, err := repoFiles(repo)
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		o := swapImports(f, b, keep)
		if !bytes.Equal(o, b) {
			ov[f] = o
		}
	}
	err = filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(hdir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if !strings.HasPrefix(rel, "shim/") && !strings.HasPrefix(rel, "sym/") {
			b = swapImports(p, b, keep)
		}
		ov[filepath.Join(repo, "zzverif", rel)] = b
		return nil
	})
	return ov, err
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "GOTOOLCHAIN", "GO111MODULE", "GOSUMDB", "PWD":
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

func load(repo, hdir string, pkgNames []string) (*Loaded, error) {
	ov, err := overlayFor(repo, hdir, nil)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo, Env: goEnv(), Overlay: ov, Fset: fset,
	}
	var pats []string
	for _, p := range pkgNames {
		pats = append(pats, "trypo/zzverif/"+p)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("loading failed:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	L := &Loaded{Program: &Program{prog: prog}, pkgs: pkgs, repo: repo, hdir: hdir, overlay: ov, fset: fset}
	L.sizes = types.SizesFor("gc", "amd64")
	L.errorType = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
			L.runtimeErr = o.Type()
		}
	}
	prog.Build()
	for i, p := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Doc == nil {
					continue
				}
				h := parseHarness(fd.Name.Name, fd.Doc)
				if h == nil {
					continue
				}
				h.pkg = strings.TrimPrefix(p.PkgPath, "trypo/zzverif/")
				h.fn = spkgs[i].Func(fd.Name.Name)
				L.harnesses = append(L.harnesses, h)
			}
		}
	}
	return L, nil
}

func parseHarness(name string, doc *ast.CommentGroup) *Harness {
	var h *Harness
	var text []string
	for _, c := range doc.List {
		l := strings.TrimPrefix(c.Text, "//")
		if !strings.HasPrefix(l, "sym:") {
			text = append(text, strings.TrimSpace(l))
			continue
		}
		if h == nil {
			h = &Harness{name: name, nsample: 4, tiers: map[string]bool{"quick": true, "thorough": true},
				opts: Options{preempt: -1, maxPaths: 200000, maxSteps: 3000000, timeout: 120 * time.Second, solverMS: 20000}}
		}
		for _, kv := range strings.Fields(strings.TrimPrefix(l, "sym:")) {
			k, v, _ := strings.Cut(kv, "=")
			n, _ := strconv.Atoi(v)
			switch k {
			case "prop":
				h.props = strings.Split(v, ",")
			case "mode":
				h.opts.fp = v == "fp"
			case "tiers":
				h.tiers = map[string]bool{}
				for _, t := range strings.Split(v, ",") {
					h.tiers[t] = true
				}
			case "maxpaths":
				h.opts.maxPaths = n
			case "steps":
				h.opts.maxSteps = n
			case "preempt":
				h.opts.preempt = n
			case "race":
				h.opts.race = n == 1
			case "por":
				h.opts.por = n == 1
			case "order":
				h.opts.fixedOrder = n == 0
			case "maporder":
				h.opts.mapOrd = n == 0
			case "timeout":
				h.opts.timeout = time.Duration(n) * time.Second
			case "solver":
				h.opts.solverMS = n * 1000
			case "samples":
				h.nsample = n
			case "noval":
				h.noval = n == 1
			case "reach":
				h.reach = strings.Split(v, ",")
			default:
				panic("unknown harness option " + k)
			}
		}
	}
	if h != nil {
		h.bounds = strings.Join(text, " ")
	}
	return h
}
