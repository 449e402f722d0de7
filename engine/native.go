package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Native builds and runs the harness packages with the ordinary Go compiler, so that what the engine
// predicts can be checked on the real code.
type Native struct {
	rewritten map[string][]byte
	L         *Loaded
	dir       string
	mu        sync.Mutex
	bins      map[string]string
	errs      map[string]error
	n         int
	futile    atomic.Int64 // nanoseconds spent on replays that showed nothing
}

func newNative(L *Loaded, dir string) *Native {
	return &Native{L: L, dir: dir, bins: map[string]string{}, errs: map[string]error{}}
}

// bin builds the replay program of one harness package. Mode is "ctl" (controlled scheduling) or "free" (race detector).
func (n *Native) bin(pkg, mode string) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	key := pkg + "." + mode
	if b, ok := n.bins[key]; ok {
		return b, n.errs[key]
	}
	b, err := n.build(pkg, mode)
	n.bins[key] = b
	n.errs[key] = err
	return b, err
}

func (n *Native) build(pkg, mode string) (string, error) {
	var ov map[string][]byte
	var err error
	if mode == "free" {
		ov, err = overlayFor(n.L.repo, n.L.hdir, map[string]bool{"sync": true, "sync/atomic": true})
		if err != nil {
			return "", err
		}
	} else {
		ov = map[string][]byte{}
		for k, v := range n.L.overlay {
			ov[k] = v
		}
		if err := n.rewrite(ov); err != nil {
			return "", err
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\th %q\n\t\"trypo/zzverif/sym\"\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", "trypo/zzverif/"+pkg)
	for _, h := range n.L.harnesses {
		if h.pkg == pkg {
			fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h.name, h.name)
		}
	}
	sb.WriteString("\t})\n}\n")
	mainDir := "zzverif/replaymain_" + strings.ReplaceAll(pkg, "/", "_")
	ov[filepath.Join(n.L.repo, mainDir, "main.go")] = []byte(sb.String())
	od := filepath.Join(n.dir, strings.ReplaceAll(pkg, "/", "_")+"_"+mode)
	if err := os.MkdirAll(od, 0755); err != nil {
		return "", err
	}
	rep := map[string]string{}
	i := 0
	for k, v := range ov {
		f := filepath.Join(od, fmt.Sprintf("f%d.go", i))
		i++
		if err := os.WriteFile(f, v, 0644); err != nil {
			return "", err
		}
		rep[k] = f
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	oj := filepath.Join(od, "overlay.json")
	os.WriteFile(oj, js, 0644)
	out := filepath.Join(od, "replay")
	args := []string{"build", "-overlay", oj, "-o", out}
	switch mode {
	case "free":
		args = append(args, "-race")
	case "ctlrace": // the scheduler and what it schedules by is not part of the program
		args = append(args, "-race")
		for _, p := range []string{"sym", "shim/sync", "shim/atomic"} {
			args = append(args, "-gcflags=trypo/zzverif/"+p+"=-race=false -l")
		}
	}
	args = append(args, "./"+mainDir)
	cmd := exec.Command("go", args...)
	cmd.Dir = n.L.repo
	cmd.Env = append(goEnv(), "CGO_ENABLED=1")
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("native build of %s (%s): %v\n%s", pkg, mode, err, b)
	}
	return out, nil
}

// rewrite replaces goroutine and channel operations by calls into the controlled scheduler.
func (n *Native) rewrite(ov map[string][]byte) error {
	if n.rewritten == nil { // the syntax trees are changed, so this works only once
		n.rewritten = map[string][]byte{}
		if err := n.rewriteAll(n.rewritten); err != nil {
			return err
		}
	}
	for k, v := range n.rewritten {
		ov[k] = v
	}
	return nil
}

func (n *Native) rewriteAll(ov map[string][]byte) error {
	seen := map[string]bool{}
	var err error
	visitPkgs(n.L.pkgs, func(path string, files []*ast.File, info *types.Info) {
		if !strings.HasPrefix(path, "trypo/") || strings.HasPrefix(path, "trypo/zzverif/sym") || seen[path] {
			return
		}
		seen[path] = true
		for _, f := range files {
			name := n.L.fset.Position(f.Pos()).Filename
			rw := &rewriter{info: info}
			rw.file(f)
			if !rw.changed {
				continue
			}
			addImport(f, "zzsym", "trypo/zzverif/sym")
			f.Comments = nil
			var buf bytes.Buffer
			if e := format.Node(&buf, n.L.fset, f); e != nil {
				err = e
				return
			}
			ov[name] = append([]byte("//go:build go1.18\n\n"), buf.Bytes()...)
		}
	})
	return err
}

func addImport(f *ast.File, name, path string) {
	d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}}}
	f.Decls = append([]ast.Decl{d}, f.Decls...)
}

type rewriter struct {
	info    *types.Info
	changed bool
	n       int
}

func (r *rewriter) file(f *ast.File) {
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				r.block(x.Body)
			}
		case *ast.GenDecl:
			for _, s := range x.Specs {
				if vs, ok := s.(*ast.ValueSpec); ok {
					for i := range vs.Values {
						vs.Values[i] = r.expr(vs.Values[i])
					}
				}
			}
		}
	}
}

func symSel(n string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("zzsym"), Sel: ast.NewIdent(n)}
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		r.stmts(b.List)
	}
}

func (r *rewriter) stmts(l []ast.Stmt) {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
}

func (r *rewriter) tmp() *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("zz%d", r.n))
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) recv2(e ast.Expr) ast.Expr {
	if p, ok := e.(*ast.ParenExpr); ok {
		return r.recv2(p.X)
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		r.changed = true
		return &ast.CallExpr{Fun: symSel("Recv2"), Args: []ast.Expr{r.expr(u.X)}}
	}
	return nil
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		r.block(x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		r.changed = true
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: symSel("Send"), Args: []ast.Expr{r.expr(x.Chan), r.expr(x.Value)}}}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if c := r.recv2(x.Rhs[0]); c != nil {
				r.exprs(x.Lhs)
				x.Rhs[0] = c
				return x
			}
		}
		r.exprs(x.Lhs)
		r.exprs(x.Rhs)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		x.Call = r.expr(x.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.IfStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init)
		}
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else)
		}
	case *ast.CaseClause:
		r.exprs(x.List)
		r.stmts(x.Body)
	case *ast.SwitchStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init)
		}
		if x.Tag != nil {
			x.Tag = r.expr(x.Tag)
		}
		r.block(x.Body)
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init)
		}
		r.block(x.Body)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.ForStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init)
		}
		if x.Cond != nil {
			x.Cond = r.expr(x.Cond)
		}
		if x.Post != nil {
			x.Post = r.stmt(x.Post)
		}
		r.block(x.Body)
	case *ast.RangeStmt:
		if r.isChan(x.X) {
			return r.rangeChan(x)
		}
		x.X = r.expr(x.X)
		r.block(x.Body)
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					if len(vs.Names) == 2 && len(vs.Values) == 1 {
						if c := r.recv2(vs.Values[0]); c != nil {
							vs.Values[0] = c
							continue
						}
					}
					r.exprs(vs.Values)
				}
			}
		}
	}
	return s
}

func (r *rewriter) rangeChan(x *ast.RangeStmt) ast.Stmt {
	r.changed = true
	ok := r.tmp()
	ch := r.tmp()
	var k ast.Expr = ast.NewIdent("_")
	if x.Key != nil {
		k = x.Key
	}
	var pre []ast.Stmt
	call := &ast.CallExpr{Fun: symSel("Recv2"), Args: []ast.Expr{ch}}
	if x.Tok == token.DEFINE || x.Key == nil {
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{k, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call}})
	} else {
		pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{k, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{call}})
	}
	pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	r.block(x.Body)
	body := &ast.BlockStmt{List: append(pre, x.Body)}
	return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}}, Body: body}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	r.changed = true
	hasDef := "false"
	var decls []ast.Stmt
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		r.stmts(cc.Body)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
			continue
		}
		ch := r.tmp()
		var body []ast.Stmt
		define := func(e ast.Expr, id *ast.Ident) {
			decls = append(decls, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		}
		strip := func(e ast.Expr) *ast.UnaryExpr {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			return e.(*ast.UnaryExpr)
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			define(cm.Chan, ch)
			v := r.tmp()
			define(cm.Value, v)
			cases = append(cases, &ast.CallExpr{Fun: symSel("SendCase"), Args: []ast.Expr{ch}})
			body = append(body, &ast.ExprStmt{X: &ast.CallExpr{Fun: symSel("SendNow"), Args: []ast.Expr{ch, v}}})
		case *ast.ExprStmt:
			define(strip(cm.X).X, ch)
			cases = append(cases, &ast.CallExpr{Fun: symSel("RecvCase"), Args: []ast.Expr{ch}})
			body = append(body, &ast.ExprStmt{X: &ast.CallExpr{Fun: symSel("Recv"), Args: []ast.Expr{ch}}})
		case *ast.AssignStmt:
			define(strip(cm.Rhs[0]).X, ch)
			cases = append(cases, &ast.CallExpr{Fun: symSel("RecvCase"), Args: []ast.Expr{ch}})
			fn := "Recv"
			if len(cm.Lhs) == 2 {
				fn = "Recv2"
			}
			r.exprs(cm.Lhs)
			cm.Rhs = []ast.Expr{&ast.CallExpr{Fun: symSel(fn), Args: []ast.Expr{ch}}}
			body = append(body, cm)
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: append(body, cc.Body...)})
		idx++
	}
	if hasDef == "false" { // the last case is the default one, so that the statement terminates when the select does
		if n := len(sw.Body.List); n > 0 {
			sw.Body.List[n-1].(*ast.CaseClause).List = nil
		} else {
			sw.Body.List = []ast.Stmt{&ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{
				Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"blocked"`}}}}}}}
		}
	}
	sw.Tag = &ast.CallExpr{Fun: symSel("Select"), Args: append([]ast.Expr{ast.NewIdent(hasDef)}, cases...)}
	return &ast.BlockStmt{List: append(decls, sw)}
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	r.changed = true
	call := x.Call
	if id, ok := call.Fun.(*ast.Ident); ok {
		if _, isB := r.info.Uses[id].(*types.Builtin); isB {
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: symSel("Go"), Args: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.expr(call)}}}}}}}
		}
	}
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		id := r.tmp()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return id
	}
	fun := bind(call.Fun)
	args := make([]ast.Expr, len(call.Args))
	for i, a := range call.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args[i] = a
			continue
		}
		args[i] = bind(a)
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: call.Ellipsis}
	if call.Ellipsis != token.NoPos {
		inner.Ellipsis = 1
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: &ast.CallExpr{Fun: symSel("Go"), Args: []ast.Expr{lit}}})}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			r.changed = true
			return &ast.CallExpr{Fun: symSel("Recv"), Args: []ast.Expr{r.expr(x.X)}}
		}
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
			if _, isB := r.info.Uses[id].(*types.Builtin); isB {
				r.changed = true
				x.Fun = symSel("Close")
			}
		} else if ok && id.Name == "len" && len(x.Args) == 1 && r.isChan(x.Args[0]) {
			r.changed = true
			x.Fun = symSel("Len")
		} else {
			x.Fun = r.expr(x.Fun)
		}
		r.exprs(x.Args)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		for _, p := range []*ast.Expr{&x.Low, &x.High, &x.Max} {
			if *p != nil {
				*p = r.expr(*p)
			}
		}
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
	case *ast.CompositeLit:
		r.exprs(x.Elts)
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
	case *ast.FuncLit:
		r.block(x.Body)
	}
	return e
}

// ---- running ----

type replayVal struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	U    uint64 `json:"u"`
	Text string `json:"text,omitempty"`
}

type replayFile struct {
	Property string      `json:"property"`
	Harness  string      `json:"harness"`
	Pkg      string      `json:"pkg"`
	Assert   string      `json:"assertion"`
	Kind     string      `json:"kind"`
	Message  string      `json:"message"`
	Stack    string      `json:"stack,omitempty"`
	Thorough bool        `json:"thorough"`
	Fp       bool        `json:"fp"`
	Multi    bool        `json:"multi"`
	Vals     []replayVal `json:"vals"`
	Sched    []int       `json:"sched"`
	Mode     string      `json:"mode,omitempty"`
	HowTo    string      `json:"how_to_replay,omitempty"`
	Output   string      `json:"output,omitempty"`
}

// roundings of rational model values to floats, tried in turn.
var roundings = []func(r *big.Rat) float64{
	func(r *big.Rat) float64 { f, _ := r.Float64(); return f },
	func(r *big.Rat) float64 { f, _ := r.Float64(); return math.Round(f*1048576) / 1048576 },
	func(r *big.Rat) float64 { f, _ := r.Float64(); return math.Round(f*16) / 16 },
	func(r *big.Rat) float64 { f, _ := r.Float64(); return math.Round(f) },
}

func replayVals(in []inputRec, rounding int) []replayVal {
	var out []replayVal
	for _, r := range in {
		v := replayVal{Name: r.name, Kind: r.kind}
		switch r.sort {
		case SReal:
			f := 0.0
			if r.val.r != nil {
				f = roundings[rounding](r.val.r)
			}
			v.U = math.Float64bits(f)
			v.Text = fmt.Sprint(f)
		case SFP, SFlt:
			v.U = math.Float64bits(r.val.f)
			v.Text = fmt.Sprint(r.val.f)
		default:
			v.U = r.val.u
			v.Text = fmt.Sprint(sext(r.val.u, r.sort))
		}
		out = append(out, v)
	}
	return out
}

type runResult struct {
	code    int
	out     string
	timeout bool
	obs     []string
}

func (n *Native) runOnce(bin string, rf *replayFile, env []string, limit time.Duration) (runResult, error) {
	n.mu.Lock()
	n.n++
	f := filepath.Join(n.dir, fmt.Sprintf("run%d.json", n.n))
	n.mu.Unlock()
	b, _ := json.Marshal(rf)
	if err := os.WriteFile(f, b, 0644); err != nil {
		return runResult{}, err
	}
	defer os.Remove(f)
	return runBin(bin, f, env, limit)
}

func runBin(bin, file string, env []string, limit time.Duration) (runResult, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, file)
	cmd.Env = append(append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=2GiB"), env...)
	cmd.Dir = os.TempDir()
	var buf limBuf
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err := cmd.Run()
	r := runResult{out: buf.String()}
	if ctx.Err() != nil {
		r.timeout = true
		return r, nil
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			return r, err
		}
		r.code = ee.ExitCode()
	}
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "OBS ") {
			r.obs = append(r.obs, l[4:])
		}
	}
	return r, nil
}

type limBuf struct{ bytes.Buffer }

func (b *limBuf) Write(p []byte) (int, error) {
	if b.Len() < 1<<20 {
		b.Buffer.Write(p)
	}
	return len(p), nil
}

// shows reports whether a native run exhibits the violation.
func shows(rf *replayFile, r runResult) bool {
	switch rf.Kind {
	case "assert":
		return r.code == 3 && strings.Contains(r.out, "SYM-VIOLATION "+rf.Assert+"\n")
	case "panic":
		return r.code == 2 && (strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:")) && !strings.Contains(r.out, "SYM-HARNESS")
	case "deadlock":
		return r.code == 5
	case "race":
		return r.code == 66 || strings.Contains(r.out, "fatal error: concurrent map")
	case "hang":
		return r.timeout
	}
	return false
}

// confirm replays a candidate on the natively compiled code; nil means it was not reproduced.
func (n *Native) confirm(h *Harness, prop string, v *violation, thorough bool, stop <-chan struct{}) (*replayFile, error) {
	ts := time.Now()
	lean := time.Duration(n.futile.Load()) > futileBudget
	rf, err := n.confirmAny(h, prop, v, thorough, lean, stop)
	if rf == nil {
		n.futile.Add(int64(time.Since(ts)))
	}
	return rf, err
}

// futileBudget bounds the time a check spends repeating replays of candidates that do not reproduce;
// past it every candidate still gets its replay along the schedule found, but only once.
const futileBudget = 150 * time.Second

func (n *Native) confirmAny(h *Harness, prop string, v *violation, thorough, lean bool, stop <-chan struct{}) (*replayFile, error) {
	if v.kind == "race" {
		rf, err := n.confirmIn(h, prop, v, thorough, lean, "ctlrace", stop)
		if rf != nil || err != nil || lean {
			return rf, err
		}
		return n.confirmIn(h, prop, v, thorough, lean, "free", stop)
	}
	return n.confirmIn(h, prop, v, thorough, lean, "ctl", stop)
}

func (n *Native) confirmIn(h *Harness, prop string, v *violation, thorough, lean bool, mode string, stop <-chan struct{}) (*replayFile, error) {
	bin, err := n.bin(h.pkg, mode)
	if err != nil {
		return nil, err
	}
	in := concreteInputs(v.inputs, v.model)
	tries := 1
	if h.noval || v.unord {
		tries = 40
	}
	env := []string{}
	switch mode {
	case "free":
		tries = 60
	case "ctlrace":
		tries = 1
		env = append(env, "SYMCTL=1")
	}
	if lean {
		tries = 1
	}
	slow := 0
	for rd := range roundings {
		rf := &replayFile{Property: prop, Harness: h.name, Pkg: h.pkg, Assert: v.id, Kind: v.kind, Message: v.msg, Stack: v.stack,
			Thorough: thorough, Fp: h.opts.fp, Multi: v.multi, Vals: replayVals(in, rd), Sched: v.sched}
		for i := 0; i < tries; i++ {
			select {
			case <-stop:
				return nil, nil
			default:
			}
			limit := 20 * time.Second
			r, err := n.runOnce(bin, rf, append(env[:len(env):len(env)], fmt.Sprintf("SYMTRY=%d", i)), limit)
			if err != nil {
				return nil, err
			}
			if os.Getenv("SYMGO_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "replay %s rounding %d try %d: code %d timeout %v for %s %s at %s\n%s\n", h.name, rd, i, r.code, r.timeout, v.kind, v.msg, firstLine(v.stack), r.out)
			}
			if shows(rf, r) {
				o := r.out
				if len(o) > 4000 {
					o = o[:4000]
				}
				rf.Output = o
				rf.Mode = mode
				return rf, nil
			}
			if r.timeout {
				if slow++; slow == 3 {
					return nil, nil
				}
			}
		}
		same := true
		for _, x := range in {
			if x.sort == SReal {
				same = false
			}
		}
		if same || lean {
			break
		}
	}
	return nil, nil
}

// validate runs a completed path natively and compares the outputs with the engine's prediction.
// Result: 1 agree, 0 not comparable (rounding left the path), -1 disagree.
func (n *Native) validate(h *Harness, s *sample, thorough bool) (int, string) {
	bin, err := n.bin(h.pkg, "ctl")
	if err != nil {
		return -1, err.Error()
	}
	msg := ""
	tries := 1
	if s.unord {
		tries = 40
	}
	for try := 0; try < tries; try++ {
		const rd = 0
		rf := &replayFile{Harness: h.name, Pkg: h.pkg, Kind: "sample", Thorough: thorough, Fp: h.opts.fp, Multi: s.multi, Vals: replayVals(s.inputs, rd), Sched: s.sched}
		r, err := n.runOnce(bin, rf, nil, 20*time.Second)
		if err != nil {
			return -1, err.Error()
		}
		if r.code == 4 || r.code == 6 {
			msg = fmt.Sprintf("left the path (exit %d)", r.code)
			continue
		}
		if s.unord && r.code != 0 {
			continue
		}
		if r.code != 0 || r.timeout {
			return -1, fmt.Sprintf("native exit %d timeout %v: %s", r.code, r.timeout, tail(r.out, 600))
		}
		if len(r.obs) != len(s.obs) {
			msg = fmt.Sprintf("%d observations, predicted %d", len(r.obs), len(s.obs))
			if s.exact && !s.unord {
				return -1, msg
			}
			continue
		}
		ok := true
		for i, o := range r.obs {
			name, val, _ := strings.Cut(o, " ")
			if name != s.obs[i].name || !obsEqual(val, s.obs[i].s) {
				ok = false
				msg = fmt.Sprintf("%s: native %s, predicted %s=%s", name, val, s.obs[i].name, s.obs[i].s)
			}
		}
		if ok {
			return 1, ""
		}
		if s.exact && !s.unord {
			return -1, msg
		}
	}
	return 0, msg
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func obsEqual(a, b string) bool {
	if a == b {
		return true
	}
	x, e1 := strconv.ParseFloat(a, 64)
	y, e2 := strconv.ParseFloat(b, 64)
	return e1 == nil && e2 == nil && nearF(x, y)
}
