package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Options bound the exploration of one harness.
type Options struct {
	race       bool
	por        bool // sleep-set partial-order reduction; sound for steps without data races
	preempt    int  // -1: unbounded
	mapOrd     bool
	fixedOrder bool
	fp         bool
	maxPaths   int
	maxSteps   int
	timeout    time.Duration
	solverMS   int
}

// Program is the loaded repository plus harness packages.
type Program struct {
	prog       *ssa.Program
	progMu     sync.Mutex
	sizes      types.Sizes
	runtimeErr types.Type
	errorType  *types.Interface
}

// Explorer explores one harness.
type Explorer struct {
	*Program
	h        *Harness
	thorough bool
	seed     int64

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []workItem
	active  int
	stopped bool

	paths     int
	done      int
	infeas    int
	steps     int64
	decisions int64
	notes     map[string]int
	cands     []*violation
	candN     map[string]int
	reached   map[string]int
	asserts   map[string]int
	unknowns  int
	overflow  bool
	samples   []*sample
	sampleN   int
	funcs     map[string]bool
	workers   []*Worker
	rnd       *rand.Rand
	engErr    []string
	start     time.Time
	onCand    func(*violation) bool
}

// sample is one completed path with a concrete witness and the outputs the engine predicts.
type sample struct {
	inputs []inputRec
	sched  []int
	obs    []obsRec
	model  Model
	multi  bool
	exact  bool
	unord  bool
	text   string
}

// Worker executes paths; it owns a term table and a solver.
type Worker struct {
	ex             *Explorer
	tb             *TermTable
	solver         *Solver
	fns            map[*ssa.Function]*fnInfo
	meths          map[methKey]*ssa.Function
	opts           Options
	branches       int
	trivialAsserts int
	assertQueries  int
	answers        map[string]answer // verdicts of earlier queries with the same path condition
	cached         int
}

type answer struct {
	r Result
	m Model
}

// query asks the solver whether the path condition and c can hold together, unless it was asked before.
func (w *Worker) query(p *Path, c *Term) (Result, Model) {
	key := make([]byte, 0, 4*len(p.pc)+12)
	put := func(n int) { key = append(key, byte(n), byte(n>>8), byte(n>>16), byte(n>>24)) }
	for _, t := range p.pc {
		put(t.id)
	}
	put(len(p.vars))
	if c != nil {
		put(c.id)
	}
	if a, ok := w.answers[string(key)]; ok {
		w.cached++
		return a.r, a.m
	}
	r, m := w.solver.check(p.pc, c, p.vars, true)
	if r != Unknown {
		if w.answers == nil || len(w.answers) > 100000 {
			w.answers = map[string]answer{}
		}
		w.answers[string(key)] = answer{r, m}
	}
	return r, m
}

func (ex *Explorer) ownInit(pkg *ssa.Package) bool {
	if pkg == nil {
		return false
	}
	p := pkg.Pkg.Path()
	if strings.HasPrefix(p, "trypo/zzverif/shim/") {
		return false
	}
	return strings.HasPrefix(p, "trypo")
}

func (ex *Explorer) push(it workItem) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

// stop ends the exploration after the paths being executed.
func (ex *Explorer) stop() {
	ex.mu.Lock()
	ex.stopped = true
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	ex.notes[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) noteUnknown() {
	ex.mu.Lock()
	ex.unknowns++
	ex.mu.Unlock()
}

func newExplorer(pr *Program, h *Harness, thorough bool, seed int64) *Explorer {
	ex := &Explorer{Program: pr, h: h, thorough: thorough, seed: seed,
		notes: map[string]int{}, candN: map[string]int{}, reached: map[string]int{}, asserts: map[string]int{},
		funcs: map[string]bool{}, rnd: rand.New(rand.NewSource(seed))}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

// cpu limits the number of paths executed at once over all harnesses.
var cpu = make(chan struct{}, 8)

func (ex *Explorer) run(nworkers int) {
	ex.start = time.Now()
	ex.stack = []workItem{{model: Model{}}}
	var wg sync.WaitGroup
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ex.work()
		}()
	}
	wg.Wait()
}

func (ex *Explorer) work() {
	var w *Worker
	defer func() {
		if w != nil {
			w.solver.close()
		}
	}()
	for {
		ex.mu.Lock()
		for len(ex.stack) == 0 && ex.active > 0 && !ex.stopped {
			ex.cond.Wait()
		}
		if ex.stopped || len(ex.stack) == 0 {
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		if ex.paths >= ex.h.opts.maxPaths || time.Since(ex.start) > ex.h.opts.timeout {
			ex.overflow = true
			ex.stopped = true
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		it := ex.stack[len(ex.stack)-1]
		ex.stack = ex.stack[:len(ex.stack)-1]
		ex.active++
		ex.paths++
		ex.mu.Unlock()
		cpu <- struct{}{}
		if w == nil {
			w = &Worker{ex: ex, tb: newTermTable(), fns: map[*ssa.Function]*fnInfo{}, meths: map[methKey]*ssa.Function{}, opts: ex.h.opts}
			bin := solverBin
			if ex.h.opts.fp {
				bin = fpSolverBin
			}
			w.solver = newSolver(bin, ex.h.opts.solverMS)
			ex.mu.Lock()
			ex.workers = append(ex.workers, w)
			ex.mu.Unlock()
		}
		if len(w.tb.m) > 3000000 {
			w.tb = newTermTable()
			w.answers = nil
			w.fns = map[*ssa.Function]*fnInfo{}
			w.solver.restart()
		}
		w.runPath(it)
		<-cpu
		ex.mu.Lock()
		ex.active--
		ex.mu.Unlock()
		ex.cond.Broadcast()
	}
}

func (w *Worker) runPath(it workItem) {
	ex := w.ex
	w.tb.rng = map[*Term][2]int64{}
	p := &Path{w: w, prefix: it.decs, startModel: it.model, reached: map[string]int{}, asserts: map[string]int{},
		maxStep: w.opts.maxSteps, globals: map[*ssa.Global]*Cell{}, result: make(chan abort, 4), exited: make(chan *Thread, 256),
		sqrts: map[*Term]*Term{}, quots: map[[2]*Term]*Term{}, sqrtOf: map[*Term]*Term{}, syncVC: map[*Cell]*vclock{},
		once: map[*Cell]bool{}, fpmode: w.opts.fp, mapOrd: w.opts.mapOrd}
	if len(it.decs) == 0 {
		p.setModel(it.model)
	}
	w.solver.nonlin = false
	t0 := p.newThread()
	p.cur = t0
	go t0.main(func() {
		if init := ex.h.fn.Pkg.Func("init"); init != nil {
			t0.callFn(init, nil, nil)
		}
		t0.callFn(ex.h.fn, nil, nil)
	})
	t0.resume <- true
	res := <-p.result
	for _, t := range p.threads {
		if !t.done {
			t.resume <- false
			<-p.exited
		}
	}
	var smp *sample
	if res.kind == "done" || res.kind == "assert" {
		ex.mu.Lock()
		ex.sampleN++
		want := len(ex.samples) < ex.h.nsample || ex.rnd.Intn(ex.sampleN) < ex.h.nsample
		ex.mu.Unlock()
		if res.kind == "done" && want {
			smp = w.makeSample(p)
		}
	}
	ex.mu.Lock()
	ex.steps += int64(p.steps)
	ex.decisions += int64(len(p.decs) - len(it.decs))
	for k, v := range p.reached {
		if res.kind == "done" || res.kind == "assert" {
			ex.reached[k] += v
		}
	}
	for k, v := range p.asserts {
		ex.asserts[k] += v
	}
	for _, fi := range w.fns {
		if fi.visited && fi.fn.Pkg != nil && strings.HasPrefix(fi.fn.Pkg.Pkg.Path(), "trypo") && !strings.Contains(fi.fn.Pkg.Pkg.Path(), "zzverif") {
			ex.funcs[fi.name] = true
			fi.visited = false
		}
	}
	switch res.kind {
	case "done":
		ex.done++
		if smp != nil {
			if len(ex.samples) < ex.h.nsample {
				ex.samples = append(ex.samples, smp)
			} else {
				ex.samples[ex.rnd.Intn(len(ex.samples))] = smp
			}
		}
	case "infeasible":
		ex.infeas++
	case "unsupported":
		ex.notes["not encodable: "+res.msg]++
	case "bound":
		ex.notes["bound: "+res.msg]++
	case "engine":
		ex.engErr = append(ex.engErr, res.msg)
		ex.stopped = true
	case "steps":
		ex.notes["step budget: "+res.msg]++
	}
	ex.mu.Unlock()
	if res.kind == "steps" {
		r, m := w.check0(p)
		if r == Sat {
			p.viol = &violation{id: "hang", kind: "hang", msg: res.msg, model: m, inputs: p.inputs, sched: p.sched, unord: p.unordered}
		}
	}
	if v := p.viol; v != nil {
		v.realVars = len(p.sqrts) + len(p.quots)
		v.multi = p.multi
		ex.mu.Lock()
		key := v.kind + " " + v.id
		ex.candN[key]++
		n := ex.candN[key]
		ex.mu.Unlock()
		if n <= 6 && ex.onCand != nil {
			if ex.onCand(v) {
				ex.mu.Lock()
				ex.stopped = true
				ex.mu.Unlock()
				ex.cond.Broadcast()
			}
		}
		ex.mu.Lock()
		ex.cands = append(ex.cands, v)
		ex.mu.Unlock()
	}
}

func (w *Worker) makeSample(p *Path) *sample {
	m := p.model
	exact := p.exact && m != nil
	if !exact {
		r, m2 := w.check0(p)
		if r != Sat {
			return nil
		}
		m = m2
		p.setModel(m)
		exact = p.exact
	}
	s := &sample{inputs: p.inputs, sched: p.sched, obs: p.obs, model: m, multi: p.multi, unord: p.unordered, exact: exact && len(p.sqrts)+len(p.quots) == 0}
	var sb strings.Builder
	e := &evaluator{m: m, memo: map[*Term]Val{}}
	for _, in := range p.inputs {
		fmt.Fprintf(&sb, "%s=%s ", in.name, valString(e, in.t))
	}
	if len(p.sched) > 0 {
		fmt.Fprintf(&sb, "schedule=%v ", p.sched)
	}
	sb.WriteString("=> ")
	for i := range s.obs {
		o := &s.obs[i]
		o.s = obsString(e, o.v)
		fmt.Fprintf(&sb, "%s=%s ", o.name, o.s)
	}
	s.text = sb.String()
	// Inputs as concrete values, so that terms are not retained.
	s.inputs = concreteInputs(p.inputs, m)
	for i := range s.obs {
		s.obs[i].v = nil
	}
	return s
}

func concreteInputs(in []inputRec, m Model) []inputRec {
	e := &evaluator{m: m, memo: map[*Term]Val{}}
	out := make([]inputRec, len(in))
	for i, r := range in {
		out[i] = inputRec{name: r.name, kind: r.kind, val: e.eval(r.t), sort: r.t.sort}
		if r.t.op == OConst && r.t.sort == SFlt {
			out[i].val.f = r.t.f
		}
	}
	return out
}

func valString(e *evaluator, t *Term) string {
	v := e.eval(t)
	switch t.sort {
	case SBool:
		return fmt.Sprint(v.u == 1)
	case SReal:
		f, _ := v.r.Float64()
		return fmt.Sprintf("%g", f)
	case SFlt, SFP:
		return fmt.Sprintf("%g", v.f)
	}
	return fmt.Sprint(sext(v.u, t.sort))
}

func obsString(e *evaluator, v Value) string {
	switch x := v.(type) {
	case *Term:
		return valString(e, x)
	case string:
		return x
	}
	return fmt.Sprintf("%T", v)
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
