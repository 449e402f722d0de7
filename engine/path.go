package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// abort ends the current path.
// kinds: infeasible, assert, panic, deadlock, steps, unsupported, bound, done, kill
type abort struct {
	kind string
	msg  string
}

// Dec is one recorded decision of a path.
type Dec struct {
	kind   byte // b branch, f forced branch, c choice, v concretised value, F forced value
	val    uint64
	implSc bool
}

type workItem struct {
	decs  []Dec
	model Model
}

type inputRec struct {
	name string
	kind string // int bool float byte
	t    *Term
	val  Val // after concreteInputs
	sort Sort
}

type obsRec struct {
	name string
	v    Value // *Term or string
	s    string
}

type docRec struct {
	v IfaceV
}

// Path is one execution of a harness along one decision vector.
type Path struct {
	w          *Worker
	prefix     []Dec
	startModel Model
	pos        int
	decs       []Dec
	pc         []*Term
	model      Model
	unordered  bool // a map was iterated over: natively the order differs from run to run
	exact      bool // model satisfies pc exactly
	ev         *evaluator
	vars       []*Term
	nvar       int
	inputs     []inputRec
	obs        []obsRec
	sched      []int
	reached    map[string]int
	asserts    map[string]int
	steps      int
	maxStep    int
	globals    map[*ssa.Global]*Cell
	threads    []*Thread
	cur        *Thread
	preempt    int
	implied    map[*Term]bool   // conditions found to follow from the path condition, or their negations to
	sleep      map[*Thread]bool // threads whose next step was explored before and commutes with everything since
	seg        opKind           // how the running step began
	segC       *Cell
	docs       []docRec
	coders     map[*Cell]IfaceV
	unknown    bool
	multi      bool // more than one thread was ever created
	result     chan abort
	exited     chan *Thread
	viol       *violation
	sqrts      map[*Term]*Term
	quots      map[[2]*Term]*Term
	sqrtOf     map[*Term]*Term
	syncVC     map[*Cell]*vclock
	once       map[*Cell]bool
	fpmode     bool
	mapOrd     bool
}

type violation struct {
	id     string
	kind   string
	msg    string
	model  Model
	inputs []inputRec
	sched  []int
	stack  string

	realVars int
	multi    bool
	unord    bool
}

func (p *Path) addPC(c *Term) {
	if c == p.w.tb.tt {
		return
	}
	p.pc = append(p.pc, c)
}

func (p *Path) evalBool(c *Term) (bool, bool) {
	if p.model == nil || !p.exact {
		return false, false
	}
	return p.ev.eval(c).u == 1, true
}

func (p *Path) check(c *Term) (Result, Model) {
	r, m := p.w.query(p, c)
	if r == Unknown {
		p.unknown = true
		p.w.ex.noteUnknown()
	}
	return r, m
}

func (p *Path) setModel(m Model) {
	if m == nil {
		return
	}
	p.model = m
	p.exact = true
	// A model with rounded algebraic numbers may fail to satisfy the path condition exactly.
	e := &evaluator{m: m, memo: map[*Term]Val{}}
	p.ev = e
	for _, c := range p.pc {
		if e.eval(c).u != 1 {
			p.exact = false
			return
		}
	}
}

// installed takes over the model found when this path was forked, once its prefix has been replayed.
func (p *Path) installed() {
	if p.pos == len(p.prefix) {
		p.setModel(p.startModel)
	}
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (p *Path) branch(c *Term) bool {
	tb := p.w.tb
	if c == tb.tt {
		return true
	}
	if c == tb.ff {
		return false
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		if d.kind != 'b' && d.kind != 'f' {
			panic(fmt.Sprintf("replay divergence: expected branch, have %c at %d", d.kind, p.pos-1))
		}
		if d.kind == 'b' {
			if d.val == 1 {
				p.addPC(c)
			} else {
				p.addPC(tb.not(c))
			}
		} else {
			p.imply(c, d.val == 1)
		}
		p.installed()
		return d.val == 1
	}
	p.w.branches++
	if v, ok := p.implied[c]; ok {
		p.forced(b2u(v))
		return v
	}
	// syntactic: already asserted?
	for i := len(p.pc) - 1; i >= 0; i-- {
		if p.pc[i] == c {
			p.forced(1)
			return true
		}
		if p.pc[i] == tb.not(c) {
			p.forced(0)
			return false
		}
	}
	side, known := p.evalBool(c)
	if !known {
		r, m := p.check(c)
		switch r {
		case Unsat:
			p.forced(0)
			p.imply(c, false)
			return false
		case Sat:
			p.setModel(m)
		}
		side = true
	}
	other := c
	if side {
		other = tb.not(c)
	}
	r, m := p.check(other)
	if r == Unsat {
		p.forced(b2u(side))
		p.imply(c, side)
		return side
	}
	alt := make([]Dec, len(p.decs), len(p.decs)+1)
	copy(alt, p.decs)
	alt = append(alt, Dec{kind: 'b', val: b2u(!side)})
	p.w.ex.push(workItem{alt, m})
	p.decs = append(p.decs, Dec{kind: 'b', val: b2u(side)})
	if side {
		p.addPC(c)
	} else {
		p.addPC(tb.not(c))
	}
	return side
}

// imply records that c has this value under the path condition.
func (p *Path) imply(c *Term, v bool) {
	if p.implied == nil {
		p.implied = map[*Term]bool{}
	}
	p.implied[c] = v
	p.implied[p.w.tb.not(c)] = !v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (p *Path) forced(v uint64) {
	p.decs = append(p.decs, Dec{kind: 'f', val: v})
}

// choose picks one of n alternatives.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		if d.kind != 'c' {
			panic(fmt.Sprintf("replay divergence: expected choice, have %c", d.kind))
		}
		p.installed()
		return int(d.val)
	}
	p.w.branches++
	for i := n - 1; i > 0; i-- {
		alt := make([]Dec, len(p.decs), len(p.decs)+1)
		copy(alt, p.decs)
		alt = append(alt, Dec{kind: 'c', val: uint64(i)})
		p.w.ex.push(workItem{alt, p.model})
	}
	p.decs = append(p.decs, Dec{kind: 'c', val: 0})
	return 0
}

const maxConcretise = 80

// concretise forks over all feasible values of an integer or bool term.
func (p *Path) concretise(t *Term) uint64 {
	if t.op == OConst {
		return t.u
	}
	tb := p.w.tb
	if t.sort == SBool {
		return b2u(p.branch(t))
	}
	k := func(v uint64) *Term { return tb.eq(t, tb.bv(t.sort, v)) }
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		switch d.kind {
		case 'v':
			p.addPC(k(d.val))
		case 'F':
		default:
			panic(fmt.Sprintf("replay divergence: expected value, have %c", d.kind))
		}
		p.installed()
		return d.val
	}
	p.w.branches++
	var vals []uint64
	var models []Model
	excl := tb.tt
	for {
		r, m := p.check(excl)
		if r == Unsat {
			break
		}
		if r != Sat {
			panic(abort{"bound", "solver gave up while enumerating the values of an integer"})
		}
		e := &evaluator{m: m, memo: map[*Term]Val{}}
		v := e.eval(t).u
		vals = append(vals, v)
		models = append(models, m)
		excl = tb.and(excl, tb.not(k(v)))
		if len(vals) > maxConcretise {
			panic(abort{"bound", "too many values for an integer that must be concrete at " + p.where()})
		}
	}
	if len(vals) == 0 {
		panic(abort{"infeasible", ""})
	}
	idx := make([]int, len(vals))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return int64(vals[idx[a]]) < int64(vals[idx[b]]) })
	if len(vals) == 1 {
		p.decs = append(p.decs, Dec{kind: 'F', val: vals[0]})
		return vals[0]
	}
	for i := len(idx) - 1; i > 0; i-- {
		alt := make([]Dec, len(p.decs), len(p.decs)+1)
		copy(alt, p.decs)
		alt = append(alt, Dec{kind: 'v', val: vals[idx[i]]})
		p.w.ex.push(workItem{alt, models[idx[i]]})
	}
	v := vals[idx[0]]
	p.decs = append(p.decs, Dec{kind: 'v', val: v})
	p.addPC(k(v))
	p.setModel(models[idx[0]])
	return v
}

func (p *Path) where() string {
	if p.cur == nil || p.cur.fr == nil {
		return "?"
	}
	return p.cur.fr.where()
}

// assume restricts the path; an infeasible assumption ends it.
func (p *Path) assume(c *Term) {
	tb := p.w.tb
	if c == tb.tt {
		return
	}
	if c == tb.ff {
		panic(abort{"infeasible", ""})
	}
	p.addPC(c)
	if p.pos < len(p.prefix) {
		return
	}
	if v, known := p.evalBool(c); known && v {
		return
	}
	p.model = nil
	r, m := p.w.check0(p)
	switch r {
	case Unsat:
		panic(abort{"infeasible", ""})
	case Sat:
		p.setModel(m)
	default:
		p.unknown = true
		p.w.ex.noteUnknown()
	}
}

func (w *Worker) check0(p *Path) (Result, Model) {
	return w.query(p, nil)
}

// assert checks that c holds for every value on this path.
func (p *Path) assert(c *Term, id string) {
	tb := p.w.tb
	p.asserts[id]++
	if c == tb.tt {
		p.w.trivialAsserts++
		return
	}
	if p.pos < len(p.prefix) {
		// Checked already by the path this one was forked from.
		return
	}
	p.w.assertQueries++
	if v, ok := p.implied[c]; ok && v {
		return
	}
	neg := tb.not(c)
	if c == tb.ff {
		p.fail(id, "assert", "assertion "+id+" is false", nil)
	}
	r, m := p.check(neg)
	switch r {
	case Unsat:
		p.imply(c, true)
		return
	case Unknown:
		p.w.ex.note("undecided assertion " + id)
		return
	}
	p.fail(id, "assert", "assertion "+id+" can be false", m)
}

// fail records a violation candidate and ends the path.
func (p *Path) fail(id, kind, msg string, m Model) {
	if m == nil {
		r, m2 := p.w.check0(p)
		if r == Unsat {
			panic(abort{"infeasible", ""})
		}
		if r == Unknown {
			p.w.ex.note("undecided reachability of: " + msg)
			panic(abort{"bound", msg})
		}
		m = m2
	}
	st := ""
	if p.cur != nil {
		st = p.cur.stack()
	}
	p.viol = &violation{id: id, kind: kind, msg: msg, model: m, inputs: append([]inputRec(nil), p.inputs...), sched: append([]int(nil), p.sched...), stack: st, unord: p.unordered}
	panic(abort{kind, msg})
}

// fresh makes a new solver variable.
func (p *Path) fresh(label string, s Sort) *Term {
	p.nvar++
	label = strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, label)
	t := p.w.tb.variable(fmt.Sprintf("v%d_%s_%d", p.nvar, label, s), s)
	p.vars = append(p.vars, t)
	return t
}

func ratFloat(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }
