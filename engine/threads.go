package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type vclock []int

func (v vclock) at(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) merge(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v *vclock) inc(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}

// shadow holds the last accesses of a memory location for race detection.
type shadow struct {
	wT, wC int // last write: thread, clock
	reads  vclock
}

func (t *Thread) acquireFrom(v vclock) { t.vc.merge(v) }
func (t *Thread) releaseTo(v *vclock) {
	v.merge(t.vc)
	t.vc.inc(t.id)
}

func (t *Thread) raceRead(sh **shadow, what string) {
	if t.p.multi {
		t.race(sh, false, what)
	}
}
func (t *Thread) raceWrite(sh **shadow, what string) {
	if t.p.multi {
		t.race(sh, true, what)
	}
}

func (t *Thread) raceCell(c *Cell, write bool) {
	switch {
	case c.kids != nil:
		for _, k := range c.kids {
			t.raceCell(k, write)
		}
	case c.arr != nil:
		for i := range c.arr.cells {
			t.raceCell(c.arr.at(i), write)
		}
	default:
		t.race(&c.sh, write, "variable")
	}
}

func (t *Thread) race(shp **shadow, write bool, what string) {
	if t.fr == nil || (t.fr.fi.noRace && !t.inNet) {
		return
	}
	sh := *shp
	if sh == nil {
		sh = &shadow{wT: -1}
		*shp = sh
	}
	bad := false
	if sh.wT >= 0 && sh.wT != t.id && t.vc.at(sh.wT) < sh.wC {
		bad = true
	}
	if write {
		for i, c := range sh.reads {
			if i != t.id && c > 0 && t.vc.at(i) < c {
				bad = true
			}
		}
	}
	if bad && t.p.w.opts.race {
		t.p.fail("race", "race", fmt.Sprintf("unsynchronised access to a %s at %s", what, t.fr.where()), nil)
	}
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	if t.vc[t.id] == 0 {
		t.vc[t.id] = 1
	}
	if write {
		sh.wT, sh.wC = t.id, t.vc[t.id]
		sh.reads = nil
	} else {
		for len(sh.reads) <= t.id {
			sh.reads = append(sh.reads, 0)
		}
		sh.reads[t.id] = t.vc[t.id]
	}
}

// ---- scheduling ----

func (p *Path) newThread() *Thread {
	t := &Thread{p: p, id: len(p.threads), resume: make(chan bool), pend: opLocal}
	p.threads = append(p.threads, t)
	return t
}

func (t *Thread) spawn(fn Value, args []Value) {
	p := t.p
	p.multi = true
	n := p.newThread()
	if n.id > 512 {
		panic(abort{"bound", "too many goroutines"})
	}
	n.vc = append(vclock{}, t.vc...)
	n.vc.inc(n.id)
	t.vc.inc(t.id)
	n.started = true
	go n.main(func() { n.call(fn, args, nil) })
}

// main is the body of the engine goroutine behind an interpreted goroutine.
func (t *Thread) main(f func()) {
	if !<-t.resume {
		t.p.exited <- t
		return
	}
	res := abort{kind: "done"}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			res = t.classify(r)
		}()
		f()
	}()
	t.done = true
	if res.kind == "kill" {
		t.p.exited <- t
		return
	}
	if res.kind == "done" && t.id != 0 {
		// hand the token on
		func() {
			defer func() {
				if r := recover(); r != nil {
					res = t.classify(r)
				}
			}()
			t.p.next(t, true)
		}()
		if res.kind == "done" {
			t.p.exited <- t
			return
		}
	}
	t.p.result <- res
	t.p.exited <- t
}

func (t *Thread) classify(r interface{}) abort {
	switch x := r.(type) {
	case abort:
		return x
	case targetPanic:
		msg := t.panicString(x.v)
		res := abort{kind: "panic", msg: msg}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(abort); ok {
						res = a
						return
					}
					panic(r)
				}
			}()
			t.p.fail("panic", "panic", "panic: "+msg, nil)
		}()
		return res
	case engineErr:
		return abort{"engine", x.msg}
	}
	return abort{"engine", fmt.Sprint(engineBug(t, r).msg)}
}

func (t *Thread) panicString(v Value) string {
	iv, ok := v.(IfaceV)
	if !ok {
		return fmt.Sprint(v)
	}
	switch x := iv.v.(type) {
	case string:
		return x
	case *Term:
		return fmt.Sprintf("%v", x.u)
	}
	if iv.t == nil {
		return "nil"
	}
	return iv.t.String()
}

// enabled lists the threads that can run, the current one first.
func (p *Path) enabled(cur *Thread) []*Thread {
	var r []*Thread
	ok := func(t *Thread) bool {
		return !t.done && (t.waitFor == nil || t.waitFor())
	}
	if cur != nil && ok(cur) {
		r = append(r, cur)
	}
	for _, t := range p.threads {
		if t != cur && ok(t) {
			r = append(r, t)
		}
	}
	return r
}

// yield is a scheduling point: any enabled thread may continue.
func (t *Thread) yield() {
	if !t.p.multi {
		if t.waitFor != nil && !t.waitFor() {
			t.deadlock()
		}
		t.waitFor = nil
		return
	}
	t.p.next(t, false)
}

func (t *Thread) deadlock() {
	var why []string
	for _, x := range t.p.threads {
		if !x.done {
			why = append(why, fmt.Sprintf("goroutine %d: %s", x.id, x.why))
		}
	}
	t.p.fail("deadlock", "deadlock", "deadlock: "+strings.Join(why, "; "), nil)
}

// opKind classifies the operation a step begins with.
type opKind int

const (
	opOther opKind = iota // conflicts with everything
	opLocal               // touches nothing shared
	opMutex               // acquires one mutex
)

const mutexLock = "(*trypo/zzverif/shim/sync.Mutex).Lock"

// independent reports whether the step u is about to take commutes with the step just taken. Steps begin with one
// synchronisation operation; what they access afterwards is ordered by it or a data race, which is reported.
func (p *Path) independent(u *Thread) bool {
	if u.pend == opOther || p.seg == opOther {
		return false
	}
	return u.pend == opLocal || p.seg == opLocal || u.pendC != p.segC
}

// next picks the thread to run and blocks t until it is its turn again.
func (p *Path) next(t *Thread, exiting bool) {
	en := p.enabled(t)
	live := 0
	for _, x := range p.threads {
		if !x.done {
			live++
		}
	}
	if len(en) == 0 {
		if live == 0 {
			return
		}
		t.deadlock()
	}
	por := p.w.opts.por && p.multi
	if por {
		for u := range p.sleep {
			if u == t || !p.independent(u) {
				delete(p.sleep, u)
			}
		}
		var aw []*Thread
		for _, u := range en {
			if !p.sleep[u] {
				aw = append(aw, u)
			}
		}
		if len(aw) == 0 {
			panic(abort{"infeasible", ""})
		}
		en = aw
	}
	var to *Thread
	if len(en) > 1 {
		mine := en[0] == t
		if mine && p.w.opts.preempt >= 0 && p.preempt >= p.w.opts.preempt {
			to = t
		} else {
			i := 0
			if !p.w.opts.fixedOrder {
				i = p.choose(len(en))
			}
			to = en[i]
			if por {
				if p.sleep == nil {
					p.sleep = map[*Thread]bool{}
				}
				for _, u := range en[:i] {
					p.sleep[u] = true
				}
			}
			if mine && to != t {
				p.preempt++
			}
		}
	} else {
		to = en[0]
	}
	if live > 1 || exiting {
		p.sched = append(p.sched, to.id)
	}
	to.waitFor = nil
	p.seg, p.segC = to.pend, to.pendC
	to.pend, to.pendC = opOther, nil
	if to == t {
		return
	}
	p.cur = to
	to.resume <- true
	if exiting {
		return
	}
	if !<-t.resume {
		panic(abort{kind: "kill"})
	}
}

// block waits until cond holds.
func (t *Thread) block(why string, cond func() bool) {
	t.waitFor = cond
	t.why = why + " at " + t.fr.where()
	if !t.p.multi {
		if !cond() {
			t.deadlock()
		}
		t.waitFor = nil
		return
	}
	t.p.next(t, false)
}

// ---- channels ----

func (t *Thread) send(ch *ChanV, v Value) {
	if ch == nil {
		t.block("send on nil channel", func() bool { return false })
	}
	can := func() bool { return ch.closed || len(ch.buf) < ch.cap || (ch.cap == 0 && ch.recvq > len(ch.buf)) }
	if !t.p.multi && !can() {
		t.block("channel send", can)
	}
	if t.p.multi {
		t.block("channel send", can)
	}
	if ch.closed {
		panic(targetPanic{IfaceV{t: t.p.w.ex.runtimeErr, v: "send on closed channel"}})
	}
	// The k-th receive happens before the (k+cap)-th send completes; without a buffer the receive
	// happens before the send it meets completes. The sent value carries the clock from before that.
	it := chanItem{v: v, vc: append(vclock{}, t.vc...)}
	t.vc.inc(t.id)
	if ch.cap == 0 {
		if len(ch.buf) < len(ch.waitT) {
			r := ch.waitT[len(ch.buf)]
			t.acquireFrom(r.vc)
			r.vc.inc(r.id)
		}
	} else if ch.nsent >= ch.cap && len(ch.taken) > 0 {
		t.acquireFrom(ch.taken[0])
		ch.taken = append([]vclock{}, ch.taken[1:]...)
	}
	ch.nsent++
	ch.buf = append(ch.buf, it)
}

func (ch *ChanV) wait(t *Thread) { ch.recvq++; ch.waitT = append(ch.waitT, t) }

func (ch *ChanV) unwait(t *Thread) {
	ch.recvq--
	for i, x := range ch.waitT {
		if x == t {
			ch.waitT = append(append([]*Thread{}, ch.waitT[:i]...), ch.waitT[i+1:]...)
			return
		}
	}
}

func (t *Thread) recv(ch *ChanV, ct types.Type) (Value, bool) {
	if ch == nil {
		t.block("receive from nil channel", func() bool { return false })
	}
	can := func() bool { return ch.closed || len(ch.buf) > 0 }
	if !can() {
		ch.wait(t)
		t.block("channel receive", can)
		ch.unwait(t)
	}
	if len(ch.buf) > 0 {
		it := ch.buf[0]
		ch.buf = append([]chanItem{}, ch.buf[1:]...)
		t.acquireFrom(it.vc)
		if ch.cap > 0 {
			ch.taken = append(ch.taken, append(vclock{}, t.vc...))
			t.vc.inc(t.id)
		}
		return it.v, true
	}
	t.acquireFrom(ch.vc)
	return t.p.w.zero(ct.Underlying().(*types.Chan).Elem()), false
}

func (t *Thread) selectOp(in *ssa.Select, ci *cinstr, fr *frame) Value {
	tb := t.p.w.tb
	type st struct {
		ch   *ChanV
		send Value
		dir  types.ChanDir
	}
	var sts []st
	k := 0
	for _, s := range in.States {
		x := st{dir: s.Dir}
		x.ch, _ = fr.get(&ci.ops[k]).(*ChanV)
		k++
		if s.Dir == types.SendOnly {
			x.send = fr.get(&ci.ops[k])
		}
		k++
		sts = append(sts, x)
	}
	ready := func() []int {
		var r []int
		for i, s := range sts {
			if s.ch == nil {
				continue
			}
			if s.dir == types.SendOnly {
				if s.ch.closed || len(s.ch.buf) < s.ch.cap || (s.ch.cap == 0 && s.ch.recvq > len(s.ch.buf)) {
					r = append(r, i)
				}
			} else if s.ch.closed || len(s.ch.buf) > 0 {
				r = append(r, i)
			}
		}
		return r
	}
	rs := ready()
	idx := -1
	if len(rs) == 0 && in.Blocking {
		for _, s := range sts {
			if s.ch != nil && s.dir != types.SendOnly {
				s.ch.wait(t)
			}
		}
		t.block("select", func() bool { return len(ready()) > 0 })
		for _, s := range sts {
			if s.ch != nil && s.dir != types.SendOnly {
				s.ch.unwait(t)
			}
		}
		rs = ready()
	}
	if len(rs) > 0 {
		k := t.p.choose(len(rs))
		if len(rs) > 1 {
			t.p.sched = append(t.p.sched, k)
		}
		idx = rs[k]
	}
	res := TupleV{tb.i64(int64(idx)), tb.ff}
	for i, s := range sts {
		if s.dir == types.SendOnly {
			continue
		}
		et := in.States[i].Chan.Type().Underlying().(*types.Chan).Elem()
		var v Value = t.p.w.zero(et)
		if i == idx {
			x, ok := t.recv(s.ch, in.States[i].Chan.Type())
			v = x
			res[1] = tb.boolean(ok)
		}
		res = append(res, v)
	}
	if idx >= 0 && sts[idx].dir == types.SendOnly {
		t.send(sts[idx].ch, sts[idx].send)
	}
	return res
}

// ---- globals ----

// global yields the address of a package variable, initialising variables of packages outside the
// repository on first use from their initialiser expression.
func (p *Path) global(g *ssa.Global) Value {
	c := p.globals[g]
	if c == nil {
		c = newCell(deref(g.Type()))
		p.globals[g] = c
		if !p.w.ex.ownInit(g.Pkg) && g.Name() != "init$guard" {
			p.lazyInit(g, c)
		}
	}
	return c
}

func (p *Path) lazyInit(g *ssa.Global, c *Cell) {
	init := g.Pkg.Func("init")
	if init == nil {
		return
	}
	t := p.cur
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			v, ok := p.evalInit(t, st.Val, 0)
			if !ok {
				panic(abort{"unsupported", "initialiser of " + g.String()})
			}
			p.w.storeRaw(c, v)
			return
		}
	}
}

// evalInit evaluates a pure initialiser expression tree.
func (p *Path) evalInit(t *Thread, v ssa.Value, depth int) (Value, bool) {
	if depth > 20 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return p.w.constValue(x), true
	case *ssa.Global:
		return p.global(x), true
	case *ssa.Function:
		return x, true
	case *ssa.MakeInterface:
		y, ok := p.evalInit(t, x.X, depth+1)
		return IfaceV{t: x.X.Type(), v: y}, ok
	case *ssa.ChangeInterface:
		return p.evalInit(t, x.X, depth+1)
	case *ssa.ChangeType:
		return p.evalInit(t, x.X, depth+1)
	case *ssa.Convert:
		y, ok := p.evalInit(t, x.X, depth+1)
		if !ok {
			return nil, false
		}
		return t.convert(x.Type(), x.X.Type(), y), true
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			y, ok := p.evalInit(t, x.X, depth+1)
			if !ok {
				return nil, false
			}
			return p.w.loadRaw(y.(*Cell)), true
		}
		return nil, false
	case *ssa.BinOp:
		a, ok1 := p.evalInit(t, x.X, depth+1)
		b, ok2 := p.evalInit(t, x.Y, depth+1)
		if !ok1 || !ok2 {
			return nil, false
		}
		return t.binop(x.Op, x.X.Type(), a, b), true
	case *ssa.Call:
		if x.Call.IsInvoke() {
			return nil, false
		}
		fn, ok := p.evalInit(t, x.Call.Value, depth+1)
		if !ok {
			return nil, false
		}
		var args []Value
		for _, a := range x.Call.Args {
			y, ok := p.evalInit(t, a, depth+1)
			if !ok {
				return nil, false
			}
			args = append(args, y)
		}
		return t.call(fn, args, x), true
	case *ssa.Alloc:
		c := newCell(deref(x.Type()))
		for _, ref := range *x.Referrers() {
			switch r := ref.(type) {
			case *ssa.Store:
				if r.Addr == x {
					y, ok := p.evalInit(t, r.Val, depth+1)
					if !ok {
						return nil, false
					}
					p.w.storeRaw(c, y)
				}
			case *ssa.FieldAddr:
				for _, rr := range *r.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == r {
						y, ok := p.evalInit(t, s.Val, depth+1)
						if !ok {
							return nil, false
						}
						p.w.storeRaw(c.kids[r.Field], y)
					}
				}
			case *ssa.IndexAddr:
				k, ok := r.Index.(*ssa.Const)
				if !ok {
					return nil, false
				}
				for _, rr := range *r.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == r {
						y, ok := p.evalInit(t, s.Val, depth+1)
						if !ok {
							return nil, false
						}
						p.w.storeRaw(c.arr.at(int(k.Int64())), y)
					}
				}
			}
		}
		return c, true
	case *ssa.Slice:
		y, ok := p.evalInit(t, x.X, depth+1)
		if !ok || x.Low != nil || x.High != nil {
			return nil, false
		}
		cell := y.(*Cell)
		n := len(cell.arr.cells)
		return SliceV{arr: cell.arr, len: n, cap: n}, true
	case *ssa.MakeChan:
		n, ok := x.Size.(*ssa.Const)
		if !ok {
			return nil, false
		}
		return &ChanV{et: x.Type().Underlying().(*types.Chan).Elem(), cap: int(n.Int64())}, true
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		m := &MapV{kt: mt.Key(), et: mt.Elem(), index: map[string]*mapEntry{}}
		for _, ref := range *x.Referrers() {
			if u, ok := ref.(*ssa.MapUpdate); ok {
				k, ok1 := p.evalInit(t, u.Key, depth+1)
				y, ok2 := p.evalInit(t, u.Value, depth+1)
				if !ok1 || !ok2 {
					return nil, false
				}
				t.mapSet(m, k, y)
			}
		}
		return m, true
	}
	return nil, false
}
