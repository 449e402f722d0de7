package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"runtime"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled function info ----

type opndKind uint8

const (
	okReg opndKind = iota
	okConst
	okGlobal
	okFunc
	okBuiltin
	okNone
)

type opnd struct {
	kind opndKind
	idx  int
	v    Value
	g    *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []opnd
}

type fnInfo struct {
	fn      *ssa.Function
	blocks  [][]cinstr
	nreg    int
	params  []int
	free    []int
	intr    intrinsic
	short   shortcut
	noRace  bool
	visited bool
	name    string
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, name: fn.String()}
	w.fns[fn] = fi
	fi.intr = lookupIntrinsic(fn)
	fi.short = shortcuts[fi.name]
	if fn.Pkg != nil {
		fi.noRace = strings.Contains(fn.Pkg.Pkg.Path(), "zzverif/")
	} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
		fi.noRace = strings.Contains(fn.Parent().Pkg.Pkg.Path(), "zzverif/")
	}
	if fi.intr != nil || fn.Blocks == nil {
		return fi
	}
	regs := map[ssa.Value]int{}
	reg := func(v ssa.Value) int {
		i := len(regs)
		regs[v] = i
		return i
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, reg(p))
	}
	for _, f := range fn.FreeVars {
		fi.free = append(fi.free, reg(f))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		var cs []cinstr
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			for _, op := range in.Operands(nil) {
				ci.ops = append(ci.ops, w.operand(*op, regs))
			}
			cs = append(cs, ci)
		}
		fi.blocks = append(fi.blocks, cs)
	}
	fi.nreg = len(regs)
	return fi
}

func (w *Worker) operand(v ssa.Value, regs map[ssa.Value]int) opnd {
	switch x := v.(type) {
	case nil:
		return opnd{kind: okNone}
	case *ssa.Const:
		return opnd{kind: okConst, v: w.constValue(x)}
	case *ssa.Global:
		return opnd{kind: okGlobal, g: x}
	case *ssa.Function:
		return opnd{kind: okFunc, v: x}
	case *ssa.Builtin:
		return opnd{kind: okBuiltin, v: x}
	}
	return opnd{kind: okReg, idx: regs[v]}
}

type unsupportedConst struct{ s string }

func (w *Worker) constValue(c *ssa.Const) (res Value) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				res = unsupportedConst{a.msg}
				return
			}
			panic(r)
		}
	}()
	if c.Value == nil {
		return w.zero(c.Type())
	}
	if tp, ok := c.Type().(*types.TypeParam); ok {
		return unsupportedConst{"type parameter constant " + tp.String()}
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		return unsupportedConst{c.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return w.tb.boolean(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return string(rune(i))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return w.tb.bv(sortOf(b), uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return w.tb.bv(sortOf(b), u)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return w.tb.flt(f)
	}
	return unsupportedConst{c.String()}
}

// ---- threads and frames ----

type deferred struct {
	fn   Value
	args []Value
	in   ssa.Instruction
}

type frame struct {
	t        *Thread
	fi       *fnInfo
	caller   *frame
	regs     []Value
	defers   []deferred
	result   Value
	panicked bool
	panicV   Value
	block    int
	prev     int
	pc       int
	recov    bool
	isDefer  bool // this frame runs a deferred call of caller
}

func (fr *frame) where() string {
	if fr == nil {
		return "?"
	}
	pos := token.NoPos
	if fr.fi.blocks != nil && fr.block < len(fr.fi.blocks) && fr.pc < len(fr.fi.blocks[fr.block]) {
		pos = fr.fi.blocks[fr.block][fr.pc].in.Pos()
		for i := fr.pc; pos == token.NoPos && i >= 0; i-- {
			pos = fr.fi.blocks[fr.block][i].in.Pos()
		}
	}
	ps := fr.t.p.w.ex.prog.Fset.Position(pos)
	return fmt.Sprintf("%s (%s:%d)", fr.fi.name, shortFile(ps.Filename), ps.Line)
}

func shortFile(f string) string {
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		return f[i+1:]
	}
	return f
}

// Thread is one interpreted goroutine.
type Thread struct {
	p       *Path
	id      int
	fr      *frame
	depth   int
	resume  chan bool // true: run, false: die
	waitFor func() bool
	why     string
	done    bool
	vc      vclock
	started bool
	inNet   bool
	idle    bool   // waits until no other thread can run
	pend    opKind // what the thread is about to do at its scheduling point
	pendC   *Cell
}

func (t *Thread) stack() string {
	var sb strings.Builder
	n := 0
	for fr := t.fr; fr != nil && n < 40; fr = fr.caller {
		sb.WriteString(fr.where())
		sb.WriteByte('\n')
		n++
	}
	return sb.String()
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v Value // IfaceV
}

func (t *Thread) rtpanic(msg string) {
	panic(targetPanic{IfaceV{t: t.p.w.ex.runtimeErr, v: strings.TrimPrefix(msg, "runtime error: ")}})
}

func (t *Thread) unsupported(f string, a ...interface{}) {
	panic(abort{"unsupported", fmt.Sprintf(f, a...) + " at " + t.fr.where()})
}

func (t *Thread) concretise(x *Term) uint64 { return t.p.concretise(x) }

// intOf makes an integer value concrete.
func (t *Thread) intOf(v Value) int {
	x := v.(*Term)
	u := t.p.concretise(x)
	return int(sext(u, x.sort))
}

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case okReg:
		return fr.regs[o.idx]
	case okConst:
		if u, ok := o.v.(unsupportedConst); ok {
			fr.t.unsupported("constant %s", u.s)
		}
		return o.v
	case okGlobal:
		return fr.t.p.global(o.g)
	case okFunc, okBuiltin:
		return o.v
	}
	return nil
}

func (t *Thread) call(fn Value, args []Value, in ssa.Instruction) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		return t.callFn(f, args, nil)
	case *Closure:
		if f == nil {
			t.rtpanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return t.callFn(f.fn, args, f.env)
	case *ssa.Builtin:
		return t.builtin(f, args, in)
	case *nativeFn:
		return f.f(t, args)
	case nil:
		t.rtpanic("runtime error: invalid memory address or nil pointer dereference")
	}
	t.unsupported("call of %T", fn)
	return nil
}

// nativeFn is a callable implemented by the engine.
type nativeFn struct {
	f func(t *Thread, args []Value) Value
}

func (t *Thread) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	fi := t.p.w.info(fn)
	if !fi.visited {
		fi.visited = true
	}
	if fi.intr != nil {
		return fi.intr(t, fn, args)
	}
	if fi.short != nil {
		if v, ok := fi.short(t, args); ok {
			return v
		}
	}
	if fn.Synthetic == "package initializer" && !t.p.w.ex.ownInit(fn.Pkg) {
		return nil
	}
	if fi.blocks == nil {
		t.unsupported("no body for %s", fi.name)
	}
	if t.depth > 2000 {
		panic(abort{"steps", "call depth exceeded in " + fi.name})
	}
	fr := &frame{t: t, fi: fi, caller: t.fr, regs: make([]Value, fi.nreg)}
	for i, r := range fi.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fi.free {
		fr.regs[r] = env[i]
	}
	t.fr = fr
	t.depth++
	fr.run()
	t.depth--
	t.fr = fr.caller
	return fr.result
}

// run executes the frame to completion, including its deferred calls.
func (fr *frame) run() {
	for {
		if fr.runBlocks() {
			return
		}
		// panicking: run the deferred calls.
		t := fr.t
		for t.fr != fr { // unwind callee frames
			t.depth--
			t.fr = t.fr.caller
		}
		for len(fr.defers) > 0 && fr.panicked {
			fr.runDefer()
		}
		if fr.panicked {
			t.depth--
			t.fr = fr.caller
			panic(targetPanic{fr.panicV})
		}
		// recovered
		for len(fr.defers) > 0 {
			fr.runDefer()
		}
		rb := fr.fi.fn.Recover
		if rb == nil {
			// Unnamed results: zero values.
			res := fr.fi.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = t.p.w.zero(res.At(0).Type())
			default:
				fr.result = t.p.w.zero(res)
			}
			return
		}
		fr.prev = fr.block
		fr.block = rb.Index
		fr.pc = 0
		fr.recov = true
	}
}

func (fr *frame) runDefer() {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	t := fr.t
	func() {
		ok := false
		defer func() {
			if ok {
				return
			}
			r := recover()
			if tp, is := r.(targetPanic); is {
				for t.fr != fr {
					t.depth--
					t.fr = t.fr.caller
				}
				fr.panicked = true
				fr.panicV = tp.v
				return
			}
			if re, is := r.(runtime.Error); is {
				panic(engineBug(t, re))
			}
			panic(r)
		}()
		t.call(d.fn, d.args, d.in)
		ok = true
	}()
}

type engineErr struct{ msg string }

func engineBug(t *Thread, re interface{}) engineErr {
	buf := make([]byte, 8192)
	n := runtime.Stack(buf, false)
	return engineErr{fmt.Sprintf("%v\ninterpreted stack:\n%s\n%s", re, t.stack(), buf[:n])}
}

// runBlocks returns true on normal completion, false when the frame panics.
func (fr *frame) runBlocks() (ok bool) {
	defer func() {
		if ok {
			return
		}
		r := recover()
		switch x := r.(type) {
		case targetPanic:
			fr.panicked = true
			fr.panicV = x.v
			return
		case runtime.Error:
			panic(engineBug(fr.t, x))
		}
		panic(r)
	}()
	p := fr.t.p
	for {
		blk := fr.fi.blocks[fr.block]
		n := len(blk)
		jumped := false
		for ; fr.pc < n; fr.pc++ {
			p.steps++
			if p.steps > p.maxStep || p.steps&0xffff == 0 && p.steps > 200000 && memHigh.Load() {
				panic(abort{"steps", "step budget exceeded in " + fr.fi.name})
			}
			ci := &blk[fr.pc]
			switch in := ci.in.(type) {
			case *ssa.Jump:
				fr.jump(fr.fi.fn.Blocks[fr.block].Succs[0].Index)
				jumped = true
			case *ssa.If:
				c := fr.get(&ci.ops[0]).(*Term)
				s := fr.fi.fn.Blocks[fr.block].Succs
				if p.branch(c) {
					fr.jump(s[0].Index)
				} else {
					fr.jump(s[1].Index)
				}
				jumped = true
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					tv := make(TupleV, len(ci.ops))
					for i := range ci.ops {
						tv[i] = fr.get(&ci.ops[i])
					}
					fr.result = tv
				}
				return true
			case *ssa.RunDefers:
				for len(fr.defers) > 0 {
					fr.runDefer()
				}
				if fr.panicked {
					panic(targetPanic{fr.panicV})
				}
			case *ssa.Panic:
				panic(targetPanic{fr.get(&ci.ops[0])})
			default:
				fr.exec(ci, in)
			}
			if jumped {
				break
			}
		}
	}
}

func (fr *frame) jump(to int) {
	fr.prev = fr.block
	fr.block = to
	fr.pc = 0
	// Evaluate phis together.
	blk := fr.fi.blocks[to]
	var tmp []Value
	nphi := 0
	for i := range blk {
		if _, ok := blk[i].in.(*ssa.Phi); !ok {
			break
		}
		nphi++
	}
	if nphi == 0 {
		return
	}
	edge := 0
	for i, pr := range fr.fi.fn.Blocks[to].Preds {
		if pr.Index == fr.prev {
			edge = i
			break
		}
	}
	for i := 0; i < nphi; i++ {
		tmp = append(tmp, fr.get(&blk[i].ops[edge]))
	}
	for i := 0; i < nphi; i++ {
		fr.regs[blk[i].dst] = tmp[i]
	}
	fr.pc = nphi
}

func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (fr *frame) exec(ci *cinstr, in ssa.Instruction) {
	t := fr.t
	w := t.p.w
	tb := w.tb
	set := func(v Value) { fr.regs[ci.dst] = v }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		set(newCell(deref(in.Type())))
	case *ssa.BinOp:
		set(t.binop(in.Op, in.X.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1])))
	case *ssa.UnOp:
		set(t.unop(in, fr.get(&ci.ops[0])))
	case *ssa.Call:
		fn, args := fr.prepCall(&in.Call, ci.ops)
		set(t.call(fn, args, in))
	case *ssa.Defer:
		fn, args := fr.prepCall(&in.Call, ci.ops)
		target := fr
		target.defers = append(target.defers, deferred{fn, args, in})
	case *ssa.Go:
		fn, args := fr.prepCall(&in.Call, ci.ops)
		t.spawn(fn, args)
	case *ssa.ChangeInterface:
		set(fr.get(&ci.ops[0]))
	case *ssa.ChangeType:
		set(fr.get(&ci.ops[0]))
	case *ssa.Convert:
		if v, ok := t.tabulate(in, fr.get(&ci.ops[0])); ok {
			set(v)
			break
		}
		set(t.convert(in.Type(), in.X.Type(), fr.get(&ci.ops[0])))
	case *ssa.MultiConvert:
		set(t.convert(in.Type(), in.X.Type(), fr.get(&ci.ops[0])))
	case *ssa.Extract:
		set(fr.get(&ci.ops[0]).(TupleV)[in.Index])
	case *ssa.Field:
		set(fr.get(&ci.ops[0]).(*StructV).f[in.Field])
	case *ssa.FieldAddr:
		c := fr.get(&ci.ops[0]).(*Cell)
		if c == nil {
			t.rtpanic("runtime error: invalid memory address or nil pointer dereference")
		}
		set(c.kids[in.Field])
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		switch a := x.(type) {
		case *ArrayV:
			i := t.index(fr.get(&ci.ops[1]), len(a.e))
			set(a.e[i])
		case string:
			i := t.index(fr.get(&ci.ops[1]), len(a))
			set(tb.bv(SBV8, uint64(a[i])))
		default:
			t.unsupported("index of %T", x)
		}
	case *ssa.IndexAddr:
		x := fr.get(&ci.ops[0])
		switch a := x.(type) {
		case SliceV:
			i := t.index(fr.get(&ci.ops[1]), a.len)
			set(a.at(i))
		case *Cell:
			if a == nil {
				t.rtpanic("runtime error: invalid memory address or nil pointer dereference")
			}
			i := t.index(fr.get(&ci.ops[1]), len(a.arr.cells))
			set(a.arr.at(i))
		default:
			t.unsupported("indexaddr of %T", x)
		}
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		k := fr.get(&ci.ops[1])
		if s, ok := x.(string); ok {
			i := t.index(k, len(s))
			set(tb.bv(SBV8, uint64(s[i])))
			return
		}
		m, _ := x.(*MapV)
		var v Value
		ok := false
		if m != nil {
			t.raceRead(&m.sh, "map")
			if e := m.index[t.keyString(k)]; e != nil {
				v, ok = e.v, true
			}
		}
		if !ok {
			et := in.X.Type().Underlying().(*types.Map).Elem()
			v = w.zero(et)
		}
		if in.CommaOk {
			set(TupleV{v, tb.boolean(ok)})
		} else {
			set(v)
		}
	case *ssa.MapUpdate:
		m, _ := fr.get(&ci.ops[0]).(*MapV)
		k := fr.get(&ci.ops[1])
		v := fr.get(&ci.ops[2])
		if m == nil {
			panic(targetPanic{IfaceV{t: w.ex.runtimeErr, v: "assignment to entry in nil map"}})
		}
		t.raceWrite(&m.sh, "map")
		t.mapSet(m, k, v)
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		set(&MapV{kt: mt.Key(), et: mt.Elem(), index: map[string]*mapEntry{}})
	case *ssa.MakeChan:
		n := t.intOf(fr.get(&ci.ops[0]))
		if n < 0 || n > 1<<20 {
			panic(targetPanic{IfaceV{t: w.ex.runtimeErr, v: "makechan: size out of range"}})
		}
		set(&ChanV{et: in.Type().Underlying().(*types.Chan).Elem(), cap: n})
	case *ssa.MakeSlice:
		set(t.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1])))
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = fr.get(&ci.ops[i+1])
		}
		set(&Closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.MakeInterface:
		set(IfaceV{t: in.X.Type(), v: fr.get(&ci.ops[0])})
	case *ssa.Phi:
		// handled in jump; only reached in the entry of a recover block
	case *ssa.Range:
		x := fr.get(&ci.ops[0])
		if s, ok := x.(string); ok {
			set(&RangeIter{str: s})
			return
		}
		m, _ := x.(*MapV)
		it := &RangeIter{m: m}
		if m != nil {
			t.raceRead(&m.sh, "map")
			it.rest = m.live()
		}
		set(it)
	case *ssa.Next:
		it := fr.get(&ci.ops[0]).(*RangeIter)
		set(t.next(in, it))
	case *ssa.Select:
		set(t.selectOp(in, ci, fr))
	case *ssa.Send:
		ch, _ := fr.get(&ci.ops[0]).(*ChanV)
		t.send(ch, fr.get(&ci.ops[1]))
	case *ssa.Slice:
		set(t.slice(in, ci, fr))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(SliceV)
		at := deref(in.Type()).Underlying().(*types.Array)
		n := int(at.Len())
		if s.len < n {
			t.rtpanic("runtime error: cannot convert slice to array pointer")
		}
		if s.arr == nil {
			set((*Cell)(nil))
			return
		}
		set(&Cell{t: at, arr: &Arr{et: s.arr.et, cells: s.arr.cells[s.off : s.off+n]}})
	case *ssa.Store:
		c, _ := fr.get(&ci.ops[0]).(*Cell)
		if c == nil {
			t.rtpanic("runtime error: invalid memory address or nil pointer dereference")
		}
		t.store(c, fr.get(&ci.ops[1]))
	case *ssa.TypeAssert:
		set(t.typeAssert(in, fr.get(&ci.ops[0])))
	default:
		t.unsupported("instruction %T", in)
	}
}

// makeSlice allocates with Go's checks.
func (t *Thread) makeSlice(et types.Type, l, c Value) SliceV {
	n := t.intOf(l)
	m := t.intOf(c)
	ex := t.p.w.ex
	lim := 1 << 22
	esz := int(ex.sizes.Sizeof(et))
	if esz < 1 {
		esz = 1
	}
	huge := func(x int) bool { return x > (1<<47)/esz }
	if n < 0 || huge(n) {
		panic(targetPanic{IfaceV{t: ex.runtimeErr, v: "makeslice: len out of range"}})
	}
	if m < n || huge(m) {
		panic(targetPanic{IfaceV{t: ex.runtimeErr, v: "makeslice: cap out of range"}})
	}
	if n > lim || m > lim {
		panic(abort{"bound", fmt.Sprintf("allocation of %d elements", m)})
	}
	return SliceV{arr: &Arr{et: et, cells: make([]*Cell, m)}, len: n, cap: m}
}

func (t *Thread) mapSet(m *MapV, k, v Value) {
	ks := t.keyString(k)
	if e := m.index[ks]; e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.entries = append(m.entries, e)
	m.index[ks] = e
}

func (t *Thread) mapDelete(m *MapV, k Value) {
	ks := t.keyString(k)
	if e := m.index[ks]; e != nil {
		e.deleted = true
		delete(m.index, ks)
		var es []*mapEntry
		for _, x := range m.entries {
			if x != e {
				es = append(es, x)
			}
		}
		m.entries = es
	}
}

// next yields the next element of a range over a map or string. The order of a map is a free choice.
func (t *Thread) next(in *ssa.Next, it *RangeIter) Value {
	tb := t.p.w.tb
	if in.IsString {
		if it.pos >= len(it.str) {
			return TupleV{tb.ff, tb.i64(0), tb.bv(SBV32, 0)}
		}
		r, n := decodeRune(it.str[it.pos:])
		i := it.pos
		it.pos += n
		return TupleV{tb.tt, tb.i64(int64(i)), tb.bv(SBV32, uint64(r))}
	}
	var live []*mapEntry
	for _, e := range it.rest {
		if !e.deleted {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		tt := in.Type().(*types.Tuple)
		z := func(i int) Value {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return t.p.w.zero(tt.At(i).Type())
		}
		return TupleV{tb.ff, z(1), z(2)}
	}
	i := 0
	if len(live) > 1 {
		t.p.unordered = true
	}
	if !t.p.mapOrd {
		i = t.p.choose(len(live))
	}
	e := live[i]
	it.rest = append(append([]*mapEntry{}, live[:i]...), live[i+1:]...)
	return TupleV{tb.tt, e.k, e.v}
}

func decodeRune(s string) (rune, int) {
	for i, r := range s {
		_ = i
		n := len(string(r))
		if r == 0xFFFD && !strings.HasPrefix(s, "\uFFFD") {
			n = 1
		}
		return r, n
	}
	return 0, 0
}

// index checks the bounds of an index and makes it concrete.
func (t *Thread) index(v Value, n int) int {
	x := v.(*Term)
	if x.op == OConst {
		i := sext(x.u, x.sort)
		if i < 0 || i >= int64(n) {
			t.rtpanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	tb := t.p.w.tb
	y := tb.ext(x, SBV64, true)
	if !t.p.branch(tb.bin(OBULt, y, tb.i64(int64(n)))) {
		t.rtpanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	return int(t.concretise(y))
}

func (fr *frame) prepCall(c *ssa.CallCommon, ops []opnd) (Value, []Value) {
	t := fr.t
	if c.IsInvoke() {
		recv := fr.get(&ops[0])
		iv, _ := recv.(IfaceV)
		if iv.t == nil {
			t.rtpanic("runtime error: invalid memory address or nil pointer dereference")
		}
		args := make([]Value, 0, len(ops))
		args = append(args, iv.v)
		for i := 1; i < len(ops); i++ {
			args = append(args, fr.get(&ops[i]))
		}
		return t.p.w.method(t, iv.t, c.Method), args
	}
	fn := fr.get(&ops[0])
	args := make([]Value, 0, len(ops))
	for i := 1; i < len(ops); i++ {
		args = append(args, fr.get(&ops[i]))
	}
	return fn, args
}

func (w *Worker) method(t *Thread, typ types.Type, m *types.Func) Value {
	if nt, ok := typ.(*nativeType); ok {
		f := nt.methods[m.Name()]
		if f == nil {
			t.unsupported("method %s of native type", m.Name())
		}
		return &nativeFn{f}
	}
	key := methKey{typ, m.Name()}
	if f, ok := w.meths[key]; ok {
		return f
	}
	w.ex.progMu.Lock()
	f := w.ex.prog.LookupMethod(typ, m.Pkg(), m.Name())
	w.ex.progMu.Unlock()
	if f == nil {
		t.unsupported("no method %s on %s", m.Name(), typ)
	}
	w.meths[key] = f
	return f
}

type methKey struct {
	t types.Type
	n string
}

// nativeType is the dynamic type of engine-made values.
type nativeType struct {
	types.Type
	name    string
	methods map[string]func(t *Thread, args []Value) Value
}

func (n *nativeType) Underlying() types.Type { return n }
func (n *nativeType) String() string         { return n.name }

// ---- memory ----

func (t *Thread) load(c *Cell) Value {
	if t.p.multi {
		t.raceCell(c, false)
	}
	return t.p.w.loadRaw(c)
}

func (t *Thread) store(c *Cell, v Value) {
	if t.p.multi {
		t.raceCell(c, true)
	}
	t.p.w.storeRaw(c, v)
}

// ---- operators ----

func (t *Thread) unop(in *ssa.UnOp, x Value) Value {
	tb := t.p.w.tb
	switch in.Op {
	case token.MUL:
		c, _ := x.(*Cell)
		if c == nil {
			t.rtpanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return t.load(c)
	case token.NOT:
		return tb.not(x.(*Term))
	case token.SUB:
		v := x.(*Term)
		if isFloatSort(v.sort) {
			return t.fneg(v)
		}
		return tb.bin(OBSub, tb.bv(v.sort, 0), v)
	case token.XOR:
		v := x.(*Term)
		return tb.bin(OBXor, v, tb.bv(v.sort, ^uint64(0)))
	case token.ARROW:
		ch, _ := x.(*ChanV)
		v, ok := t.recv(ch, in.X.Type())
		if in.CommaOk {
			return TupleV{v, tb.boolean(ok)}
		}
		return v
	}
	t.unsupported("unary %s", in.Op)
	return nil
}

func isFloatSort(s Sort) bool { return s == SFlt || s == SReal || s == SFP || s == STab }

func (t *Thread) binop(op token.Token, typ types.Type, x, y Value) Value {
	tb := t.p.w.tb
	switch op {
	case token.EQL:
		return t.equal(x, y)
	case token.NEQ:
		return tb.not(t.equal(x, y))
	}
	if s, ok := x.(string); ok {
		u := y.(string)
		switch op {
		case token.ADD:
			return s + u
		case token.LSS:
			return tb.boolean(s < u)
		case token.LEQ:
			return tb.boolean(s <= u)
		case token.GTR:
			return tb.boolean(s > u)
		case token.GEQ:
			return tb.boolean(s >= u)
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		t.unsupported("binary %s on %T", op, x)
	}
	if isFloatSort(a.sort) || isFloatSort(b.sort) {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return t.farith(op, a, b, typ)
		case token.LSS:
			return t.fcmp("<", a, b)
		case token.LEQ:
			return t.fcmp("<=", a, b)
		case token.GTR:
			return t.fcmp("<", b, a)
		case token.GEQ:
			return t.fcmp("<=", b, a)
		}
		t.unsupported("float %s", op)
	}
	if a.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return tb.and(a, b)
		case token.OR, token.LOR:
			return tb.or(a, b)
		case token.XOR:
			return tb.not(tb.eq(a, b))
		}
	}
	signed := isSigned(typ)
	switch op {
	case token.SHL, token.SHR:
		// The shift count may have another width; a negative signed count panics.
		cnt := b
		if cnt.sort != a.sort {
			if cnt.sort.bits() > a.sort.bits() {
				// saturate
				big := tb.bin(OBULe, tb.bv(cnt.sort, uint64(a.sort.bits())), cnt)
				if t.p.branch(big) {
					cnt = tb.bv(a.sort, uint64(a.sort.bits()))
				} else {
					cnt = tb.ext(cnt, a.sort, false)
				}
			} else {
				cnt = tb.ext(cnt, a.sort, false)
			}
		}
		if op == token.SHL {
			return tb.bin(OBShl, a, cnt)
		}
		if signed {
			return tb.bin(OBAShr, a, cnt)
		}
		return tb.bin(OBLShr, a, cnt)
	case token.QUO, token.REM:
		if t.p.branch(tb.eq(b, tb.bv(b.sort, 0))) {
			t.rtpanic("runtime error: integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return tb.bin(OBSDiv, a, b)
		case op == token.QUO:
			return tb.bin(OBUDiv, a, b)
		case signed:
			return tb.bin(OBSRem, a, b)
		}
		return tb.bin(OBURem, a, b)
	case token.ADD:
		return tb.bin(OBAdd, a, b)
	case token.SUB:
		return tb.bin(OBSub, a, b)
	case token.MUL:
		return tb.bin(OBMul, a, b)
	case token.AND:
		return tb.bin(OBAnd, a, b)
	case token.OR:
		return tb.bin(OBOr, a, b)
	case token.XOR:
		return tb.bin(OBXor, a, b)
	case token.AND_NOT:
		return tb.bin(OBAnd, a, tb.bin(OBXor, b, tb.bv(b.sort, ^uint64(0))))
	}
	lt, le := OBULt, OBULe
	if signed {
		lt, le = OBSLt, OBSLe
	}
	switch op {
	case token.LSS:
		return tb.bin(lt, a, b)
	case token.LEQ:
		return tb.bin(le, a, b)
	case token.GTR:
		return tb.bin(lt, b, a)
	case token.GEQ:
		return tb.bin(le, b, a)
	}
	t.unsupported("binary %s", op)
	return nil
}

func (t *Thread) convert(to, from types.Type, x Value) Value {
	tb := t.p.w.tb
	ut, uf := to.Underlying(), from.Underlying()
	if bt, ok := ut.(*types.Basic); ok {
		if bf, ok := uf.(*types.Basic); ok {
			switch {
			case bt.Info()&types.IsInteger != 0 && bf.Info()&types.IsInteger != 0:
				return tb.ext(x.(*Term), sortOf(bt), isSigned(from))
			case bt.Info()&types.IsFloat != 0 && bf.Info()&types.IsInteger != 0:
				return t.intToFloat(x.(*Term), isSigned(from), bt)
			case bt.Info()&types.IsInteger != 0 && bf.Info()&types.IsFloat != 0:
				return t.floatToInt(x.(*Term), bt)
			case bt.Info()&types.IsFloat != 0 && bf.Info()&types.IsFloat != 0:
				v := x.(*Term)
				if bt.Kind() == types.Float32 && bf.Kind() != types.Float32 {
					if v.sort == SFlt {
						return tb.flt(float64(float32(v.f)))
					}
					t.unsupported("symbolic float32")
				}
				return v
			case bt.Info()&types.IsString != 0 && bf.Info()&types.IsString != 0:
				return x
			case bt.Info()&types.IsString != 0 && bf.Info()&types.IsInteger != 0:
				return string(rune(int64(t.intOf(x))))
			case bt.Kind() == types.UnsafePointer || bf.Kind() == types.UnsafePointer:
				return x
			}
		}
		if bt.Kind() == types.UnsafePointer {
			return x
		}
		if bt.Info()&types.IsString != 0 {
			if s, ok := uf.(*types.Slice); ok {
				sl := x.(SliceV)
				if eb := s.Elem().Underlying().(*types.Basic); eb.Kind() == types.Byte {
					b := make([]byte, sl.len)
					for i := range b {
						b[i] = byte(t.intOf(t.load(sl.at(i))))
					}
					return string(b)
				}
				var rs []rune
				for i := 0; i < sl.len; i++ {
					rs = append(rs, rune(t.intOf(t.load(sl.at(i)))))
				}
				return string(rs)
			}
		}
	}
	if s, ok := ut.(*types.Slice); ok {
		if str, ok := x.(string); ok {
			if eb := s.Elem().Underlying().(*types.Basic); eb.Kind() == types.Byte {
				return t.bytesOf([]byte(str))
			}
			rs := []rune(str)
			sl := SliceV{arr: &Arr{et: s.Elem(), cells: make([]*Cell, len(rs))}, len: len(rs), cap: len(rs)}
			for i, r := range rs {
				t.p.w.storeRaw(sl.at(i), tb.bv(SBV32, uint64(uint32(r))))
			}
			return sl
		}
	}
	if _, ok := ut.(*types.Pointer); ok {
		return x
	}
	if types.Identical(ut, uf) {
		return x
	}
	t.unsupported("conversion %s -> %s", from, to)
	return nil
}

func (t *Thread) bytesOf(b []byte) SliceV {
	sl := SliceV{arr: &Arr{et: types.Typ[types.Byte], cells: make([]*Cell, len(b))}, len: len(b), cap: len(b)}
	for i, c := range b {
		sl.at(i).v = t.p.w.tb.bv(SBV8, uint64(c))
	}
	return sl
}

func (t *Thread) slice(in *ssa.Slice, ci *cinstr, fr *frame) Value {
	x := fr.get(&ci.ops[0])
	// operands: X, Low, High, Max with absent ones as nil operands
	var lo, hi, mx Value
	k := 1
	if in.Low != nil {
		lo = fr.get(&ci.ops[k])
	}
	k++
	if in.High != nil {
		hi = fr.get(&ci.ops[k])
	}
	k++
	if in.Max != nil {
		mx = fr.get(&ci.ops[k])
	}
	var length, capa int
	var str string
	isStr := false
	var base SliceV
	switch a := x.(type) {
	case string:
		str, isStr = a, true
		length, capa = len(a), len(a)
	case SliceV:
		base = a
		length, capa = a.len, a.cap
	case *Cell:
		if a == nil {
			t.rtpanic("runtime error: invalid memory address or nil pointer dereference")
		}
		n := len(a.arr.cells)
		base = SliceV{arr: a.arr, len: n, cap: n}
		length, capa = n, n
	default:
		t.unsupported("slice of %T", x)
	}
	l, h, m := 0, length, capa
	if hi != nil {
		h = t.intOf(hi)
	}
	if mx != nil {
		m = t.intOf(mx)
		if m < 0 || m > capa {
			t.rtpanic(fmt.Sprintf("runtime error: slice bounds out of range [::%d] with capacity %d", m, capa))
		}
	}
	if lo != nil {
		l = t.intOf(lo)
	}
	if h < 0 || h > m {
		t.rtpanic(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with capacity %d", h, m))
	}
	if l < 0 || l > h {
		t.rtpanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", l, h))
	}
	if isStr {
		return str[l:h]
	}
	if base.arr == nil {
		return SliceV{}
	}
	return SliceV{arr: base.arr, off: base.off + l, len: h - l, cap: m - l}
}

func (t *Thread) typeAssert(in *ssa.TypeAssert, x Value) Value {
	tb := t.p.w.tb
	iv, _ := x.(IfaceV)
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if iv.t != nil {
			if nt, isN := iv.t.(*nativeType); isN {
				ok = true
				for i := 0; i < it.NumMethods(); i++ {
					if nt.methods[it.Method(i).Name()] == nil {
						ok = false
					}
				}
			} else {
				ok = types.Implements(iv.t, it)
			}
		}
		v = iv
	} else {
		ok = iv.t != nil && types.Identical(iv.t, in.AssertedType)
		v = iv.v
	}
	if !ok {
		if !in.CommaOk {
			have := "nil"
			if iv.t != nil {
				have = iv.t.String()
			}
			t.rtpanic(fmt.Sprintf("interface conversion: interface is %s, not %s", have, in.AssertedType))
		}
		v = t.p.w.zero(in.AssertedType)
	}
	if in.CommaOk {
		return TupleV{v, tb.boolean(ok)}
	}
	return v
}

// ---- builtins ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen, esz int) int {
	nc := oldCap
	dbl := 2 * oldCap
	switch {
	case newLen > dbl:
		nc = newLen
	case oldCap < 256:
		nc = dbl
	default:
		for nc < newLen {
			nc += (nc + 3*256) / 4
		}
	}
	if esz == 0 {
		return nc
	}
	b := nc * esz
	if b <= 32768 {
		for _, c := range sizeClasses {
			if c >= b {
				return c / esz
			}
		}
	}
	b = (b + 8191) / 8192 * 8192
	return b / esz
}

func (t *Thread) appendVals(s SliceV, et types.Type, vals []Value) SliceV {
	n := s.len + len(vals)
	if n > s.cap {
		esz := int(t.p.w.ex.sizes.Sizeof(et))
		nc := growCap(s.cap, n, esz)
		arr := &Arr{et: et, cells: make([]*Cell, nc)}
		for i := 0; i < s.len; i++ {
			v := t.load(s.at(i))
			t.p.w.storeRaw(arr.at(i), v)
		}
		s = SliceV{arr: arr, len: s.len, cap: nc}
	}
	for i, v := range vals {
		t.store(s.at(s.len+i), v)
	}
	s.len = n
	return s
}

func (t *Thread) builtin(b *ssa.Builtin, args []Value, in ssa.Instruction) Value {
	tb := t.p.w.tb
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return tb.i64(int64(len(x)))
		case SliceV:
			return tb.i64(int64(x.len))
		case *MapV:
			if x == nil {
				return tb.i64(0)
			}
			t.raceRead(&x.sh, "map")
			return tb.i64(int64(len(x.entries)))
		case *ChanV:
			if x == nil {
				return tb.i64(0)
			}
			return tb.i64(int64(len(x.buf)))
		case *ArrayV:
			return tb.i64(int64(len(x.e)))
		case *Cell:
			return tb.i64(int64(len(x.arr.cells)))
		case nil:
			return tb.i64(0)
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return tb.i64(int64(x.cap))
		case *ChanV:
			if x == nil {
				return tb.i64(0)
			}
			return tb.i64(int64(x.cap))
		case *ArrayV:
			return tb.i64(int64(len(x.e)))
		case *Cell:
			return tb.i64(int64(len(x.arr.cells)))
		}
	case "append":
		s := args[0].(SliceV)
		var et types.Type
		if c, ok := in.(*ssa.Call); ok {
			if st, ok := c.Type().Underlying().(*types.Slice); ok {
				et = st.Elem()
			}
		}
		if et == nil {
			if s.arr != nil {
				et = s.arr.et
			} else {
				t.unsupported("append element type")
			}
		}
		var vals []Value
		switch y := args[1].(type) {
		case SliceV:
			for i := 0; i < y.len; i++ {
				vals = append(vals, t.load(y.at(i)))
			}
		case string:
			for i := 0; i < len(y); i++ {
				vals = append(vals, tb.bv(SBV8, uint64(y[i])))
			}
		}
		return t.appendVals(s, et, vals)
	case "copy":
		d := args[0].(SliceV)
		var vals []Value
		switch y := args[1].(type) {
		case SliceV:
			for i := 0; i < y.len && i < d.len; i++ {
				vals = append(vals, t.load(y.at(i)))
			}
		case string:
			for i := 0; i < len(y) && i < d.len; i++ {
				vals = append(vals, tb.bv(SBV8, uint64(y[i])))
			}
		}
		for i, v := range vals {
			t.store(d.at(i), v)
		}
		return tb.i64(int64(len(vals)))
	case "delete":
		m, _ := args[0].(*MapV)
		if m != nil {
			t.raceWrite(&m.sh, "map")
			t.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				t.raceWrite(&x.sh, "map")
				for _, e := range x.entries {
					e.deleted = true
				}
				x.entries = nil
				x.index = map[string]*mapEntry{}
			}
		case SliceV:
			for i := 0; i < x.len; i++ {
				t.store(x.at(i), t.p.w.zero(x.arr.et))
			}
		}
		return nil
	case "close":
		ch, _ := args[0].(*ChanV)
		if ch == nil {
			panic(targetPanic{IfaceV{t: t.p.w.ex.runtimeErr, v: "close of nil channel"}})
		}
		if ch.closed {
			panic(targetPanic{IfaceV{t: t.p.w.ex.runtimeErr, v: "close of closed channel"}})
		}
		ch.closed = true
		t.releaseTo(&ch.vc)
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// The frame running this builtin is the deferred function; its caller is the panicking frame.
		c := t.fr.caller
		if c != nil && c.panicked {
			c.panicked = false
			v := c.panicV
			c.panicV = nil
			return v
		}
		return IfaceV{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			a, ok := r.(*Term)
			if !ok {
				s, u := r.(string), y.(string)
				if (b.Name() == "min") == (u < s) {
					r = u
				}
				continue
			}
			c := y.(*Term)
			var typ types.Type = types.Typ[types.Int]
			if cl, ok := in.(*ssa.Call); ok {
				typ = cl.Type()
			}
			less := t.binop(token.LSS, typ, c, a).(*Term)
			if b.Name() == "max" {
				less = t.binop(token.LSS, typ, a, c).(*Term)
			}
			if t.p.branch(less) {
				r = c
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilValue(args[0]) {
			t.rtpanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "SliceData", "StringData", "String", "Slice":
		t.unsupported("unsafe.%s", b.Name())
	}
	t.unsupported("builtin %s", b.Name())
	return nil
}

var _ = math.Pi
