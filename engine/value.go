package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, integers, floats), string, *Cell (pointer), *StructV, *ArrayV, SliceV,
// *MapV, *ChanV, *Closure, *ssa.Function, *ssa.Builtin, IfaceV, TupleV, *RangeIter, nil (nil func/chan/map).
type Value interface{}

// Cell is an addressable memory location.
type Cell struct {
	t    types.Type
	v    Value
	kids []*Cell // struct fields
	arr  *Arr    // array
	sh   *shadow
}

// Arr is the backing store of arrays and slices, with lazily created elements.
type Arr struct {
	et    types.Type
	cells []*Cell
	tag   int // JSON document handle
}

func (a *Arr) at(i int) *Cell {
	c := a.cells[i]
	if c == nil {
		c = newCell(a.et)
		a.cells[i] = c
	}
	return c
}

type StructV struct{ f []Value }
type ArrayV struct{ e []Value }
type SliceV struct {
	arr           *Arr
	off, len, cap int
}

func (s SliceV) at(i int) *Cell { return s.arr.at(s.off + i) }

type IfaceV struct {
	t types.Type // nil: nil interface
	v Value
}
type TupleV []Value
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type mapEntry struct {
	k, v    Value
	deleted bool
}
type MapV struct {
	kt, et  types.Type
	entries []*mapEntry
	index   map[string]*mapEntry
	sh      *shadow
}

func (m *MapV) live() []*mapEntry {
	var r []*mapEntry
	for _, e := range m.entries {
		if !e.deleted {
			r = append(r, e)
		}
	}
	return r
}

type chanItem struct {
	v  Value
	vc vclock
}
type ChanV struct {
	et     types.Type
	cap    int
	buf    []chanItem
	closed bool
	recvq  int // threads waiting in a receive (for unbuffered rendezvous)
	vc     vclock
	nsent  int
	taken  []vclock  // clocks of receives not yet matched by the send cap places later
	waitT  []*Thread // the threads counted by recvq
}
type RangeIter struct {
	m    *MapV
	rest []*mapEntry
	dir  int
	str  string
	pos  int
}

func newCell(t types.Type) *Cell {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		c := &Cell{t: t, kids: make([]*Cell, u.NumFields())}
		for i := range c.kids {
			c.kids[i] = newCell(u.Field(i).Type())
		}
		return c
	case *types.Array:
		return &Cell{t: t, arr: &Arr{et: u.Elem(), cells: make([]*Cell, u.Len())}}
	}
	return &Cell{t: t, v: lazyZero{}}
}

// lazyZero stands for the zero value of the cell's type until it is read.
type lazyZero struct{}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return w.tb.ff
		case u.Info()&types.IsInteger != 0:
			return w.tb.bv(sortOf(u), 0)
		case u.Info()&types.IsFloat != 0:
			return w.tb.flt(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*Cell)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
		panic(abort{"unsupported", "zero of " + t.String()})
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &ArrayV{e: make([]Value, u.Len())}
		for i := range a.e {
			a.e[i] = w.zero(u.Elem())
		}
		return a
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return nil
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = w.zero(u.At(i).Type())
		}
		return tv
	}
	panic(abort{"unsupported", "zero of " + t.String()})
}

func sortOf(b *types.Basic) Sort {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool
	case types.Int8, types.Uint8:
		return SBV8
	case types.Int16, types.Uint16:
		return SBV16
	case types.Int32, types.Uint32, types.UntypedRune:
		return SBV32
	case types.Float64, types.Float32, types.UntypedFloat:
		return SFlt
	}
	return SBV64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func (w *Worker) loadRaw(c *Cell) Value {
	switch {
	case c.kids != nil:
		s := &StructV{f: make([]Value, len(c.kids))}
		for i, k := range c.kids {
			s.f[i] = w.loadRaw(k)
		}
		return s
	case c.arr != nil:
		a := &ArrayV{e: make([]Value, len(c.arr.cells))}
		for i := range a.e {
			a.e[i] = w.loadRaw(c.arr.at(i))
		}
		return a
	}
	if st, ok := c.t.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return &StructV{}
	}
	if _, ok := c.v.(lazyZero); ok {
		c.v = w.zero(c.t)
	}
	return c.v
}

func (w *Worker) storeRaw(c *Cell, v Value) {
	switch {
	case c.kids != nil:
		s := v.(*StructV)
		for i, k := range c.kids {
			w.storeRaw(k, s.f[i])
		}
	case c.arr != nil:
		a := v.(*ArrayV)
		for i := range a.e {
			w.storeRaw(c.arr.at(i), a.e[i])
		}
	default:
		c.v = v
	}
}

// keyString is a canonical encoding of a map key; symbolic parts are concretised by forking.
func (t *Thread) keyString(v Value) string {
	switch x := v.(type) {
	case *Term:
		if x.sort == SFlt {
			if x.f == 0 {
				return "f0"
			}
			return "f" + strconv.FormatUint(math.Float64bits(x.f), 16)
		}
		if x.sort == SReal || x.sort == SFP {
			panic(abort{"unsupported", "symbolic float map key"})
		}
		return "i" + strconv.FormatUint(t.concretise(x), 16)
	case string:
		return "s" + strconv.Quote(x)
	case *StructV:
		var p []string
		for _, f := range x.f {
			p = append(p, t.keyString(f))
		}
		return "{" + strings.Join(p, ",") + "}"
	case *ArrayV:
		var p []string
		for _, f := range x.e {
			p = append(p, t.keyString(f))
		}
		return "[" + strings.Join(p, ",") + "]"
	case IfaceV:
		if x.t == nil {
			return "nil"
		}
		return "I" + x.t.String() + ":" + t.keyString(x.v)
	case *Cell, *ChanV:
		return fmt.Sprintf("p%p", x)
	}
	panic(abort{"unsupported", fmt.Sprintf("map key %T", v)})
}

// equal yields a Bool term for v == u (Go semantics).
func (t *Thread) equal(v, u Value) *Term {
	w := t.p.w
	tb := w.tb
	switch x := v.(type) {
	case *Term:
		y := u.(*Term)
		switch x.sort {
		case SFlt, SReal, SFP:
			return t.fcmp("==", x, y)
		}
		if y.sort == SFlt || y.sort == SReal || y.sort == SFP {
			return t.fcmp("==", x, y)
		}
		return tb.eq(x, y)
	case string:
		return tb.boolean(x == u.(string))
	case *Cell:
		y, _ := u.(*Cell)
		return tb.boolean(x == y)
	case *ChanV:
		y, _ := u.(*ChanV)
		return tb.boolean(x == y)
	case *MapV:
		y, _ := u.(*MapV)
		return tb.boolean(x == y)
	case SliceV:
		y := u.(SliceV)
		return tb.boolean(x.arr == nil && y.arr == nil)
	case nil:
		return tb.boolean(isNilValue(u))
	case *Closure, *ssa.Function, *ssa.Builtin:
		return tb.boolean(isNilValue(u) && isNilValue(v))
	case *StructV:
		y := u.(*StructV)
		r := tb.tt
		for i := range x.f {
			r = tb.and(r, t.equal(x.f[i], y.f[i]))
		}
		return r
	case *ArrayV:
		y := u.(*ArrayV)
		r := tb.tt
		for i := range x.e {
			r = tb.and(r, t.equal(x.e[i], y.e[i]))
		}
		return r
	case IfaceV:
		y, ok := u.(IfaceV)
		if !ok {
			return tb.boolean(x.t == nil && isNilValue(u))
		}
		if x.t == nil || y.t == nil {
			return tb.boolean(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tb.ff
		}
		if !types.Comparable(x.t) {
			t.rtpanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return t.equal(x.v, y.v)
	}
	panic(abort{"unsupported", fmt.Sprintf("compare %T", v)})
}

func isNilValue(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *Cell:
		return x == nil
	case *MapV:
		return x == nil
	case *ChanV:
		return x == nil
	case SliceV:
		return x.arr == nil
	case IfaceV:
		return x.t == nil
	case *Closure:
		return x == nil
	case *ssa.Function:
		return x == nil
	}
	return false
}
