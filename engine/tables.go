package main

import (
	"encoding/binary"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// A table (STab) is the float obtained from an integer term of known small range by conversion and arithmetic with
// constants: the exact double for every value of the integer. It keeps the integer symbolic where real arithmetic could
// not be converted back. Tables only arise where every use of the converted value is arithmetic, comparison or conversion.

const maxTable = 4096

func (tb *TermTable) table(x *Term, lo int64, vals []float64) *Term {
	b := make([]byte, 0, 8*len(vals))
	for _, v := range vals {
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(v))
	}
	r := tb.mk(&Term{op: OTab, sort: STab, a: []*Term{x}, u: uint64(lo), name: string(b)})
	r.tab = vals
	return r
}

// confined reports whether all uses of v are ones that tables support.
func confined(v ssa.Value, depth int) bool {
	refs := v.Referrers()
	if refs == nil || depth == 0 {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Convert:
			b, ok := r.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				return false
			}
		case *ssa.BinOp:
			switch r.Op {
			case token.ADD, token.SUB, token.MUL, token.QUO:
				if !confined(r, depth-1) {
					return false
				}
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

// tabulate converts an integer to a table if its use permits that.
func (t *Thread) tabulate(in *ssa.Convert, v Value) (Value, bool) {
	x, ok := v.(*Term)
	if !ok || x.op == OConst || t.p.fpmode || x.sort != SBV64 {
		return nil, false
	}
	bt, ok := in.Type().Underlying().(*types.Basic)
	bf, ok2 := in.X.Type().Underlying().(*types.Basic)
	if !ok || !ok2 || bt.Kind() != types.Float64 || bf.Info()&types.IsInteger == 0 || !isSigned(bf) || !confined(in, 6) {
		return nil, false
	}
	lo, hi, ok := t.p.w.tb.bounds(x)
	if !ok || hi-lo >= maxTable || hi < lo {
		return nil, false
	}
	var vals []float64
	for i := lo; i <= hi; i++ {
		vals = append(vals, float64(i))
	}
	return t.p.w.tb.table(x, lo, vals), true
}

// untab makes a table's integer concrete.
func (t *Thread) untab(x *Term) *Term {
	if x.sort != STab {
		return x
	}
	v := sext(t.concretise(x.a[0]), x.a[0].sort)
	return t.p.w.tb.flt(x.tab[v-int64(x.u)])
}

// tabPair aligns two operands, at least one of which is a table, or makes them concrete.
func (t *Thread) tabPair(a, b *Term) (x *Term, p, q []float64, ok bool) {
	expand := func(c *Term, n int) []float64 {
		vs := make([]float64, n)
		for i := range vs {
			vs[i] = c.f
		}
		return vs
	}
	switch {
	case a.sort == STab && b.sort == SFlt:
		return a, a.tab, expand(b, len(a.tab)), true
	case b.sort == STab && a.sort == SFlt:
		return b, expand(a, len(b.tab)), b.tab, true
	case a.sort == STab && b.sort == STab && a.a[0] == b.a[0]:
		return a, a.tab, b.tab, true
	}
	return nil, nil, nil, false
}

// runs builds a decision tree over the integer of a table: leaf gives the value of each entry.
func (t *Thread) runs(x *Term, leaf func(i int) *Term) *Term {
	tb := t.p.w.tb
	n := len(x.tab)
	leaves := make([]*Term, n)
	for i := range leaves {
		leaves[i] = leaf(i)
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		same := true
		for i := lo; i < hi && same; i++ {
			same = leaves[i] == leaves[lo]
		}
		if same {
			return leaves[lo]
		}
		mid := (lo + hi) / 2
		return tb.ite(tb.bin(OBSLt, x.a[0], tb.bv(x.a[0].sort, x.u+uint64(mid))), build(lo, mid), build(mid, hi))
	}
	return build(0, n)
}
