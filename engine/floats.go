package main

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
)

// Floats are either concrete doubles (SFlt), exact reals (SReal, "real" mode) or SMT floating point
// terms (SFP, "fp" mode). In real mode not-a-number and infinities only occur as concrete doubles.

func finite(t *Term) bool { return !math.IsNaN(t.f) && !math.IsInf(t.f, 0) }

func (t *Thread) sign(x *Term) int {
	tb := t.p.w.tb
	z := tb.rat(new(big.Rat))
	if t.p.branch(tb.rcmp(OREq0, x, z)) {
		return 0
	}
	if t.p.branch(tb.rcmp(ORLt0, x, z)) {
		return -1
	}
	return 1
}

func (t *Thread) fneg(x *Term) *Term {
	tb := t.p.w.tb
	switch x.sort {
	case SFlt:
		return tb.flt(-x.f)
	case SFP:
		return tb.fp(OFNeg, SFP, x)
	}
	return tb.rscale(x, ratMinus)
}

func (t *Thread) farith(op token.Token, a, b *Term, typ types.Type) *Term {
	tb := t.p.w.tb
	if a.sort == STab || b.sort == STab {
		if x, p, q, ok := t.tabPair(a, b); ok {
			vals := make([]float64, len(p))
			for i := range p {
				vals[i] = t.farith(op, tb.flt(p[i]), tb.flt(q[i]), typ).f
			}
			return tb.table(x.a[0], int64(x.u), vals)
		}
		a, b = t.untab(a), t.untab(b)
	}
	if a.sort == SFlt && b.sort == SFlt {
		var r float64
		switch op {
		case token.ADD:
			r = a.f + b.f
		case token.SUB:
			r = a.f - b.f
		case token.MUL:
			r = a.f * b.f
		case token.QUO:
			r = a.f / b.f
		}
		if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return tb.flt(r)
	}
	if a.sort == SFP || b.sort == SFP {
		o := map[token.Token]Op{token.ADD: OFAdd, token.SUB: OFSub, token.MUL: OFMul, token.QUO: OFDiv}[op]
		return tb.fp(o, SFP, a, b)
	}
	// real mode, at least one symbolic
	if a.sort == SFlt && !finite(a) || b.sort == SFlt && !finite(b) {
		return t.fspecial(op, a, b)
	}
	x, y := tb.toReal(a), tb.toReal(b)
	switch op {
	case token.ADD:
		return t.norm(tb.radd(x, y))
	case token.SUB:
		return t.norm(tb.rsub(x, y))
	case token.MUL:
		return t.norm(t.mulR(x, y))
	}
	return t.rdiv(x, y)
}

// norm turns constants that are exact doubles back into concrete doubles.
func (t *Thread) norm(x *Term) *Term {
	if len(x.ms) == 0 {
		f, exact := x.k.Float64()
		if exact {
			return t.p.w.tb.flt(f)
		}
	}
	return x
}

// mulR multiplies and rewrites squares of square roots.
func (t *Thread) mulR(x, y *Term) *Term {
	tb := t.p.w.tb
	r := tb.rmul(x, y)
	return t.reduce(r)
}

// reduce replaces s*s by its radicand for every known square root s.
func (t *Thread) reduce(r *Term) *Term {
	tb := t.p.w.tb
	if len(t.p.sqrts) == 0 {
		return r
	}
	for {
		changed := false
		out := tb.rat(r.k)
		for _, m := range r.ms {
			if m.t.op == OMulR {
				fs := m.t.a
				hit := -1
				for i := 0; i+1 < len(fs); i++ {
					if fs[i] == fs[i+1] && t.p.sqrtOf[fs[i]] != nil {
						hit = i
						break
					}
				}
				if hit >= 0 {
					changed = true
					rest := tb.rat(big.NewRat(1, 1))
					for i, f := range fs {
						if i != hit && i != hit+1 {
							rest = tb.rmul(rest, tb.lin(new(big.Rat), []monom{{ratOne, f}}))
						}
					}
					out = tb.radd(out, tb.rscale(tb.rmul(rest, t.p.sqrtOf[fs[hit]]), m.c))
					continue
				}
			}
			out = tb.radd(out, tb.lin(new(big.Rat), []monom{m}))
		}
		r = out
		if !changed {
			return r
		}
	}
}

func (t *Thread) fspecial(op token.Token, a, b *Term) *Term {
	tb := t.p.w.tb
	if a.sort == SFlt && math.IsNaN(a.f) || b.sort == SFlt && math.IsNaN(b.f) {
		return tb.flt(math.NaN())
	}
	// one side is infinite, the other one a symbolic real
	inf, other, left := a, b, true
	if !(a.sort == SFlt && math.IsInf(a.f, 0)) {
		inf, other, left = b, a, false
	}
	switch op {
	case token.ADD:
		return inf
	case token.SUB:
		if left {
			return inf
		}
		return tb.flt(-inf.f)
	case token.MUL:
		switch t.sign(tb.toReal(other)) {
		case 0:
			return tb.flt(math.NaN())
		case 1:
			return inf
		}
		return tb.flt(-inf.f)
	}
	if !left {
		return tb.flt(0)
	}
	if t.sign(tb.toReal(other)) < 0 {
		return tb.flt(-inf.f)
	}
	return inf
}

func (t *Thread) rdiv(x, y *Term) *Term {
	tb := t.p.w.tb
	if len(y.ms) == 0 {
		if y.k.Sign() == 0 {
			switch t.sign(x) {
			case 0:
				return tb.flt(math.NaN())
			case 1:
				return tb.flt(math.Inf(1))
			}
			return tb.flt(math.Inf(-1))
		}
		return t.norm(tb.rscale(x, new(big.Rat).Inv(y.k)))
	}
	if t.p.branch(tb.rcmp(OREq0, y, tb.rat(new(big.Rat)))) {
		switch t.sign(x) {
		case 0:
			return tb.flt(math.NaN())
		case 1:
			return tb.flt(math.Inf(1))
		}
		return tb.flt(math.Inf(-1))
	}
	if len(x.ms) == 0 && x.k.Sign() == 0 {
		return tb.flt(0)
	}
	if x == y {
		return tb.flt(1)
	}
	// proportional polynomials
	if len(x.ms) == len(y.ms) {
		c := new(big.Rat).Quo(x.ms[0].c, y.ms[0].c)
		if tb.rsub(x, tb.rscale(y, c)) == tb.rat(new(big.Rat)) {
			return t.norm(tb.rat(c))
		}
	}
	// exact division by a single monomial
	if len(y.ms) == 1 && y.k.Sign() == 0 && x.k.Sign() == 0 {
		if q, ok := t.divMonom(x, y.ms[0]); ok {
			return t.norm(q)
		}
	}
	key := [2]*Term{x, y}
	if q, ok := t.p.quots[key]; ok {
		return q
	}
	q := t.p.fresh("q", SReal)
	t.p.w.solver.nonlin = true
	t.p.quots[key] = q
	t.p.assumeDef(tb.rcmp(OREq0, t.mulR(q, y), x), q, func(e *evaluator) Val {
		d := e.eval(y).r
		if d.Sign() == 0 {
			return Val{r: new(big.Rat)}
		}
		return Val{r: new(big.Rat).Quo(e.eval(x).r, d)}
	})
	return q
}

func (t *Thread) divMonom(x *Term, d monom) (*Term, bool) {
	tb := t.p.w.tb
	df := []*Term{d.t}
	if d.t.op == OMulR {
		df = d.t.a
	}
	res := tb.rat(new(big.Rat))
	for _, m := range x.ms {
		fs := []*Term{m.t}
		if m.t.op == OMulR {
			fs = append([]*Term{}, m.t.a...)
		}
		for _, f := range df {
			hit := -1
			for i, g := range fs {
				if g == f {
					hit = i
					break
				}
			}
			if hit < 0 {
				return nil, false
			}
			fs = append(append([]*Term{}, fs[:hit]...), fs[hit+1:]...)
		}
		r := tb.rat(new(big.Rat).Quo(m.c, d.c))
		for _, f := range fs {
			r = tb.rmul(r, tb.lin(new(big.Rat), []monom{{ratOne, f}}))
		}
		res = tb.radd(res, r)
	}
	return res, true
}

// assumeDef adds the defining constraint of a fresh variable that always has a solution.
func (p *Path) assumeDef(c *Term, v *Term, def func(*evaluator) Val) {
	p.addPC(c)
	if p.model != nil {
		// extend the cached model
		if p.exact && def != nil {
			m := Model{}
			for k, x := range p.model {
				m[k] = x
			}
			val := def(p.ev)
			m[varName(v)] = val
			p.setModel(m)
			return
		}
		p.exact = false
	}
}

func (t *Thread) sqrt(a *Term) *Term {
	tb := t.p.w.tb
	switch a.sort {
	case SFlt:
		return tb.flt(math.Sqrt(a.f))
	case SFP:
		return tb.fp(OFSqrt, SFP, a)
	}
	z := tb.rat(new(big.Rat))
	if len(a.ms) == 0 {
		if a.k.Sign() < 0 {
			return tb.flt(math.NaN())
		}
		f, _ := a.k.Float64()
		return tb.flt(math.Sqrt(f))
	}
	if s, ok := t.p.sqrts[a]; ok {
		return s
	}
	// sqrt(c^2 * p^2) = |c*p|
	if len(a.ms) == 1 && a.k.Sign() == 0 && a.ms[0].t.op == OMulR && a.ms[0].c.Sign() > 0 {
		m := a.ms[0]
		if len(m.t.a) == 2 && m.t.a[0] == m.t.a[1] {
			if c, ok := ratSqrt(m.c); ok {
				return t.fabs(tb.lin(new(big.Rat), []monom{{c, m.t.a[0]}}))
			}
		}
	}
	// perfect square of a linear polynomial
	if r, ok := t.polySqrt(a); ok {
		return t.fabs(r)
	}
	if !t.isSumOfSquares(a) && t.p.branch(tb.rcmp(ORLt0, a, z)) {
		return tb.flt(math.NaN())
	}
	if t.p.branch(tb.rcmp(OREq0, a, z)) {
		return tb.flt(0)
	}
	s := t.p.fresh("sqrt", SReal)
	t.p.w.solver.nonlin = true
	t.p.sqrts[a] = s
	t.p.sqrtOf[s.ms[0].t] = a
	t.p.addPC(tb.rcmp(ORLt0, z, s))
	raw := tb.mk(&Term{op: OMulR, sort: SReal, a: []*Term{s.ms[0].t, s.ms[0].t}})
	t.p.addPC(tb.rcmp(OREq0, tb.lin(new(big.Rat), []monom{{ratOne, raw}}), a))
	t.p.exact = false
	if t.p.model != nil {
		if x := t.p.ev.eval(a).r; x != nil && x.Sign() > 0 {
			if rt, ok := ratSqrt(x); ok {
				m := Model{}
				for k, v := range t.p.model {
					m[k] = v
				}
				m[varName(s)] = Val{r: rt}
				t.p.setModel(m)
			}
		}
	}
	return s
}

func (t *Thread) isSumOfSquares(a *Term) bool {
	if a.k.Sign() < 0 {
		return false
	}
	for _, m := range a.ms {
		if m.c.Sign() < 0 || m.t.op != OMulR || len(m.t.a)%2 != 0 {
			return false
		}
		for i := 0; i < len(m.t.a); i += 2 {
			if m.t.a[i] != m.t.a[i+1] {
				return false
			}
		}
	}
	return true
}

func ratSqrt(r *big.Rat) (*big.Rat, bool) {
	if r.Sign() < 0 {
		return nil, false
	}
	n := new(big.Int).Sqrt(r.Num())
	d := new(big.Int).Sqrt(r.Denom())
	if new(big.Int).Mul(n, n).Cmp(r.Num()) != 0 || new(big.Int).Mul(d, d).Cmp(r.Denom()) != 0 {
		return nil, false
	}
	return new(big.Rat).SetFrac(n, d), true
}

// polySqrt recognises the square of a linear polynomial.
func (t *Thread) polySqrt(a *Term) (*Term, bool) {
	tb := t.p.w.tb
	res := tb.rat(new(big.Rat))
	var atoms []*Term
	sq := map[*Term]*big.Rat{}
	for _, m := range a.ms {
		if m.t.op == OMulR && len(m.t.a) == 2 && m.t.a[0] == m.t.a[1] {
			c, ok := ratSqrt(m.c)
			if !ok {
				return nil, false
			}
			sq[m.t.a[0]] = c
			atoms = append(atoms, m.t.a[0])
		}
	}
	if len(atoms) == 0 || len(atoms) > 6 {
		return nil, false
	}
	kc, ok := ratSqrt(a.k)
	if !ok {
		return nil, false
	}
	// try sign combinations relative to the first atom
	n := len(atoms)
	for mask := 0; mask < 1<<uint(n); mask++ {
		res = tb.rat(kc)
		if mask&1 != 0 {
			res = tb.rat(new(big.Rat).Neg(kc))
		}
		for i, x := range atoms {
			c := sq[x]
			if i > 0 && mask&(1<<uint(i)) != 0 {
				c = new(big.Rat).Neg(c)
			}
			res = tb.radd(res, tb.lin(new(big.Rat), []monom{{c, x}}))
		}
		if tb.rmul(res, res) == a {
			return res, true
		}
	}
	return nil, false
}

func (t *Thread) fabs(a *Term) *Term {
	tb := t.p.w.tb
	switch a.sort {
	case SFlt:
		return tb.flt(math.Abs(a.f))
	case SFP:
		return tb.fp(OFAbs, SFP, a)
	}
	if t.p.branch(tb.rcmp(ORLt0, a, tb.rat(new(big.Rat)))) {
		return t.norm(tb.rscale(a, ratMinus))
	}
	return a
}

// fcmp compares floats with IEEE semantics: op is one of == < <=.
func (t *Thread) fcmp(op string, a, b *Term) *Term {
	tb := t.p.w.tb
	if a.sort == STab || b.sort == STab {
		if x, p, q, ok := t.tabPair(a, b); ok {
			return t.runs(x, func(i int) *Term { return t.fcmp(op, tb.flt(p[i]), tb.flt(q[i])) })
		}
		a, b = t.untab(a), t.untab(b)
	}
	if a.sort == SFlt && b.sort == SFlt {
		switch op {
		case "==":
			return tb.boolean(a.f == b.f)
		case "<":
			return tb.boolean(a.f < b.f)
		}
		return tb.boolean(a.f <= b.f)
	}
	if a.sort == SFP || b.sort == SFP {
		switch op {
		case "==":
			return tb.fp(OFEq, SBool, a, b)
		case "<":
			return tb.fp(OFLt, SBool, a, b)
		}
		return tb.fp(OFLe, SBool, a, b)
	}
	spec := func(x *Term) (bool, int) { // NaN?, sign of infinity
		if x.sort != SFlt {
			return false, 0
		}
		if math.IsNaN(x.f) {
			return true, 0
		}
		if math.IsInf(x.f, 1) {
			return false, 1
		}
		if math.IsInf(x.f, -1) {
			return false, -1
		}
		return false, 0
	}
	na, ia := spec(a)
	nb, ib := spec(b)
	if na || nb {
		return tb.ff
	}
	if ia != 0 || ib != 0 {
		switch op {
		case "==":
			return tb.boolean(false)
		default:
			return tb.boolean(ia < ib)
		}
	}
	x, y := tb.toReal(a), tb.toReal(b)
	switch op {
	case "==":
		return tb.rcmp(OREq0, x, y)
	case "<":
		return tb.rcmp(ORLt0, x, y)
	}
	return tb.rcmp(ORLe0, x, y)
}

func (t *Thread) intToFloat(x *Term, signed bool, bt *types.Basic) *Term {
	tb := t.p.w.tb
	if x.op != OConst && t.p.fpmode {
		y := tb.ext(x, SBV64, signed)
		if signed {
			return tb.fp(OFFromS, SFP, y)
		}
		return tb.fp(OFFromU, SFP, y)
	}
	u := t.concretise(x)
	var f float64
	if signed {
		f = float64(sext(u, x.sort))
	} else {
		f = float64(u)
	}
	if bt.Kind() == types.Float32 {
		f = float64(float32(f))
	}
	return tb.flt(f)
}

func (t *Thread) floatToInt(x *Term, bt *types.Basic) *Term {
	tb := t.p.w.tb
	if x.sort == STab {
		return t.runs(x, func(i int) *Term { return t.floatToInt(tb.flt(x.tab[i]), bt) })
	}
	switch x.sort {
	case SFlt:
		if isSigned(bt) {
			return tb.bv(sortOf(bt), uint64(int64(x.f)))
		}
		return tb.bv(sortOf(bt), uint64(x.f))
	case SFP:
		return tb.ext(tb.fp(OFToS, SBV64, x), sortOf(bt), true)
	}
	if len(x.ms) == 0 {
		q := new(big.Int).Quo(x.k.Num(), x.k.Denom())
		return tb.bv(sortOf(bt), uint64(q.Int64()))
	}
	t.unsupported("conversion of a symbolic real to an integer")
	return nil
}
