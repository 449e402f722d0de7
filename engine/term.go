package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Sort of a term.
type Sort uint8

const (
	SBool Sort = iota
	SBV8
	SBV16
	SBV32
	SBV64
	SReal // symbolic float in real mode, or an exact rational
	SFP   // symbolic float in fp mode
	SFlt  // concrete float64 constant
	STab  // float64 as a table over an integer
)

func bvSort(bits int) Sort {
	switch bits {
	case 8:
		return SBV8
	case 16:
		return SBV16
	case 32:
		return SBV32
	case 64:
		return SBV64
	}
	panic("bad bv width")
}

func (s Sort) bits() int {
	switch s {
	case SBV8:
		return 8
	case SBV16:
		return 16
	case SBV32:
		return 32
	case SBV64:
		return 64
	}
	return 0
}

func (s Sort) smt() string {
	switch s {
	case SBool:
		return "Bool"
	case SReal:
		return "Real"
	case SFP, SFlt:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s.bits())
}

type Op uint8

const (
	OConst Op = iota // u (bv, bool) / f (SFlt)
	OVar
	// bool
	ONot
	OAnd
	OOr
	OEq // bv, bool, fp(=structural not used)
	OIte
	// bv
	OBAdd
	OBSub
	OBMul
	OBUDiv
	OBSDiv
	OBURem
	OBSRem
	OBAnd
	OBOr
	OBXor
	OBShl
	OBLShr
	OBAShr
	OBULt
	OBULe
	OBSLt
	OBSLe
	OExt // sign/zero extension or truncation: u = 1 signed ; sort target
	// real
	OLin  // linear combination
	OMulR // nonlinear product of two terms
	ORLe0 // lin <= 0
	ORLt0 // lin < 0
	OREq0 // lin = 0
	// fp
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFIsInf
	OFFromS // from signed bv
	OFFromU // from unsigned bv
	OFToS   // to signed bv64 (truncate)
	OTab    // see tables.go
)

type monom struct {
	c *big.Rat
	t *Term
}

type Term struct {
	op   Op
	sort Sort
	a    []*Term
	u    uint64
	f    float64
	name string
	tab  []float64
	k    *big.Rat // OLin constant
	ms   []monom  // OLin
	id   int
	ref  string // SMT name once emitted
	gen  int    // solver generation of ref
}

func (t *Term) isConst() bool {
	return t.op == OConst || (t.op == OLin && len(t.ms) == 0)
}

// TermTable hash-conses terms; one per worker.
type TermTable struct {
	m     map[string]*Term
	bvc   map[[2]uint64]*Term
	next  int
	tt    *Term
	ff    *Term
	signs map[*Term][2]*Term // when a term is negative and when it is zero
	rng   map[*Term][2]int64 // declared ranges of the integer inputs of the running path
}

// bounds returns bounds of the signed value of t that hold on the running path.
func (tb *TermTable) bounds(t *Term) (lo, hi int64, ok bool) { return tb.bounds1(t, 16) }

const boundLimit = 1 << 30

func (tb *TermTable) bounds1(t *Term, depth int) (lo, hi int64, ok bool) {
	if depth == 0 {
		return
	}
	two := func() (l1, h1, l2, h2 int64, ok bool) {
		l1, h1, ok1 := tb.bounds1(t.a[len(t.a)-2], depth-1)
		if !ok1 {
			return
		}
		l2, h2, ok2 := tb.bounds1(t.a[len(t.a)-1], depth-1)
		return l1, h1, l2, h2, ok2
	}
	small := func(vs ...int64) (int64, int64, bool) {
		lo, hi := vs[0], vs[0]
		for _, v := range vs {
			lo, hi = min(lo, v), max(hi, v)
		}
		lim := int64(boundLimit)
		if t.sort == SBV16 {
			lim = 1 << 15
		}
		return lo, hi, lo > -lim && hi < lim
	}
	limited := func(l1, h1, l2, h2 int64, ok bool) bool {
		if !ok || t.sort != SBV64 && t.sort != SBV16 {
			return false
		}
		_, _, ok = small(l1, h1, l2, h2)
		return ok
	}
	switch t.op {
	case OConst:
		v := sext(t.u, t.sort)
		return v, v, true
	case OVar:
		r, ok := tb.rng[t]
		return r[0], r[1], ok
	case OIte:
		l1, h1, l2, h2, ok := two()
		return min(l1, l2), max(h1, h2), ok
	case OBAdd:
		if l1, h1, l2, h2, ok := two(); limited(l1, h1, l2, h2, ok) {
			return small(l1+l2, h1+h2)
		}
	case OBSub:
		if l1, h1, l2, h2, ok := two(); limited(l1, h1, l2, h2, ok) {
			return small(l1-h2, h1-l2)
		}
	case OBMul:
		if l1, h1, l2, h2, ok := two(); limited(l1, h1, l2, h2, ok) {
			return small(l1*l2, l1*h2, h1*l2, h1*h2)
		}
	case OBSDiv:
		if l1, h1, l2, h2, ok := two(); limited(l1, h1, l2, h2, ok) && l2 > 0 {
			return small(l1/l2, l1/h2, h1/l2, h1/h2)
		}
	case OExt:
		if n := t.sort.bits(); t.a[0].sort.bits() > n {
			l, h, ok := tb.bounds1(t.a[0], depth-1)
			return l, h, ok && l >= -1<<(n-1) && h < 1<<(n-1)
		}
		if t.u == 1 && t.a[0].sort.bits() < t.sort.bits() {
			if l, h, ok := tb.bounds1(t.a[0], depth-1); ok {
				return l, h, ok
			}
			n := t.a[0].sort.bits()
			return -1 << (n - 1), 1<<(n-1) - 1, n < 32
		}
	}
	return 0, 0, false
}

const narrowSort = SBV16

// narrow returns a shorter term with the value of t, which is known to be small, or nil.
func (tb *TermTable) narrow(t *Term) *Term {
	lo, hi, ok := tb.bounds(t)
	if !ok || t.sort != SBV64 || lo < -1<<15 || hi >= 1<<15 {
		return nil
	}
	return tb.truncated(t, 16)
}

func (tb *TermTable) truncated(t *Term, depth int) *Term {
	if depth > 0 {
		switch t.op {
		case OBAdd, OBSub, OBMul:
			return tb.bin(t.op, tb.truncated(t.a[0], depth-1), tb.truncated(t.a[1], depth-1))
		case OIte:
			return tb.ite(t.a[0], tb.truncated(t.a[1], depth-1), tb.truncated(t.a[2], depth-1))
		}
	}
	if t.op == OExt && t.a[0].sort == narrowSort {
		return t.a[0]
	}
	return tb.ext(t, narrowSort, false)
}

func newTermTable() *TermTable {
	tb := &TermTable{m: map[string]*Term{}, bvc: map[[2]uint64]*Term{}}
	tb.tt = tb.mk(&Term{op: OConst, sort: SBool, u: 1})
	tb.ff = tb.mk(&Term{op: OConst, sort: SBool, u: 0})
	return tb
}

func (tb *TermTable) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(t.op))
	sb.WriteByte(byte(t.sort))
	sb.WriteString(strconv.FormatUint(t.u, 36))
	sb.WriteByte('|')
	if t.sort == SFlt {
		sb.WriteString(strconv.FormatUint(math.Float64bits(t.f), 36))
	}
	sb.WriteString(t.name)
	for _, a := range t.a {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if t.k != nil {
		sb.WriteByte('#')
		sb.WriteString(t.k.RatString())
		for _, m := range t.ms {
			sb.WriteByte(';')
			sb.WriteString(m.c.RatString())
			sb.WriteByte('*')
			sb.WriteString(strconv.Itoa(m.t.id))
		}
	}
	key := sb.String()
	if x, ok := tb.m[key]; ok {
		return x
	}
	tb.next++
	t.id = tb.next
	tb.m[key] = t
	return t
}

func mask(s Sort) uint64 {
	if s == SBV64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(s.bits())) - 1
}

func (tb *TermTable) bv(s Sort, u uint64) *Term {
	u &= mask(s)
	k := [2]uint64{uint64(s), u}
	if t, ok := tb.bvc[k]; ok {
		return t
	}
	t := tb.mk(&Term{op: OConst, sort: s, u: u})
	tb.bvc[k] = t
	return t
}
func (tb *TermTable) i64(i int64) *Term { return tb.bv(SBV64, uint64(i)) }
func (tb *TermTable) boolean(b bool) *Term {
	if b {
		return tb.tt
	}
	return tb.ff
}
func (tb *TermTable) flt(f float64) *Term {
	return tb.mk(&Term{op: OConst, sort: SFlt, f: f})
}
func (tb *TermTable) variable(name string, s Sort) *Term {
	t := tb.mk(&Term{op: OVar, sort: s, name: name})
	if s == SReal {
		return tb.lin(new(big.Rat), []monom{{big.NewRat(1, 1), t}})
	}
	return t
}

func sext(u uint64, s Sort) int64 {
	switch s {
	case SBV8:
		return int64(int8(u))
	case SBV16:
		return int64(int16(u))
	case SBV32:
		return int64(int32(u))
	}
	return int64(u)
}

// ---- bool ----

func (tb *TermTable) not(a *Term) *Term {
	switch {
	case a == tb.tt:
		return tb.ff
	case a == tb.ff:
		return tb.tt
	case a.op == ONot:
		return a.a[0]
	}
	return tb.mk(&Term{op: ONot, sort: SBool, a: []*Term{a}})
}
func (tb *TermTable) and(a, b *Term) *Term {
	switch {
	case a == tb.ff || b == tb.ff:
		return tb.ff
	case a == tb.tt:
		return b
	case b == tb.tt:
		return a
	case a == b:
		return a
	case tb.not(a) == b:
		return tb.ff
	}
	return tb.mk(&Term{op: OAnd, sort: SBool, a: []*Term{a, b}})
}
func (tb *TermTable) or(a, b *Term) *Term {
	return tb.not(tb.and(tb.not(a), tb.not(b)))
}
func (tb *TermTable) eq(a, b *Term) *Term {
	if a == b {
		return tb.tt
	}
	if a.op == OConst && b.op == OConst {
		return tb.boolean(a.u == b.u)
	}
	if a.sort == SBool {
		switch {
		case a == tb.tt:
			return b
		case b == tb.tt:
			return a
		case a == tb.ff:
			return tb.not(b)
		case b == tb.ff:
			return tb.not(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(&Term{op: OEq, sort: SBool, a: []*Term{a, b}})
}
func (tb *TermTable) ite(c, a, b *Term) *Term {
	if c == tb.tt {
		return a
	}
	if c == tb.ff {
		return b
	}
	if a == b {
		return a
	}
	return tb.mk(&Term{op: OIte, sort: a.sort, a: []*Term{c, a, b}})
}

// ---- bit-vectors ----

func (tb *TermTable) bin(op Op, a, b *Term) *Term {
	s := a.sort
	if a.sort != b.sort {
		panic(fmt.Sprintf("bv sort mismatch %v %v op %v", a.sort, b.sort, op))
	}
	if a.op == OConst && b.op == OConst {
		x, y := a.u, b.u
		sx, sy := sext(x, s), sext(y, s)
		n := uint64(s.bits())
		switch op {
		case OBAdd:
			return tb.bv(s, x+y)
		case OBSub:
			return tb.bv(s, x-y)
		case OBMul:
			return tb.bv(s, x*y)
		case OBUDiv:
			return tb.bv(s, x/y)
		case OBURem:
			return tb.bv(s, x%y)
		case OBSDiv:
			if sy == -1 {
				return tb.bv(s, uint64(-sx))
			}
			return tb.bv(s, uint64(sx/sy))
		case OBSRem:
			if sy == -1 {
				return tb.bv(s, 0)
			}
			return tb.bv(s, uint64(sx%sy))
		case OBAnd:
			return tb.bv(s, x&y)
		case OBOr:
			return tb.bv(s, x|y)
		case OBXor:
			return tb.bv(s, x^y)
		case OBShl:
			if y >= n {
				return tb.bv(s, 0)
			}
			return tb.bv(s, x<<y)
		case OBLShr:
			if y >= n {
				return tb.bv(s, 0)
			}
			return tb.bv(s, x>>y)
		case OBAShr:
			if y >= n {
				y = n - 1
			}
			return tb.bv(s, uint64(sx>>y))
		case OBULt:
			return tb.boolean(x < y)
		case OBULe:
			return tb.boolean(x <= y)
		case OBSLt:
			return tb.boolean(sx < sy)
		case OBSLe:
			return tb.boolean(sx <= sy)
		}
	}
	isC := func(t *Term, v uint64) bool { return t.op == OConst && t.u == v }
	if len(tb.rng) > 0 && (op == OBSRem || op == OBSLt || op == OBSLe) {
		al, ah, ok1 := tb.bounds(a)
		bl, bh, ok2 := tb.bounds(b)
		if ok1 && ok2 {
			switch {
			case op == OBSRem && al >= 0 && ah < bl:
				return a
			case op == OBSLt && ah < bl || op == OBSLe && ah <= bl:
				return tb.tt
			case op == OBSLt && al >= bh || op == OBSLe && al > bh:
				return tb.ff
			}
		}
	}
	if (op == OBSLt || op == OBSLe) && len(tb.signs) > 0 {
		if g, ok := tb.signs[a]; ok && isC(b, 0) {
			if op == OBSLt {
				return g[0]
			}
			return tb.or(g[0], g[1])
		}
		if g, ok := tb.signs[b]; ok && isC(a, 0) {
			if op == OBSLe {
				return tb.not(g[0])
			}
			return tb.not(tb.or(g[0], g[1]))
		}
	}
	if op == OBAnd && len(tb.rng) > 0 && s == SBV64 {
		x, c := a, b
		if x.op == OConst {
			x, c = b, a
		}
		if lo, hi, ok := tb.bounds(x); ok && c.op == OConst && lo >= 0 {
			all := uint64(1)<<bits.Len64(uint64(hi)) - 1
			if c.u&all == 0 {
				return tb.bv(s, 0)
			}
			if c.u&all == all {
				return x
			}
		}
	}
	if s == SBV64 && len(tb.rng) > 0 {
		switch op {
		case OBSDiv, OBSRem:
			if b.op == OConst && b.u > 0 {
				if x, y := tb.narrow(a), tb.narrow(b); x != nil && y != nil {
					return tb.ext(tb.bin(op, x, y), s, true)
				}
			}
		case OBSLt, OBSLe:
			if a.op != OVar && b.op != OVar {
				if x, y := tb.narrow(a), tb.narrow(b); x != nil && y != nil {
					return tb.bin(op, x, y)
				}
			}
		}
	}
	switch op {
	case OBAdd:
		if isC(a, 0) {
			return b
		}
		if isC(b, 0) {
			return a
		}
		// (x + c1) + c2
		if b.op == OConst && a.op == OBAdd && a.a[1].op == OConst {
			return tb.bin(OBAdd, a.a[0], tb.bv(s, a.a[1].u+b.u))
		}
		if a.op == OConst {
			a, b = b, a
		}
	case OBSub:
		if isC(b, 0) {
			return a
		}
		if a == b {
			return tb.bv(s, 0)
		}
		if b.op == OConst {
			return tb.bin(OBAdd, a, tb.bv(s, -b.u))
		}
	case OBMul:
		if isC(a, 1) {
			return b
		}
		if isC(b, 1) {
			return a
		}
		if isC(a, 0) || isC(b, 0) {
			return tb.bv(s, 0)
		}
	case OBUDiv, OBSDiv:
		if isC(b, 1) {
			return a
		}
	case OBAnd:
		if isC(a, 0) || isC(b, 0) {
			return tb.bv(s, 0)
		}
		if isC(a, mask(s)) || a == b {
			return b
		}
		if isC(b, mask(s)) {
			return a
		}
	case OBOr, OBXor:
		if isC(a, 0) {
			return b
		}
		if isC(b, 0) {
			return a
		}
	case OBShl, OBLShr, OBAShr:
		if isC(b, 0) {
			return a
		}
	case OBULt, OBSLt:
		if a == b {
			return tb.ff
		}
	case OBULe, OBSLe:
		if a == b {
			return tb.tt
		}
	}
	rs := s
	switch op {
	case OBULt, OBULe, OBSLt, OBSLe:
		rs = SBool
	}
	return tb.mk(&Term{op: op, sort: rs, a: []*Term{a, b}})
}

func (tb *TermTable) ext(a *Term, to Sort, signed bool) *Term {
	if a.sort == to {
		return a
	}
	if a.op == OConst {
		if signed {
			return tb.bv(to, uint64(sext(a.u, a.sort)))
		}
		return tb.bv(to, a.u)
	}
	if a.op == OExt && a.a[0].sort == to && a.sort.bits() < to.bits() && len(tb.rng) > 0 {
		if lo, hi, ok := tb.bounds(a.a[0]); ok && hi < 1<<(a.sort.bits()-1) && (lo >= 0 || signed && lo >= -1<<(a.sort.bits()-1)) {
			return a.a[0]
		}
	}
	u := uint64(0)
	if signed {
		u = 1
	}
	return tb.mk(&Term{op: OExt, sort: to, a: []*Term{a}, u: u})
}

// ---- reals ----

func ratOf(f float64) *big.Rat {
	r := new(big.Rat)
	r.SetFloat64(f)
	return r
}

func (tb *TermTable) lin(k *big.Rat, ms []monom) *Term {
	return tb.mk(&Term{op: OLin, sort: SReal, k: k, ms: ms})
}

func (tb *TermTable) rat(k *big.Rat) *Term { return tb.lin(k, nil) }

// toReal converts a finite float constant to a rational.
func (tb *TermTable) toReal(t *Term) *Term {
	if t.sort == SReal {
		return t
	}
	if t.sort == SFlt {
		return tb.rat(ratOf(t.f))
	}
	panic("toReal: bad sort")
}

func (tb *TermTable) linComb(ca *big.Rat, a *Term, cb *big.Rat, b *Term) *Term {
	k := new(big.Rat).Mul(ca, a.k)
	k.Add(k, new(big.Rat).Mul(cb, b.k))
	ms := make([]monom, 0, len(a.ms)+len(b.ms))
	i, j := 0, 0
	for i < len(a.ms) || j < len(b.ms) {
		switch {
		case j >= len(b.ms) || (i < len(a.ms) && a.ms[i].t.id < b.ms[j].t.id):
			c := new(big.Rat).Mul(ca, a.ms[i].c)
			if c.Sign() != 0 {
				ms = append(ms, monom{c, a.ms[i].t})
			}
			i++
		case i >= len(a.ms) || b.ms[j].t.id < a.ms[i].t.id:
			c := new(big.Rat).Mul(cb, b.ms[j].c)
			if c.Sign() != 0 {
				ms = append(ms, monom{c, b.ms[j].t})
			}
			j++
		default:
			c := new(big.Rat).Mul(ca, a.ms[i].c)
			c.Add(c, new(big.Rat).Mul(cb, b.ms[j].c))
			if c.Sign() != 0 {
				ms = append(ms, monom{c, a.ms[i].t})
			}
			i++
			j++
		}
	}
	return tb.lin(k, ms)
}

var ratOne = big.NewRat(1, 1)
var ratMinus = big.NewRat(-1, 1)

func (tb *TermTable) radd(a, b *Term) *Term { return tb.linComb(ratOne, a, ratOne, b) }
func (tb *TermTable) rsub(a, b *Term) *Term { return tb.linComb(ratOne, a, ratMinus, b) }
func (tb *TermTable) rscale(a *Term, c *big.Rat) *Term {
	return tb.linComb(c, a, new(big.Rat), tb.rat(new(big.Rat)))
}

// rmul distributes products so that polynomials have one normal form.
func (tb *TermTable) rmul(a, b *Term) *Term {
	if len(a.ms) == 0 {
		return tb.rscale(b, a.k)
	}
	if len(b.ms) == 0 {
		return tb.rscale(a, b.k)
	}
	res := tb.rat(new(big.Rat).Mul(a.k, b.k))
	one := func(c *big.Rat, t *Term) *Term { return tb.lin(new(big.Rat), []monom{{c, t}}) }
	for _, m := range a.ms {
		if b.k.Sign() != 0 {
			res = tb.radd(res, one(new(big.Rat).Mul(m.c, b.k), m.t))
		}
		for _, n := range b.ms {
			res = tb.radd(res, one(new(big.Rat).Mul(m.c, n.c), tb.prod(m.t, n.t)))
		}
	}
	if a.k.Sign() != 0 {
		for _, n := range b.ms {
			res = tb.radd(res, one(new(big.Rat).Mul(n.c, a.k), n.t))
		}
	}
	return res
}

// prod is a product of atoms, flattened and sorted.
func (tb *TermTable) prod(x, y *Term) *Term {
	var fs []*Term
	for _, t := range []*Term{x, y} {
		if t.op == OMulR {
			fs = append(fs, t.a...)
		} else {
			fs = append(fs, t)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return tb.mk(&Term{op: OMulR, sort: SReal, a: fs})
}

func (tb *TermTable) rcmp(op Op, a, b *Term) *Term {
	d := tb.rsub(a, b)
	if len(d.ms) == 0 {
		s := d.k.Sign()
		switch op {
		case ORLe0:
			return tb.boolean(s <= 0)
		case ORLt0:
			return tb.boolean(s < 0)
		default:
			return tb.boolean(s == 0)
		}
	}
	// normalise scale
	lead := new(big.Rat).Abs(d.ms[0].c)
	if op == OREq0 && d.ms[0].c.Sign() < 0 {
		lead.Neg(lead)
	}
	if lead.Cmp(ratOne) != 0 {
		d = tb.rscale(d, new(big.Rat).Inv(lead))
	}
	// a <= b with negative lead: not (-d < 0)
	if op != OREq0 && d.ms[0].c.Sign() < 0 {
		nd := tb.rscale(d, ratMinus)
		if op == ORLe0 {
			return tb.not(tb.mk(&Term{op: ORLt0, sort: SBool, a: []*Term{nd}}))
		}
		return tb.not(tb.mk(&Term{op: ORLe0, sort: SBool, a: []*Term{nd}}))
	}
	return tb.mk(&Term{op: op, sort: SBool, a: []*Term{d}})
}

// ---- fp ----

func (tb *TermTable) fp(op Op, s Sort, args ...*Term) *Term {
	return tb.mk(&Term{op: op, sort: s, a: args})
}

// ---- model evaluation ----

type Val struct {
	u uint64
	r *big.Rat
	f float64
}

type Model map[string]Val

type evaluator struct {
	m    Model
	memo map[*Term]Val
	bad  bool
}

func boolVal(b bool) Val {
	if b {
		return Val{u: 1}
	}
	return Val{}
}

func (e *evaluator) eval(t *Term) Val {
	switch t.op {
	case OConst:
		if t.sort == SFlt {
			return Val{f: t.f, r: nil}
		}
		return Val{u: t.u}
	case OVar:
		v, ok := e.m[t.name]
		if !ok {
			if t.sort == SReal {
				return Val{r: new(big.Rat)}
			}
			return Val{}
		}
		return v
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t] = v
	return v
}

func (e *evaluator) eval1(t *Term) Val {
	arg := func(i int) Val { return e.eval(t.a[i]) }
	switch t.op {
	case ONot:
		return boolVal(arg(0).u == 0)
	case OAnd:
		return boolVal(arg(0).u == 1 && arg(1).u == 1)
	case OOr:
		return boolVal(arg(0).u == 1 || arg(1).u == 1)
	case OEq:
		return boolVal(arg(0).u == arg(1).u)
	case OIte:
		if arg(0).u == 1 {
			return arg(1)
		}
		return arg(2)
	case OExt:
		s := t.a[0].sort
		u := arg(0).u
		if t.u == 1 {
			u = uint64(sext(u, s))
		}
		return Val{u: u & mask(t.sort)}
	case OLin:
		r := new(big.Rat).Set(t.k)
		for _, m := range t.ms {
			r.Add(r, new(big.Rat).Mul(m.c, e.eval(m.t).r))
		}
		return Val{r: r}
	case OMulR:
		r := new(big.Rat).Set(arg(0).r)
		for i := 1; i < len(t.a); i++ {
			r.Mul(r, arg(i).r)
		}
		return Val{r: r}
	case ORLe0:
		return boolVal(arg(0).r.Sign() <= 0)
	case ORLt0:
		return boolVal(arg(0).r.Sign() < 0)
	case OREq0:
		return boolVal(arg(0).r.Sign() == 0)
	case OFAdd:
		return Val{f: arg(0).f + arg(1).f}
	case OFSub:
		return Val{f: arg(0).f - arg(1).f}
	case OFMul:
		return Val{f: arg(0).f * arg(1).f}
	case OFDiv:
		return Val{f: arg(0).f / arg(1).f}
	case OFNeg:
		return Val{f: -arg(0).f}
	case OFAbs:
		return Val{f: math.Abs(arg(0).f)}
	case OFSqrt:
		return Val{f: math.Sqrt(arg(0).f)}
	case OFLt:
		return boolVal(arg(0).f < arg(1).f)
	case OFLe:
		return boolVal(arg(0).f <= arg(1).f)
	case OFEq:
		return boolVal(arg(0).f == arg(1).f)
	case OFIsNaN:
		return boolVal(math.IsNaN(arg(0).f))
	case OFIsInf:
		return boolVal(math.IsInf(arg(0).f, 0))
	case OFFromS:
		return Val{f: float64(sext(arg(0).u, t.a[0].sort))}
	case OFFromU:
		return Val{f: float64(arg(0).u)}
	case OFToS:
		return Val{u: uint64(int64(arg(0).f))}
	}
	x, y := arg(0).u, arg(1).u
	s := t.a[0].sort
	sx, sy := sext(x, s), sext(y, s)
	n := uint64(s.bits())
	w := func(u uint64) Val { return Val{u: u & mask(s)} }
	switch t.op {
	case OBAdd:
		return w(x + y)
	case OBSub:
		return w(x - y)
	case OBMul:
		return w(x * y)
	case OBUDiv:
		if y == 0 {
			return w(^uint64(0))
		}
		return w(x / y)
	case OBURem:
		if y == 0 {
			return w(x)
		}
		return w(x % y)
	case OBSDiv:
		if y == 0 {
			if sx < 0 {
				return w(1)
			}
			return w(^uint64(0))
		}
		if sy == -1 {
			return w(uint64(-sx))
		}
		return w(uint64(sx / sy))
	case OBSRem:
		if y == 0 {
			return w(x)
		}
		if sy == -1 {
			return w(0)
		}
		return w(uint64(sx % sy))
	case OBAnd:
		return w(x & y)
	case OBOr:
		return w(x | y)
	case OBXor:
		return w(x ^ y)
	case OBShl:
		if y >= n {
			return w(0)
		}
		return w(x << y)
	case OBLShr:
		if y >= n {
			return w(0)
		}
		return w(x >> y)
	case OBAShr:
		if y >= n {
			y = n - 1
		}
		return w(uint64(sx >> y))
	case OBULt:
		return boolVal(x < y)
	case OBULe:
		return boolVal(x <= y)
	case OBSLt:
		return boolVal(sx < sy)
	case OBSLe:
		return boolVal(sx <= sy)
	}
	panic(fmt.Sprintf("eval: op %d", t.op))
}
