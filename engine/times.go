package main

import "math"

// A shortcut computes the result of a library function without branching in the cases it covers.
type shortcut func(t *Thread, args []Value) (Value, bool)

// shortcuts: comparisons of instants without a monotonic reading, as one term each.
var shortcuts = map[string]shortcut{
	"(time.Time).After":  func(t *Thread, a []Value) (Value, bool) { return t.instantLess(a[1], a[0]) },
	"(time.Time).Before": func(t *Thread, a []Value) (Value, bool) { return t.instantLess(a[0], a[1]) },
	"(time.Time).Equal": func(t *Thread, a []Value) (Value, bool) {
		tb := t.p.w.tb
		as, an, ok1 := t.instant(a[0])
		bs, bn, ok2 := t.instant(a[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		return tb.and(tb.eq(as, bs), tb.eq(an, bn)), true
	},
	"(time.Time).Compare": func(t *Thread, a []Value) (Value, bool) {
		tb := t.p.w.tb
		l, ok1 := t.instantLess(a[0], a[1])
		g, ok2 := t.instantLess(a[1], a[0])
		if !ok1 || !ok2 {
			return nil, false
		}
		return tb.ite(l.(*Term), tb.i64(-1), tb.ite(g.(*Term), tb.i64(1), tb.i64(0))), true
	},
	"(time.Time).Sub": func(t *Thread, a []Value) (Value, bool) {
		tb := t.p.w.tb
		as, an, ok1 := t.instant(a[0])
		bs, bn, ok2 := t.instant(a[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		ds, dn := tb.bin(OBSub, as, bs), tb.bin(OBSub, an, bn)
		le := func(x, y *Term) *Term { return tb.bin(OBSLe, x, y) }
		const top = math.MaxInt64 / 1000000000
		fits := tb.or(tb.and(le(tb.i64(1-top), ds), le(ds, tb.i64(top-1))),
			tb.or(tb.and(tb.eq(ds, tb.i64(top)), le(dn, tb.i64(math.MaxInt64%1000000000))),
				tb.or(tb.and(tb.eq(ds, tb.i64(-top)), le(tb.i64(-(math.MaxInt64%1000000000)-1), dn)),
					tb.and(tb.eq(ds, tb.i64(-top-1)), le(tb.i64(1000000000-(math.MaxInt64%1000000000)-1), dn)))))
		d := tb.bin(OBAdd, tb.bin(OBMul, ds, tb.i64(1000000000)), dn)
		less, _ := t.instantLess(a[0], a[1])
		r := tb.ite(fits, d, tb.ite(less.(*Term), tb.i64(math.MinInt64), tb.i64(math.MaxInt64)))
		if r.op == OIte {
			if tb.signs == nil {
				tb.signs = map[*Term][2]*Term{}
			}
			tb.signs[r] = [2]*Term{less.(*Term), tb.and(tb.eq(as, bs), tb.eq(an, bn))}
		}
		return r, true
	},
}

// instant returns the seconds and nanoseconds of a time.Time without a monotonic reading.
func (t *Thread) instant(v Value) (sec, nsec *Term, ok bool) {
	s, ok := v.(*StructV)
	if !ok || len(s.f) != 3 {
		return nil, nil, false
	}
	nsec, ok1 := s.f[0].(*Term)
	sec, ok2 := s.f[1].(*Term)
	if !ok1 || !ok2 {
		return nil, nil, false
	}
	lo, hi, ok := t.p.w.tb.bounds(nsec)
	return sec, nsec, ok && lo >= 0 && hi < 1<<30
}

func (t *Thread) instantLess(a, b Value) (Value, bool) {
	tb := t.p.w.tb
	as, an, ok1 := t.instant(a)
	bs, bn, ok2 := t.instant(b)
	if !ok1 || !ok2 {
		return nil, false
	}
	return tb.or(tb.bin(OBSLt, as, bs), tb.and(tb.eq(as, bs), tb.bin(OBSLt, an, bn))), true
}
