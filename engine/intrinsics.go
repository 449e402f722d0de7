package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(t *Thread, fn *ssa.Function, args []Value) Value

const symPkg = "trypo/zzverif/sym."

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if strings.HasPrefix(name, symPkg) {
		return symIntrinsics[name[len(symPkg):]]
	}
	if i := pureIntrinsic(name); i != nil {
		return i
	}
	if strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger).") {
		if strings.Contains(name, ".Fatal") || strings.Contains(name, ".Panic") {
			return func(t *Thread, fn *ssa.Function, args []Value) Value {
				panic(targetPanic{IfaceV{t: types.Typ[types.String], v: name}})
			}
		}
		return zeroResult
	}
	return nil
}

func zeroResult(t *Thread, fn *ssa.Function, args []Value) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return t.p.w.zero(res.At(0).Type())
	}
	return t.p.w.zero(res)
}

func newError(msg string) IfaceV {
	nt := &nativeType{name: "*errors.errorString", methods: map[string]func(*Thread, []Value) Value{
		"Error": func(t *Thread, a []Value) Value { return a[0].(string) },
	}}
	return IfaceV{t: nt, v: msg}
}

func (t *Thread) float(v Value) *Term { return v.(*Term) }

func (t *Thread) input(name, kind string, x *Term) {
	t.p.inputs = append(t.p.inputs, inputRec{name: name, kind: kind, t: x})
}

func concreteFloat(v Value) float64 {
	x := v.(*Term)
	if x.sort == SFlt {
		return x.f
	}
	panic(abort{"unsupported", "float must be concrete"})
}

var symIntrinsics map[string]intrinsic

func init() {
	symIntrinsics = map[string]intrinsic{
		"Int": func(t *Thread, fn *ssa.Function, a []Value) Value {
			lo, hi := t.intOf(a[1]), t.intOf(a[2])
			tb := t.p.w.tb
			x := t.p.fresh(a[0].(string), SBV64)
			t.input(a[0].(string), "int", x)
			t.p.assume(tb.and(tb.bin(OBSLe, tb.i64(int64(lo)), x), tb.bin(OBSLe, x, tb.i64(int64(hi)))))
			tb.rng[x] = [2]int64{int64(lo), int64(hi)}
			return x
		},
		"Pick": func(t *Thread, fn *ssa.Function, a []Value) Value {
			lo, hi := t.intOf(a[1]), t.intOf(a[2])
			v := lo
			if hi > lo {
				v = lo + t.p.choose(hi-lo+1)
			}
			x := t.p.w.tb.i64(int64(v))
			t.input(a[0].(string), "int", x)
			return x
		},
		"Bool": func(t *Thread, fn *ssa.Function, a []Value) Value {
			x := t.p.fresh(a[0].(string), SBool)
			t.input(a[0].(string), "bool", x)
			return x
		},
		"Byte": func(t *Thread, fn *ssa.Function, a []Value) Value {
			x := t.p.fresh(a[0].(string), SBV8)
			t.input(a[0].(string), "byte", x)
			return x
		},
		"Float": func(t *Thread, fn *ssa.Function, a []Value) Value {
			tb := t.p.w.tb
			lo, hi := concreteFloat(a[1]), concreteFloat(a[2])
			if t.p.fpmode {
				x := t.p.fresh(a[0].(string), SFP)
				t.input(a[0].(string), "float", x)
				t.p.assume(tb.and(tb.fp(OFLe, SBool, tb.flt(lo), x), tb.fp(OFLe, SBool, x, tb.flt(hi))))
				return x
			}
			x := t.p.fresh(a[0].(string), SReal)
			t.input(a[0].(string), "float", x)
			t.p.assume(tb.and(tb.rcmp(ORLe0, tb.rat(ratOf(lo)), x), tb.rcmp(ORLe0, x, tb.rat(ratOf(hi)))))
			return x
		},
		"AnyFloat": func(t *Thread, fn *ssa.Function, a []Value) Value {
			if !t.p.fpmode {
				t.unsupported("AnyFloat outside fp mode")
			}
			x := t.p.fresh(a[0].(string), SFP)
			t.input(a[0].(string), "float", x)
			return x
		},
		"Assume": func(t *Thread, fn *ssa.Function, a []Value) Value {
			t.p.assume(a[0].(*Term))
			return nil
		},
		"Assert": func(t *Thread, fn *ssa.Function, a []Value) Value {
			t.p.assert(a[0].(*Term), a[1].(string))
			return nil
		},
		"Reach": func(t *Thread, fn *ssa.Function, a []Value) Value {
			t.p.reached[a[0].(string)]++
			return nil
		},
		"Observe": func(t *Thread, fn *ssa.Function, a []Value) Value {
			v := a[1].(IfaceV)
			t.p.obs = append(t.p.obs, obsRec{name: a[0].(string), v: v.v})
			return nil
		},
		"And": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.p.w.tb.and(a[0].(*Term), a[1].(*Term))
		},
		"Or": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.p.w.tb.or(a[0].(*Term), a[1].(*Term))
		},
		"Implies": func(t *Thread, fn *ssa.Function, a []Value) Value {
			tb := t.p.w.tb
			return tb.or(tb.not(a[0].(*Term)), a[1].(*Term))
		},
		"Iff": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.p.w.tb.eq(a[0].(*Term), a[1].(*Term))
		},
		"IteInt": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.p.w.tb.ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
		"Near": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.near(a[0].(*Term), a[1].(*Term))
		},
		"IsFinite": func(t *Thread, fn *ssa.Function, a []Value) Value {
			tb := t.p.w.tb
			x := a[0].(*Term)
			switch x.sort {
			case SFlt:
				return tb.boolean(finite(x))
			case SFP:
				return tb.not(tb.or(tb.fp(OFIsNaN, SBool, x), tb.fp(OFIsInf, SBool, x)))
			}
			return tb.tt
		},
		"FpMode": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.p.w.tb.boolean(t.p.fpmode)
		},
		"Thorough": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.p.w.tb.boolean(t.p.w.ex.thorough)
		},
		"Symbolic": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.p.w.tb.tt
		},
		"Yield": func(t *Thread, fn *ssa.Function, a []Value) Value {
			t.yield()
			return nil
		},
		"Idle": func(t *Thread, fn *ssa.Function, a []Value) Value {
			t.idle = true
			t.block("waiting for all others", func() bool {
				for _, x := range t.p.threads {
					if x != t && !x.done && !x.idle && (x.waitFor == nil || x.waitFor()) {
						return false
					}
				}
				return true
			})
			t.idle = false
			return nil
		},
		"AtomicPoint": func(t *Thread, fn *ssa.Function, a []Value) Value {
			t.atomicPoint(a[0].(IfaceV).v.(*Cell))
			return nil
		},
		"Park": func(t *Thread, fn *ssa.Function, a []Value) Value {
			t.block("parked", func() bool { return false })
			return nil
		},
		"WaitZero": func(t *Thread, fn *ssa.Function, a []Value) Value {
			c := a[0].(*Cell)
			if c == nil {
				t.rtpanic("runtime error: invalid memory address or nil pointer dereference")
			}
			w := t.p.w
			t.waitFor = func() bool {
				x := w.loadRaw(c).(*Term)
				return x.op == OConst && x.u == 0
			}
			t.why = "waiting for a lock or wait group in " + t.fr.caller.where()
			if t.fr.caller != nil && t.fr.caller.fi.name == mutexLock {
				t.pend, t.pendC = opMutex, c
			}
			t.yield()
			if sc := t.p.syncVC[c]; sc != nil {
				t.acquireFrom(*sc)
			}
			return nil
		},
		"Release": func(t *Thread, fn *ssa.Function, a []Value) Value {
			c := a[0].(*Cell)
			sc := t.p.syncVC[c]
			if sc == nil {
				sc = &vclock{}
				t.p.syncVC[c] = sc
			}
			t.releaseTo(sc)
			return nil
		},
		"Invoke":  symInvoke,
		"GobCopy": symGobCopy,
		"JSON": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.newDoc(a[0].(IfaceV))
		},
		"UnJSON": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.jsonUnmarshal(a[0], a[1].(IfaceV))
		},
	}
}

// near: |a-b| <= eps * (1 + |b|) over reals; exact IEEE equality for concrete specials.
func (t *Thread) near(a, b *Term) *Term {
	tb := t.p.w.tb
	if a.sort == SFlt && b.sort == SFlt {
		return tb.boolean(nearF(a.f, b.f))
	}
	if a.sort == SFP || b.sort == SFP {
		return t.fcmp("==", a, b)
	}
	if a.sort == SFlt && !finite(a) || b.sort == SFlt && !finite(b) {
		return tb.ff
	}
	x, y := tb.toReal(a), tb.toReal(b)
	d := tb.rsub(x, y)
	if len(d.ms) == 0 {
		f, _ := d.k.Float64()
		return tb.boolean(math.Abs(f) <= 1e-9)
	}
	eps := tb.rat(big.NewRat(1, 1000000))
	return tb.and(tb.rcmp(ORLe0, d, eps), tb.rcmp(ORLe0, tb.rscale(d, ratMinus), eps))
}

func nearF(a, b float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-6*(1+math.Abs(b))
}

// ---- pure functions evaluated by the host ----

var pureFns = map[string]interface{}{
	"strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.Split": strings.Split,
	"strings.SplitN": strings.SplitN, "strings.Join": strings.Join, "strings.Repeat": strings.Repeat,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.ToLower": strings.ToLower,
	"strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.TrimLeft": strings.TrimLeft,
	"strings.TrimRight": strings.TrimRight, "strings.Fields": strings.Fields, "strings.Count": strings.Count,
	"strings.EqualFold": strings.EqualFold, "strings.Compare": strings.Compare, "strings.ContainsRune": strings.ContainsRune,
	"strings.IndexByte": strings.IndexByte, "strings.Cut": strings.Cut,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt,
	"strconv.FormatBool": strconv.FormatBool,
	"math.Floor":         math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Round": math.Round,
	"math.Pow": nil, "math.Exp": math.Exp, "math.Log": math.Log, "math.Log2": math.Log2, "math.Sin": math.Sin,
	"math.Cos": math.Cos, "math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits,
	"math.Signbit": math.Signbit, "math.Acos": math.Acos, "math.Atan2": math.Atan2, "math.Mod": math.Mod,
}

func pureIntrinsic(name string) intrinsic {
	f, ok := pureFns[name]
	if !ok || f == nil {
		return nil
	}
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	return func(t *Thread, fn *ssa.Function, args []Value) Value {
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			in[i] = t.toHost(a, rt.In(i))
		}
		out := rv.Call(in)
		res := make(TupleV, len(out))
		for i, o := range out {
			res[i] = t.fromHost(o)
		}
		if len(res) == 1 {
			return res[0]
		}
		return res
	}
}

func (t *Thread) toHost(a Value, rt reflect.Type) reflect.Value {
	v := reflect.New(rt).Elem()
	switch rt.Kind() {
	case reflect.String:
		v.SetString(a.(string))
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(int64(t.intOf(a)))
	case reflect.Uint8, reflect.Uint64:
		v.SetUint(t.concretise(a.(*Term)))
	case reflect.Bool:
		v.SetBool(t.p.branch(a.(*Term)))
	case reflect.Float64:
		x := a.(*Term)
		if x.sort != SFlt {
			t.unsupported("symbolic float passed to a host function")
		}
		v.SetFloat(x.f)
	case reflect.Slice:
		s := a.(SliceV)
		r := reflect.MakeSlice(rt, s.len, s.len)
		for i := 0; i < s.len; i++ {
			r.Index(i).Set(t.toHost(t.load(s.at(i)), rt.Elem()))
		}
		v.Set(r)
	default:
		t.unsupported("host argument %s", rt)
	}
	return v
}

func (t *Thread) fromHost(o reflect.Value) Value {
	tb := t.p.w.tb
	switch o.Kind() {
	case reflect.String:
		return o.String()
	case reflect.Int, reflect.Int64:
		return tb.i64(o.Int())
	case reflect.Uint64:
		return tb.bv(SBV64, o.Uint())
	case reflect.Bool:
		return tb.boolean(o.Bool())
	case reflect.Float64:
		return tb.flt(o.Float())
	case reflect.Slice:
		if o.Type().Elem().Kind() == reflect.String {
			s := SliceV{arr: &Arr{et: types.Typ[types.String], cells: make([]*Cell, o.Len())}, len: o.Len(), cap: o.Len()}
			for i := 0; i < o.Len(); i++ {
				t.p.w.storeRaw(s.at(i), o.Index(i).String())
			}
			return s
		}
	}
	t.unsupported("host result %s", o.Type())
	return nil
}

// hostValue converts a value for formatting.
func (t *Thread) hostValue(v Value, typ types.Type, depth int) interface{} {
	if depth > 3 {
		return "..."
	}
	if typ != nil {
		if _, isI := typ.Underlying().(*types.Interface); !isI {
			if s, ok := t.callStringer(v, typ); ok {
				return s
			}
		}
	}
	switch x := v.(type) {
	case IfaceV:
		if x.t == nil {
			return nil
		}
		return t.hostValue(x.v, x.t, depth)
	case *Term:
		switch x.sort {
		case SBool:
			if x.op != OConst {
				return "<sym>"
			}
			return x.u == 1
		case SFlt:
			return x.f
		case SReal, SFP:
			return "<sym>"
		}
		if x.op != OConst {
			return "<sym>"
		}
		if typ != nil && !isSigned(typ) {
			return x.u
		}
		return sext(x.u, x.sort)
	case string:
		return x
	case SliceV:
		var r []interface{}
		for i := 0; i < x.len; i++ {
			r = append(r, t.hostValue(t.p.w.loadRaw(x.at(i)), x.arr.et, depth+1))
		}
		return r
	case *StructV:
		st, _ := typ.Underlying().(*types.Struct)
		r := []interface{}{}
		for i, f := range x.f {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			r = append(r, t.hostValue(f, ft, depth+1))
		}
		return r
	}
	return fmt.Sprintf("<%T>", v)
}

func (t *Thread) callStringer(v Value, typ types.Type) (string, bool) {
	if nt, ok := typ.(*nativeType); ok {
		if f := nt.methods["Error"]; f != nil {
			return f(t, []Value{v}).(string), true
		}
		return "", false
	}
	for _, m := range []string{"Error", "String"} {
		ms := t.p.w.ex.prog.MethodSets.MethodSet(typ)
		for i := 0; i < ms.Len(); i++ {
			f, ok := ms.At(i).Obj().(*types.Func)
			if !ok || f.Name() != m {
				continue
			}
			sig := f.Type().(*types.Signature)
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 && sig.Results().At(0).Type() == types.Typ[types.String] {
				if pkg := f.Pkg(); pkg != nil && !strings.HasPrefix(pkg.Path(), "trypo") {
					return "<" + typ.String() + ">", true
				}
				fn := t.p.w.method(t, typ, f)
				r := t.call(fn, []Value{v}, nil)
				return r.(string), true
			}
		}
	}
	return "", false
}

func (t *Thread) hostArgs(v Value) []interface{} {
	s := v.(SliceV)
	var r []interface{}
	for i := 0; i < s.len; i++ {
		r = append(r, t.hostValue(t.p.w.loadRaw(s.at(i)), nil, 0))
	}
	return r
}

func wrapErr(msg string, inner IfaceV) IfaceV {
	e := newError(msg)
	if inner.t != nil {
		e.t.(*nativeType).methods["Unwrap"] = func(t *Thread, a []Value) Value { return inner }
	}
	return e
}

func (t *Thread) unwrap(e IfaceV) IfaceV {
	if e.t == nil {
		return IfaceV{}
	}
	if nt, ok := e.t.(*nativeType); ok {
		if f := nt.methods["Unwrap"]; f != nil {
			return f(t, []Value{e.v}).(IfaceV)
		}
		return IfaceV{}
	}
	ms := t.p.w.ex.prog.MethodSets.MethodSet(e.t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == "Unwrap" {
			if r, ok := t.call(t.p.w.method(t, e.t, f), []Value{e.v}, nil).(IfaceV); ok {
				return r
			}
		}
	}
	return IfaceV{}
}

func (t *Thread) ifaceEqual(a, b IfaceV) bool {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	na, ok1 := a.t.(*nativeType)
	nb, ok2 := b.t.(*nativeType)
	if ok1 || ok2 {
		return na == nb
	}
	return t.p.branch(t.equal(a, b))
}

var intrinsics map[string]intrinsic

func floatFn1(f func(t *Thread, x *Term) *Term) intrinsic {
	return func(t *Thread, fn *ssa.Function, a []Value) Value { return f(t, a[0].(*Term)) }
}

func (t *Thread) pickMin(a, b *Term, max bool) *Term {
	tb := t.p.w.tb
	for _, x := range []*Term{a, b} {
		if x.sort == SFlt && math.IsNaN(x.f) {
			return tb.flt(math.NaN())
		}
		if x.sort == SFP && t.p.branch(tb.fp(OFIsNaN, SBool, x)) {
			return tb.flt(math.NaN())
		}
	}
	c := t.fcmp("<", a, b)
	if max {
		c = t.fcmp("<", b, a)
	}
	if t.p.branch(c) {
		return a
	}
	return b
}

func init() {
	intrinsics = map[string]intrinsic{
		"math.Sqrt": floatFn1(func(t *Thread, x *Term) *Term { return t.sqrt(x) }),
		"math.sqrt": floatFn1(func(t *Thread, x *Term) *Term { return t.sqrt(x) }),
		"math.Abs":  floatFn1(func(t *Thread, x *Term) *Term { return t.fabs(x) }),
		"math.IsNaN": floatFn1(func(t *Thread, x *Term) *Term {
			switch x.sort {
			case SFlt:
				return t.p.w.tb.boolean(math.IsNaN(x.f))
			case SFP:
				return t.p.w.tb.fp(OFIsNaN, SBool, x)
			}
			return t.p.w.tb.ff
		}),
		"math.IsInf": func(t *Thread, fn *ssa.Function, a []Value) Value {
			tb := t.p.w.tb
			x := a[0].(*Term)
			s := t.intOf(a[1])
			switch x.sort {
			case SFlt:
				return tb.boolean(math.IsInf(x.f, s))
			case SFP:
				inf := tb.fp(OFIsInf, SBool, x)
				switch {
				case s > 0:
					return tb.and(inf, tb.fp(OFLt, SBool, tb.flt(0), x))
				case s < 0:
					return tb.and(inf, tb.fp(OFLt, SBool, x, tb.flt(0)))
				}
				return inf
			}
			return tb.ff
		},
		"math.Inf": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.p.w.tb.flt(math.Inf(t.intOf(a[0])))
		},
		"math.NaN": func(t *Thread, fn *ssa.Function, a []Value) Value { return t.p.w.tb.flt(math.NaN()) },
		"math.Max": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.pickMin(a[0].(*Term), a[1].(*Term), true)
		},
		"math.Min": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.pickMin(a[0].(*Term), a[1].(*Term), false)
		},
		"math.Hypot": func(t *Thread, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			if x.sort == SFlt && y.sort == SFlt {
				return t.p.w.tb.flt(math.Hypot(x.f, y.f))
			}
			tf := types.Typ[types.Float64]
			return t.sqrt(t.farith(tokADD, t.farith(tokMUL, x, x, tf), t.farith(tokMUL, y, y, tf), tf))
		},
		"math.Pow": func(t *Thread, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			if x.sort == SFlt && y.sort == SFlt {
				return t.p.w.tb.flt(math.Pow(x.f, y.f))
			}
			if y.sort == SFlt && y.f == 0.5 {
				return t.sqrt(x)
			}
			if y.sort == SFlt && y.f == math.Trunc(y.f) && y.f >= 1 && y.f <= 8 {
				r := x
				for i := 1; i < int(y.f); i++ {
					r = t.farith(tokMUL, r, x, types.Typ[types.Float64])
				}
				return r
			}
			t.unsupported("math.Pow")
			return nil
		},
		"fmt.Sprintf": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return fmt.Sprintf(a[0].(string), t.hostArgs(a[1])...)
		},
		"fmt.Sprint":   func(t *Thread, fn *ssa.Function, a []Value) Value { return fmt.Sprint(t.hostArgs(a[0])...) },
		"fmt.Sprintln": func(t *Thread, fn *ssa.Function, a []Value) Value { return fmt.Sprintln(t.hostArgs(a[0])...) },
		"fmt.Errorf": func(t *Thread, fn *ssa.Function, a []Value) Value {
			var inner IfaceV
			s := a[1].(SliceV)
			f := a[0].(string)
			if strings.Contains(f, "%w") {
				for i := 0; i < s.len; i++ {
					v := t.p.w.loadRaw(s.at(i)).(IfaceV)
					if v.t == nil {
						continue
					}
					if nt, ok := v.t.(*nativeType); ok && nt.methods["Error"] != nil {
						inner = v
					} else if !ok && types.Implements(v.t, t.p.w.ex.errorType) {
						inner = v
					}
				}
				f = strings.ReplaceAll(f, "%w", "%v")
			}
			return wrapErr(fmt.Sprintf(f, t.hostArgs(a[1])...), inner)
		},
		"fmt.Println": zeroResult, "fmt.Printf": zeroResult, "fmt.Print": zeroResult,
		"fmt.Fprintf": zeroResult, "fmt.Fprintln": zeroResult, "fmt.Fprint": zeroResult,
		"errors.Is": func(t *Thread, fn *ssa.Function, a []Value) Value {
			e, target := a[0].(IfaceV), a[1].(IfaceV)
			for e.t != nil {
				if t.ifaceEqual(e, target) {
					return t.p.w.tb.tt
				}
				e = t.unwrap(e)
			}
			return t.p.w.tb.boolean(target.t == nil && a[0].(IfaceV).t == nil)
		},
		"errors.As": func(t *Thread, fn *ssa.Function, a []Value) Value {
			e, target := a[0].(IfaceV), a[1].(IfaceV)
			tt := deref(target.t)
			c := target.v.(*Cell)
			for e.t != nil {
				if _, n := e.t.(*nativeType); !n {
					if it, ok := tt.Underlying().(*types.Interface); ok {
						if types.Implements(e.t, it) {
							t.store(c, e)
							return t.p.w.tb.tt
						}
					} else if types.Identical(e.t, tt) {
						t.store(c, e.v)
						return t.p.w.tb.tt
					}
				}
				e = t.unwrap(e)
			}
			return t.p.w.tb.ff
		},
		"errors.Unwrap": func(t *Thread, fn *ssa.Function, a []Value) Value { return t.unwrap(a[0].(IfaceV)) },
		"sort.Slice":    sortSlice, "sort.SliceStable": sortSlice,
		"runtime.Gosched": func(t *Thread, fn *ssa.Function, a []Value) Value { t.yield(); return nil },
		"runtime.GC":      zeroResult,
		"runtime.NumCPU":  func(t *Thread, fn *ssa.Function, a []Value) Value { return t.p.w.tb.i64(4) },
		"runtime.GOMAXPROCS": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.p.w.tb.i64(4)
		},
		"encoding/json.NewDecoder": jsonNewCoder, "encoding/json.NewEncoder": jsonNewCoder,
		"(*encoding/json.Decoder).Decode": jsonDecode, "(*encoding/json.Encoder).Encode": jsonEncode,
		"(*encoding/json.Encoder).SetIndent": zeroResult, "(*encoding/json.Encoder).SetEscapeHTML": zeroResult,
		"encoding/json.MarshalIndent": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return TupleV{t.newDoc(a[0].(IfaceV)), IfaceV{}}
		},
		"encoding/json.Marshal": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return TupleV{t.newDoc(a[0].(IfaceV)), IfaceV{}}
		},
		"encoding/json.Unmarshal": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.jsonUnmarshal(a[0], a[1].(IfaceV))
		},
		"time.now":           zeroResult,
		"time.runtimeNano":   zeroResult,
		"(*sync.Once).Do":    onceDo,
		"(*sync.Mutex).Lock": zeroResult, "(*sync.Mutex).Unlock": zeroResult,
		"(*sync.RWMutex).Lock": zeroResult, "(*sync.RWMutex).Unlock": zeroResult,
		"(*sync.RWMutex).RLock": zeroResult, "(*sync.RWMutex).RUnlock": zeroResult,
		"internal/race.Enabled": zeroResult,
		"bytes.Equal": func(t *Thread, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(SliceV), a[1].(SliceV)
			tb := t.p.w.tb
			if x.len != y.len {
				return tb.ff
			}
			r := tb.tt
			for i := 0; i < x.len; i++ {
				r = tb.and(r, tb.eq(t.load(x.at(i)).(*Term), t.load(y.at(i)).(*Term)))
			}
			return r
		},
		"reflect.DeepEqual": func(t *Thread, fn *ssa.Function, a []Value) Value {
			return t.deepEqual(a[0], a[1], 0)
		},
	}
	for _, ty := range []struct{ n, sfx string }{{"Int32", "32"}, {"Int64", "64"}, {"Uint32", "32"}, {"Uint64", "64"}} {
		intrinsics["sync/atomic.Load"+ty.n] = atomicLoad
		intrinsics["sync/atomic.Store"+ty.n] = atomicStore
		intrinsics["sync/atomic.Add"+ty.n] = atomicAdd
		intrinsics["sync/atomic.CompareAndSwap"+ty.n] = atomicCAS
		intrinsics["sync/atomic.Swap"+ty.n] = atomicSwap
	}
	intrinsics["sync/atomic.LoadPointer"] = atomicLoad
	intrinsics["sync/atomic.StorePointer"] = atomicStore
}

func (t *Thread) atomicPoint(c *Cell) {
	if c == nil {
		t.rtpanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if t.p.multi {
		t.yield()
	}
	sc := t.p.syncVC[c]
	if sc == nil {
		sc = &vclock{}
		t.p.syncVC[c] = sc
	}
	t.acquireFrom(*sc)
	t.releaseTo(sc)
}

func atomicLoad(t *Thread, fn *ssa.Function, a []Value) Value {
	c := a[0].(*Cell)
	t.atomicPoint(c)
	return t.p.w.loadRaw(c)
}
func atomicStore(t *Thread, fn *ssa.Function, a []Value) Value {
	c := a[0].(*Cell)
	t.atomicPoint(c)
	t.p.w.storeRaw(c, a[1])
	return nil
}
func atomicAdd(t *Thread, fn *ssa.Function, a []Value) Value {
	c := a[0].(*Cell)
	t.atomicPoint(c)
	v := t.p.w.tb.bin(OBAdd, t.p.w.loadRaw(c).(*Term), a[1].(*Term))
	t.p.w.storeRaw(c, v)
	return v
}
func atomicSwap(t *Thread, fn *ssa.Function, a []Value) Value {
	c := a[0].(*Cell)
	t.atomicPoint(c)
	v := t.p.w.loadRaw(c)
	t.p.w.storeRaw(c, a[1])
	return v
}
func atomicCAS(t *Thread, fn *ssa.Function, a []Value) Value {
	c := a[0].(*Cell)
	t.atomicPoint(c)
	if t.p.branch(t.equal(t.p.w.loadRaw(c), a[1])) {
		t.p.w.storeRaw(c, a[2])
		return t.p.w.tb.tt
	}
	return t.p.w.tb.ff
}

func onceDo(t *Thread, fn *ssa.Function, a []Value) Value {
	c := a[0].(*Cell)
	if t.p.once[c] {
		return nil
	}
	t.p.once[c] = true
	t.call(a[1], nil, nil)
	return nil
}

// sortSlice is insertion sort, which is what the library does for up to 12 elements.
func sortSlice(t *Thread, fn *ssa.Function, a []Value) Value {
	s := a[0].(IfaceV).v.(SliceV)
	if s.len > 12 {
		t.unsupported("sort.Slice of more than 12 elements")
	}
	tb := t.p.w.tb
	for i := 1; i < s.len; i++ {
		for j := i; j > 0; j-- {
			if !t.p.branch(t.call(a[1], []Value{tb.i64(int64(j)), tb.i64(int64(j - 1))}, nil).(*Term)) {
				break
			}
			x, y := t.load(s.at(j)), t.load(s.at(j-1))
			t.store(s.at(j), y)
			t.store(s.at(j-1), x)
		}
	}
	return nil
}

func (t *Thread) deepEqual(a, b Value, d int) *Term {
	tb := t.p.w.tb
	if d > 12 {
		t.unsupported("DeepEqual depth")
	}
	switch x := a.(type) {
	case IfaceV:
		y := b.(IfaceV)
		if x.t == nil || y.t == nil {
			return tb.boolean(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tb.ff
		}
		return t.deepEqual(x.v, y.v, d+1)
	case SliceV:
		y := b.(SliceV)
		if (x.arr == nil) != (y.arr == nil) || x.len != y.len {
			return tb.ff
		}
		r := tb.tt
		for i := 0; i < x.len; i++ {
			r = tb.and(r, t.deepEqual(t.load(x.at(i)), t.load(y.at(i)), d+1))
		}
		return r
	case *StructV:
		y := b.(*StructV)
		r := tb.tt
		for i := range x.f {
			r = tb.and(r, t.deepEqual(x.f[i], y.f[i], d+1))
		}
		return r
	case *ArrayV:
		y := b.(*ArrayV)
		r := tb.tt
		for i := range x.e {
			r = tb.and(r, t.deepEqual(x.e[i], y.e[i], d+1))
		}
		return r
	case *Cell:
		y := b.(*Cell)
		if x == y {
			return tb.tt
		}
		if x == nil || y == nil {
			return tb.ff
		}
		return t.deepEqual(t.load(x), t.load(y), d+1)
	case *MapV:
		y := b.(*MapV)
		if (x == nil) != (y == nil) {
			return tb.ff
		}
		if x == nil || x == y {
			return tb.tt
		}
		if len(x.entries) != len(y.entries) {
			return tb.ff
		}
		r := tb.tt
		for _, e := range x.entries {
			f := y.index[t.keyString(e.k)]
			if f == nil {
				return tb.ff
			}
			r = tb.and(r, t.deepEqual(e.v, f.v, d+1))
		}
		return r
	}
	return t.equal(a, b)
}
