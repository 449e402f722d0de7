package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tokADD = token.ADD
	tokMUL = token.MUL
)

// symInvoke calls an exported method by name with a freshly decoded argument and reply, as net/rpc does.
func symInvoke(t *Thread, fn *ssa.Function, a []Value) Value {
	rcvr := a[0].(IfaceV)
	name := a[1].(string)
	args := a[2].(IfaceV)
	reply := a[3].(IfaceV)
	w := t.p.w
	ms := w.ex.prog.MethodSets.MethodSet(rcvr.t)
	var m *types.Func
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name && f.Exported() {
			m = f
		}
	}
	if m == nil {
		return newError("rpc: can't find method " + name)
	}
	sig := m.Type().(*types.Signature)
	if sig.Params().Len() != 2 || sig.Results().Len() != 1 {
		return newError("rpc: can't find method " + name)
	}
	at := sig.Params().At(0).Type()
	rt := sig.Params().At(1).Type()
	rp, ok := rt.Underlying().(*types.Pointer)
	if !ok {
		return newError("rpc: can't find method " + name)
	}
	// decode the argument
	var av Value
	if ap, isP := at.Underlying().(*types.Pointer); isP {
		c := newCell(ap.Elem())
		t.gobInto(args.v, args.t, c)
		av = c
	} else {
		c := newCell(at)
		t.gobInto(args.v, args.t, c)
		av = w.loadRaw(c)
	}
	rc := newCell(rp.Elem())
	switch rp.Elem().Underlying().(type) {
	case *types.Map:
		mt := rp.Elem().Underlying().(*types.Map)
		rc.v = &MapV{kt: mt.Key(), et: mt.Elem(), index: map[string]*mapEntry{}}
	case *types.Slice:
		rc.v = SliceV{arr: &Arr{et: rp.Elem().Underlying().(*types.Slice).Elem()}}
	}
	f := w.method(t, rcvr.t, m)
	err := t.call(f, []Value{rcvr.v, av, rc}, nil).(IfaceV)
	if err.t != nil {
		return err
	}
	// The reply is encoded after the method has returned, outside any lock.
	if t.p.multi {
		t.pend = opLocal
		t.yield()
	}
	if reply.t != nil {
		rcell, _ := reply.v.(*Cell)
		if rcell != nil {
			save := t.inNet
			t.inNet = true
			t.gobInto(t.load(rc), rp.Elem(), rcell)
			t.inNet = save
		}
	} else {
		save := t.inNet
		t.inNet = true
		t.gobInto(t.load(rc), rp.Elem(), newCell(rp.Elem()))
		t.inNet = save
	}
	return IfaceV{}
}

func symGobCopy(t *Thread, fn *ssa.Function, a []Value) Value {
	src, dst := a[0].(IfaceV), a[1].(IfaceV)
	c := dst.v.(*Cell)
	v, st := src.v, src.t
	for {
		p, ok := st.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		pc := v.(*Cell)
		if pc == nil {
			return newError("gob: cannot encode nil pointer of type " + st.String())
		}
		v, st = t.load(pc), p.Elem()
	}
	t.gobInto(v, st, c)
	return IfaceV{}
}

// isZeroGob reports whether gob omits a field with this value (may fork).
func (t *Thread) isZeroGob(v Value, typ types.Type) bool {
	tb := t.p.w.tb
	switch x := v.(type) {
	case *Term:
		switch x.sort {
		case SBool:
			return false // copying false over the zero destination is the same unless dst is set; see gobInto
		case SFlt, SReal, SFP:
			return false
		}
		if x.op == OConst {
			return x.u == 0
		}
		return false
	case string:
		return x == ""
	case SliceV:
		return x.len == 0
	case *MapV:
		return x == nil || len(x.entries) == 0
	case *Cell:
		return x == nil
	}
	_ = tb
	return false
}

func isTimeType(typ types.Type) bool {
	return types.Unalias(typ).String() == "time.Time"
}

// gobInto stores v of type st into cell c as encoding/gob would.
func (t *Thread) gobInto(v Value, st types.Type, c *Cell) {
	w := t.p.w
	dt := c.t
	if isTimeType(st) && isTimeType(dt) {
		w.storeRaw(c, v)
		return
	}
	for {
		p, ok := st.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		pc, _ := v.(*Cell)
		if pc == nil {
			panic(targetPanic{IfaceV{t: w.ex.runtimeErr, v: "gob: encodeReflectValue: nil element"}})
		}
		v, st = t.load(pc), p.Elem()
	}
	if p, ok := dt.Underlying().(*types.Pointer); ok {
		cur, _ := w.loadRaw(c).(*Cell)
		if cur == nil {
			cur = newCell(p.Elem())
			t.store(c, cur)
		}
		t.gobInto(v, st, cur)
		return
	}
	if iv, ok := v.(IfaceV); ok {
		if iv.t == nil {
			return
		}
		t.unsupported("gob of interface value")
	}
	switch x := v.(type) {
	case *StructV:
		ss := st.Underlying().(*types.Struct)
		ds, ok := dt.Underlying().(*types.Struct)
		if !ok {
			t.unsupported("gob %s into %s", st, dt)
		}
		any := false
		for i := 0; i < ss.NumFields(); i++ {
			f := ss.Field(i)
			if !f.Exported() {
				continue
			}
			if _, isF := f.Type().Underlying().(*types.Signature); isF {
				continue
			}
			if _, isC := f.Type().Underlying().(*types.Chan); isC {
				continue
			}
			any = true
			if t.isZeroGob(x.f[i], f.Type()) {
				continue
			}
			for j := 0; j < ds.NumFields(); j++ {
				if ds.Field(j).Name() == f.Name() {
					t.gobInto(x.f[i], f.Type(), c.kids[j])
				}
			}
		}
		if !any && ss.NumFields() > 0 {
			panic(targetPanic{IfaceV{t: w.ex.runtimeErr, v: "gob: type " + st.String() + " has no exported fields"}})
		}
	case SliceV:
		d, ok := dt.Underlying().(*types.Slice)
		if !ok {
			t.unsupported("gob %s into %s", st, dt)
		}
		et := st.Underlying().(*types.Slice).Elem()
		cur := w.loadRaw(c).(SliceV)
		if cur.cap < x.len {
			cur = SliceV{arr: &Arr{et: d.Elem(), cells: make([]*Cell, x.len)}, cap: x.len}
		}
		if cur.arr != nil {
			cur.len = x.len
		}
		for i := 0; i < x.len; i++ {
			t.gobInto(t.load(x.at(i)), et, cur.at(i))
		}
		t.store(c, cur)
	case *MapV:
		d := dt.Underlying().(*types.Map)
		cur, _ := w.loadRaw(c).(*MapV)
		if cur == nil {
			cur = &MapV{kt: d.Key(), et: d.Elem(), index: map[string]*mapEntry{}}
			t.store(c, cur)
		}
		if x != nil {
			t.raceRead(&x.sh, "map")
			for _, e := range x.entries {
				kc, vc := newCell(d.Key()), newCell(d.Elem())
				t.gobInto(e.k, x.kt, kc)
				t.gobInto(e.v, x.et, vc)
				t.mapSet(cur, w.loadRaw(kc), w.loadRaw(vc))
			}
		}
	case *Term:
		t.store(c, x)
	case string:
		t.store(c, x)
	case *ArrayV:
		t.store(c, x)
	default:
		t.unsupported("gob of %T", v)
	}
}

// ---- JSON ----
//
// Documents are opaque: marshalling snapshots the value and returns bytes naming the snapshot;
// unmarshalling maps the snapshot into the target by JSON field names.

func (t *Thread) newDoc(v IfaceV) Value {
	p := t.p
	p.docs = append(p.docs, docRec{t.snapshot(v)})
	return t.bytesOf([]byte(fmt.Sprintf(`{"$doc":%d}`, len(p.docs)-1)))
}

func (t *Thread) snapshot(v IfaceV) IfaceV {
	if v.t == nil {
		return v
	}
	return IfaceV{t: v.t, v: t.deepCopy(v.v, v.t)}
}

func (t *Thread) deepCopy(v Value, typ types.Type) Value {
	switch x := v.(type) {
	case SliceV:
		if x.arr == nil {
			return x
		}
		r := SliceV{arr: &Arr{et: x.arr.et, cells: make([]*Cell, x.len)}, len: x.len, cap: x.len}
		for i := 0; i < x.len; i++ {
			t.p.w.storeRaw(r.at(i), t.deepCopy(t.load(x.at(i)), x.arr.et))
		}
		return r
	case *StructV:
		if isTimeType(typ) {
			return x
		}
		r := &StructV{}
		st := typ.Underlying().(*types.Struct)
		for i, f := range x.f {
			r.f = append(r.f, t.deepCopy(f, st.Field(i).Type()))
		}
		return r
	case *Cell:
		if x == nil {
			return x
		}
		c := newCell(x.t)
		t.p.w.storeRaw(c, t.deepCopy(t.load(x), x.t))
		return c
	case IfaceV:
		return t.snapshot(x)
	}
	return v
}

// Decoders and encoders remember the reader or writer they were made with.

func jsonNewCoder(t *Thread, fn *ssa.Function, a []Value) Value {
	c := newCell(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
	if t.p.coders == nil {
		t.p.coders = map[*Cell]IfaceV{}
	}
	t.p.coders[c] = a[0].(IfaceV)
	return c
}

func jsonDecode(t *Thread, fn *ssa.Function, a []Value) Value {
	r := t.p.coders[a[0].(*Cell)]
	pkg := fn.Prog.ImportedPackage("io")
	if r.t == nil || pkg == nil {
		t.unsupported("JSON decoder")
	}
	res := t.call(pkg.Func("ReadAll"), []Value{r}, nil).(TupleV)
	if e := res[1].(IfaceV); e.t != nil {
		return e
	}
	// What follows the document is left for further calls.
	b := res[0].(SliceV)
	text := t.constBytes(b)
	if i := strings.IndexByte(text, '}'); i >= 0 && strings.HasPrefix(text, "{\"$doc\":") {
		b.len = i + 1
	}
	return t.jsonUnmarshal(b, a[1].(IfaceV))
}

func jsonEncode(t *Thread, fn *ssa.Function, a []Value) Value {
	w := t.p.coders[a[0].(*Cell)]
	if w.t == nil {
		t.unsupported("JSON encoder")
	}
	doc := t.constBytes(t.newDoc(a[1].(IfaceV)).(SliceV))
	m := fn.Prog.LookupMethod(w.t, nil, "Write")
	res := t.call(m, []Value{w.v, t.bytesOf([]byte(doc + "\n"))}, nil).(TupleV)
	return res[1]
}

func (t *Thread) constBytes(s SliceV) string {
	b := make([]byte, s.len)
	for i := range b {
		x := t.load(s.at(i)).(*Term)
		if x.op != OConst {
			t.unsupported("JSON text with symbolic bytes")
		}
		b[i] = byte(x.u)
	}
	return string(b)
}

func (t *Thread) jsonUnmarshal(body Value, target IfaceV) Value {
	b := strings.TrimSpace(t.constBytes(body.(SliceV)))
	tc, _ := target.v.(*Cell)
	if target.t == nil || tc == nil {
		return newError("json: Unmarshal(nil)")
	}
	var id int
	if n, err := fmt.Sscanf(b, `{"$doc":%d}`, &id); err != nil || n != 1 || id >= len(t.p.docs) || b != fmt.Sprintf(`{"$doc":%d}`, id) {
		return newError("invalid character in JSON input")
	}
	d := t.p.docs[id].v
	if d.t == nil {
		return IfaceV{}
	}
	return t.jsonInto(d.v, d.t, tc)
}

func jsonName(st *types.Struct, i int) (string, bool) {
	f := st.Field(i)
	if !f.Exported() {
		return "", false
	}
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	n := strings.Split(tag, ",")[0]
	if n == "-" {
		return "", false
	}
	if n == "" {
		n = f.Name()
	}
	return n, true
}

func (t *Thread) jsonInto(v Value, st types.Type, c *Cell) Value {
	w := t.p.w
	dt := c.t
	if iv, ok := v.(IfaceV); ok {
		if iv.t == nil {
			return IfaceV{}
		}
		return t.jsonInto(iv.v, iv.t, c)
	}
	if pc, ok := v.(*Cell); ok {
		if pc == nil {
			return IfaceV{}
		}
		return t.jsonInto(t.load(pc), pc.t, c)
	}
	if p, ok := dt.Underlying().(*types.Pointer); ok {
		cur, _ := w.loadRaw(c).(*Cell)
		if cur == nil {
			cur = newCell(p.Elem())
			t.store(c, cur)
		}
		return t.jsonInto(v, st, cur)
	}
	if isTimeType(st) && isTimeType(dt) {
		t.store(c, v)
		return IfaceV{}
	}
	mismatch := func() Value {
		return newError(fmt.Sprintf("json: cannot unmarshal %s into Go value of type %s", st, dt))
	}
	switch x := v.(type) {
	case *StructV:
		ss := st.Underlying().(*types.Struct)
		ds, ok := dt.Underlying().(*types.Struct)
		if !ok || isTimeType(st) || isTimeType(dt) {
			return mismatch()
		}
		var ferr Value = IfaceV{}
		for i := 0; i < ss.NumFields(); i++ {
			n, ok := jsonName(ss, i)
			if !ok {
				continue
			}
			if strings.Contains(reflect.StructTag(ss.Tag(i)).Get("json"), "omitempty") {
				if sv, isS := x.f[i].(SliceV); isS && sv.len == 0 {
					continue
				}
			}
			best := -1
			for j := 0; j < ds.NumFields(); j++ {
				dn, ok := jsonName(ds, j)
				if !ok {
					continue
				}
				if dn == n {
					best = j
					break
				}
				if best < 0 && strings.EqualFold(dn, n) {
					best = j
				}
			}
			if best >= 0 {
				if e := t.jsonInto(x.f[i], ss.Field(i).Type(), c.kids[best]).(IfaceV); e.t != nil {
					ferr = e
				}
			}
		}
		return ferr
	case SliceV:
		ds, ok := dt.Underlying().(*types.Slice)
		if !ok {
			return mismatch()
		}
		if x.arr == nil {
			t.store(c, SliceV{})
			return IfaceV{}
		}
		r := SliceV{arr: &Arr{et: ds.Elem(), cells: make([]*Cell, x.len)}, len: x.len, cap: x.len}
		for i := 0; i < x.len; i++ {
			if e := t.jsonInto(t.load(x.at(i)), x.arr.et, r.at(i)).(IfaceV); e.t != nil {
				return e
			}
		}
		t.store(c, r)
		return IfaceV{}
	case *Term, string:
		bs, ok1 := st.Underlying().(*types.Basic)
		bd, ok2 := dt.Underlying().(*types.Basic)
		if !ok1 || !ok2 {
			return mismatch()
		}
		cls := func(b *types.Basic) int {
			switch {
			case b.Info()&types.IsString != 0:
				return 1
			case b.Info()&types.IsBoolean != 0:
				return 2
			case b.Info()&types.IsFloat != 0:
				return 3
			case b.Info()&types.IsInteger != 0:
				return 4
			}
			return 5
		}
		if cls(bs) == 4 && cls(bd) == 3 {
			t.store(c, t.intToFloat(x.(*Term), isSigned(bs), bd))
			return IfaceV{}
		}
		if cls(bs) != cls(bd) {
			return mismatch()
		}
		if tm, ok := x.(*Term); ok && cls(bs) == 4 {
			t.store(c, w.tb.ext(tm, sortOf(bd), isSigned(bs)))
			return IfaceV{}
		}
		t.store(c, v)
		return IfaceV{}
	}
	t.unsupported("JSON of %T", v)
	return nil
}
