// Package atomic stands in for sync/atomic: every operation is a scheduling point followed by a plain access.
package atomic

import "trypo/zzverif/sym"

func LoadInt32(p *int32) int32          { sym.AtomicPoint(p); return *p }
func StoreInt32(p *int32, v int32)      { sym.AtomicPoint(p); *p = v }
func AddInt32(p *int32, d int32) int32  { sym.AtomicPoint(p); *p += d; return *p }
func SwapInt32(p *int32, v int32) int32 { sym.AtomicPoint(p); o := *p; *p = v; return o }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	sym.AtomicPoint(p)
	if *p == o {
		*p = v
		return true
	}
	return false
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { return CompareAndSwapInt32(&x.v, o, v) }

func LoadInt64(p *int64) int64          { sym.AtomicPoint(p); return *p }
func StoreInt64(p *int64, v int64)      { sym.AtomicPoint(p); *p = v }
func AddInt64(p *int64, d int64) int64  { sym.AtomicPoint(p); *p += d; return *p }
func SwapInt64(p *int64, v int64) int64 { sym.AtomicPoint(p); o := *p; *p = v; return o }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	sym.AtomicPoint(p)
	if *p == o {
		*p = v
		return true
	}
	return false
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { return CompareAndSwapInt64(&x.v, o, v) }

func LoadUint32(p *uint32) uint32           { sym.AtomicPoint(p); return *p }
func StoreUint32(p *uint32, v uint32)       { sym.AtomicPoint(p); *p = v }
func AddUint32(p *uint32, d uint32) uint32  { sym.AtomicPoint(p); *p += d; return *p }
func SwapUint32(p *uint32, v uint32) uint32 { sym.AtomicPoint(p); o := *p; *p = v; return o }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	sym.AtomicPoint(p)
	if *p == o {
		*p = v
		return true
	}
	return false
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { return CompareAndSwapUint32(&x.v, o, v) }

func LoadUint64(p *uint64) uint64           { sym.AtomicPoint(p); return *p }
func StoreUint64(p *uint64, v uint64)       { sym.AtomicPoint(p); *p = v }
func AddUint64(p *uint64, d uint64) uint64  { sym.AtomicPoint(p); *p += d; return *p }
func SwapUint64(p *uint64, v uint64) uint64 { sym.AtomicPoint(p); o := *p; *p = v; return o }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	sym.AtomicPoint(p)
	if *p == o {
		*p = v
		return true
	}
	return false
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { return CompareAndSwapUint64(&x.v, o, v) }

type Bool struct{ v bool }

func (x *Bool) Load() bool       { sym.AtomicPoint(&x.v); return x.v }
func (x *Bool) Store(v bool)     { sym.AtomicPoint(&x.v); x.v = v }
func (x *Bool) Swap(v bool) bool { sym.AtomicPoint(&x.v); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, v bool) bool {
	sym.AtomicPoint(&x.v)
	if x.v == o {
		x.v = v
		return true
	}
	return false
}

type Value struct{ v interface{} }

func (x *Value) Load() interface{}   { sym.AtomicPoint(&x.v); return x.v }
func (x *Value) Store(v interface{}) { sym.AtomicPoint(&x.v); x.v = v }
