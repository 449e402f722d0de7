//go:build go1.18

// Package sym is what harnesses use to name arbitrary inputs, assumptions and assertions. The engine
// interprets these functions symbolically; compiled natively they read the values of a counterexample.
package sym

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"sync"
)

type val struct {
	N string `json:"n"`
	K string `json:"k"`
	U uint64 `json:"u"`
}

var cfg struct {
	Harness  string `json:"harness"`
	Thorough bool   `json:"thorough"`
	Fp       bool   `json:"fp"`
	Vals     []val  `json:"vals"`
	Sched    []int  `json:"sched"`
	Kind     string `json:"kind"`
}

var (
	controlled bool
	inMu       sync.Mutex
	pos        int
	spos       int
)

func exit(code int, msg string) {
	fmt.Println(msg)
	os.Exit(code)
}

// Main runs one harness on the values stored in the file named by the first argument.
func Main(hs map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &cfg)
	}
	if err != nil {
		exit(9, "SYM-HARNESS "+err.Error())
	}
	h := hs[cfg.Harness]
	if h == nil {
		exit(9, "SYM-HARNESS unknown harness "+cfg.Harness)
	}
	controlled = cfg.Kind != "race" || os.Getenv("SYMCTL") != ""
	if !controlled {
		runtime.GOMAXPROCS(4)
	}
	start()
	h()
	os.Exit(0)
}

func next(name string) uint64 {
	if !controlled {
		inMu.Lock()
		defer inMu.Unlock()
		for i := range cfg.Vals {
			if cfg.Vals[i].N == name {
				u := cfg.Vals[i].U
				cfg.Vals = append(cfg.Vals[:i:i], cfg.Vals[i+1:]...)
				return u
			}
		}
		return 0
	}
	if pos >= len(cfg.Vals) {
		exit(6, "SYM-DIVERGED no value left for "+name)
	}
	v := cfg.Vals[pos]
	pos++
	if v.N != name {
		exit(6, "SYM-DIVERGED next value is "+v.N+", asked for "+name)
	}
	return v.U
}

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int {
	v := int(int64(next(name)))
	if v < lo {
		v = lo
	}
	if v > hi {
		v = hi
	}
	return v
}

// Pick is an arbitrary integer in [lo, hi], concrete on every path.
func Pick(name string, lo, hi int) int { return Int(name, lo, hi) }

func Bool(name string) bool { return next(name)&1 == 1 }
func Byte(name string) byte { return byte(next(name)) }

// Float is an arbitrary number in [lo, hi].
func Float(name string, lo, hi float64) float64 { return math.Float64frombits(next(name)) }

// AnyFloat is an arbitrary float64, including infinities and not-a-number (fp mode only).
func AnyFloat(name string) float64 { return math.Float64frombits(next(name)) }

func Assume(c bool) {
	if !c {
		exit(4, "SYM-ASSUME")
	}
}

func Assert(c bool, id string) {
	if !c {
		fmt.Printf("SYM-VIOLATION %s\n", id)
		os.Exit(3)
	}
}

func Reach(id string) {}

// Observe records an output, compared between the engine and the compiled code.
func Observe(name string, v interface{}) {
	switch x := v.(type) {
	case float64:
		fmt.Printf("OBS %s %g\n", name, x)
	default:
		fmt.Printf("OBS %s %v\n", name, x)
	}
}

// Connectives that do not fork.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Near is equality up to rounding (IEEE equality in fp mode).
func Near(a, b float64) bool {
	if a == b {
		return true
	}
	if cfg.Fp {
		return false
	}
	return math.Abs(a-b) <= 1e-6*(1+math.Abs(b))
}

func IsFinite(a float64) bool { return !math.IsNaN(a) && !math.IsInf(a, 0) }
func FpMode() bool            { return cfg.Fp }
func Thorough() bool          { return cfg.Thorough }
func Symbolic() bool          { return false }

// ---- remote calls and serialisation ----

func gobCopy(src interface{}, dst reflect.Value) error {
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(src); err != nil {
		return err
	}
	return gob.NewDecoder(&buf).DecodeValue(dst)
}

// GobCopy stores src into *dst through encoding/gob.
func GobCopy(src, dst interface{}) error { return gobCopy(src, reflect.ValueOf(dst)) }

// Invoke calls method on rcvr the way a net/rpc server does.
func Invoke(rcvr interface{}, method string, args, reply interface{}) error {
	m, ok := reflect.TypeOf(rcvr).MethodByName(method)
	if !ok || m.Type.NumIn() != 3 || m.Type.NumOut() != 1 || m.Type.In(2).Kind() != reflect.Ptr {
		return errors.New("rpc: can't find method " + method)
	}
	at, rt := m.Type.In(1), m.Type.In(2)
	var av reflect.Value
	if at.Kind() == reflect.Ptr {
		av = reflect.New(at.Elem())
	} else {
		av = reflect.New(at)
	}
	if err := gobCopy(args, av); err != nil {
		return err
	}
	if at.Kind() != reflect.Ptr {
		av = av.Elem()
	}
	rv := reflect.New(rt.Elem())
	switch rt.Elem().Kind() {
	case reflect.Map:
		rv.Elem().Set(reflect.MakeMap(rt.Elem()))
	case reflect.Slice:
		rv.Elem().Set(reflect.MakeSlice(rt.Elem(), 0, 0))
	}
	out := m.Func.Call([]reflect.Value{reflect.ValueOf(rcvr), av, rv})
	if e := out[0].Interface(); e != nil {
		return e.(error)
	}
	if multi {
		Yield()
	}
	if reply == nil {
		var buf bytes.Buffer
		return gob.NewEncoder(&buf).EncodeValue(rv)
	}
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).EncodeValue(rv); err != nil {
		return err
	}
	return gob.NewDecoder(&buf).Decode(reply)
}

// JSON encodes v as a JSON document.
func JSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		exit(9, "SYM-HARNESS "+err.Error())
	}
	return b
}

// UnJSON decodes a JSON document.
func UnJSON(b []byte, target interface{}) error { return json.Unmarshal(b, target) }

// Try is the number of this attempt at reproducing a violation.
func Try() int {
	n, _ := strconv.Atoi(os.Getenv("SYMTRY"))
	return n
}
