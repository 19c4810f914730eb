// Package sym is the harness interface. In the symbolic engine every function
// below is an intrinsic; this native implementation reads the input values
// from a replay case, so that a counterexample or a sampled path runs against
// the real compiled code.
package sym

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Case is one native execution.
type Case struct {
	Vals   map[string]uint64
	Params map[string]int
	Tier   string
	names  map[string]int
	Obs    []string
	Reachd map[string]bool
	Fails  []string
	mu     sync.Mutex
	base   int
	Rand   *rand.Rand
	Start  time.Time
}

type AssumeFailed struct{}

var cur *Case

// Begin installs the case used by the following harness call.
func Begin(c *Case) {
	c.names = map[string]int{}
	c.Reachd = map[string]bool{}
	c.base = runtime.NumGoroutine()
	c.Start = time.Now()
	cur = c
}

func get(name string, w uint) uint64 {
	c := cur
	c.mu.Lock()
	defer c.mu.Unlock()
	k := fmt.Sprintf("%s#%d", name, c.names[name])
	c.names[name]++
	v := c.Vals[k]
	if w < 64 {
		v &= 1<<w - 1
	}
	return v
}

func Bool(name string) bool       { return get(name, 1) != 0 }
func Int(name string) int         { return int(get(name, 64)) }
func Int64(name string) int64     { return int64(get(name, 64)) }
func Uint64(name string) uint64   { return get(name, 64) }
func Uint(name string) uint       { return uint(get(name, 64)) }
func Int32(name string) int32     { return int32(get(name, 32)) }
func Uint32(name string) uint32   { return uint32(get(name, 32)) }
func Int16(name string) int16     { return int16(get(name, 16)) }
func Uint16(name string) uint16   { return uint16(get(name, 16)) }
func Int8(name string) int8       { return int8(get(name, 8)) }
func Uint8(name string) uint8     { return uint8(get(name, 8)) }
func Byte(name string) byte       { return byte(get(name, 8)) }
func Float64(name string) float64 { return math.Float64frombits(get(name, 64)) }
func Float32(name string) float32 { return math.Float32frombits(uint32(get(name, 32))) }

// Range is an arbitrary int in [lo, hi].
func Range(name string, lo, hi int) int {
	v := int(get(name, 64))
	Assume(lo <= v && v <= hi)
	return v
}

// Choose is an arbitrary int in [0, n), split into separate paths.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := int(get(name, 64))
	Assume(0 <= v && v < n)
	return v
}

func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return b
}

func String(name string, n int) string { return string(Bytes(name, n)) }

// Concrete splits the path on the value of x.
func Concrete(x int) int { return x }

func Assume(ok bool) {
	if !ok {
		panic(AssumeFailed{})
	}
}

func Assert(ok bool, msg string) {
	if !ok {
		cur.mu.Lock()
		cur.Fails = append(cur.Fails, msg)
		cur.mu.Unlock()
	}
}

func Reach(label string) {
	cur.mu.Lock()
	cur.Reachd[label] = true
	cur.mu.Unlock()
}

// Merge is a point where equal-shaped states are joined.
func Merge() {}

func Observe(label string, vals ...any) {
	var p []string
	for _, v := range vals {
		p = append(p, show(reflect.ValueOf(v)))
	}
	cur.mu.Lock()
	cur.Obs = append(cur.Obs, label+"="+strings.Join(p, ","))
	cur.mu.Unlock()
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.Float64:
		return fmt.Sprintf("f%x", math.Float64bits(v.Float()))
	case reflect.Float32:
		return fmt.Sprintf("f%x", math.Float32bits(float32(v.Float())))
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Slice:
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, show(v.Index(i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Interface:
		return show(v.Elem())
	}
	return "?"
}

// Symbolic reports whether the symbolic engine is running the harness.
func Symbolic() bool { return false }

// Param is a bound that depends on the tier.
func Param(name string, quick, thorough int) int {
	if v, ok := cur.Params[name]; ok {
		return v
	}
	if cur.Tier == "thorough" {
		return thorough
	}
	return quick
}

func Yield() {
	if cur.Rand != nil {
		cur.mu.Lock()
		k := cur.Rand.Intn(4)
		cur.mu.Unlock()
		if k == 0 {
			time.Sleep(time.Duration(k*20) * time.Microsecond)
		}
	}
	runtime.Gosched()
}

func Step() {}

// Quiesce waits until every other goroutine has finished or is blocked for
// good and returns how many are left.
func Quiesce() int {
	last, same := -1, 0
	for i := 0; i < 200; i++ {
		n := runtime.NumGoroutine() - cur.base
		if n == last {
			same++
			if n == 0 && same > 2 || same > 15 {
				break
			}
		} else {
			last, same = n, 0
		}
		time.Sleep(time.Millisecond)
	}
	if last < 0 {
		last = 0
	}
	return last
}

// Settle is Quiesce without letting time pass for sleepers.
func Settle() int { return Quiesce() }

// Clock is the current time in nanoseconds.
func Clock() int64 { return time.Now().UnixNano() }

var atomicMu sync.Mutex

// AtomicBegin and AtomicEnd bracket harness bookkeeping.
func AtomicBegin() { atomicMu.Lock() }
func AtomicEnd()   { atomicMu.Unlock() }

// The following are only called by models, which never run natively.
// AsTarget stores err in *target if it is assignable to it.
func AsTarget(err error, target any) bool { return false }

// Comparable reports whether the dynamic type of x can be compared.
func Comparable(x any) bool { return true }

// Acquire and Release (models only) order what came before a release of the
// cell before what comes after an acquisition of it.
func Acquire(p *int32)     {}
func Release(p *int32)     {}
func WaitZero(p *int32)    {}
func WaitNonZero(p *int32) {}
func SleepUntil(ns int64)  {}

// SliceLen and Swapper (models only): the length of a slice in an interface
// and a function swapping two of its elements.
func SliceLen(x any) int           { return 0 }
func Swapper(x any) func(i, j int) { return nil }

// Sprintf and Sprint (models only) format operands; texts[i] is used for those
// with has[i].
func Sprintf(f string, texts []string, has []bool, a []any) string { return "" }
func Sprint(ln bool, texts []string, has []bool, a []any) string   { return "" }

// IsConst (models only): x is not a symbolic scalar.
func IsConst(x any) bool { return true }

func GID() int                                               { return 0 }
func Daemon()                                                {}
func Share(p any)                                            {}
func UF(name string, n int, mode int, args ...[]byte) []byte { return make([]byte, n) }
