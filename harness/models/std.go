package models

import (
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"sync"
	"unsafe"

	"github.com/unsafe-risk/utilx/zzverif/sym"
)

// ---- sort.Slice and friends: sort.Sort over the same length, comparison and
// swap (the same algorithm, without reflection)

type bySwap struct {
	n    int
	less func(i, j int) bool
	swap func(i, j int)
}

func (b bySwap) Len() int           { return b.n }
func (b bySwap) Less(i, j int) bool { return b.less(i, j) }
func (b bySwap) Swap(i, j int)      { b.swap(i, j) }

//sym:model sort.Slice
func sortSlice(x any, less func(i, j int) bool) {
	sort.Sort(bySwap{sym.SliceLen(x), less, sym.Swapper(x)})
}

//sym:model sort.SliceStable
func sortSliceStable(x any, less func(i, j int) bool) {
	sort.Stable(bySwap{sym.SliceLen(x), less, sym.Swapper(x)})
}

//sym:model sort.SliceIsSorted
func sortSliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := sym.SliceLen(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

// ---- fmt: errors and Stringers by their method, integers by strconv

func texts(a []any) (t []string, has []bool) {
	for i, x := range a {
		s, ok := text(x)
		if !ok {
			continue
		}
		if has == nil {
			t, has = make([]string, len(a)), make([]bool, len(a))
		}
		t[i], has[i] = s, true
	}
	return
}

func text(x any) (s string, ok bool) {
	switch v := x.(type) {
	case error:
		defer func() {
			if recover() != nil {
				s, ok = "<nil>", true
			}
		}()
		return v.Error(), true
	case fmt.Stringer:
		defer func() {
			if recover() != nil {
				s, ok = "<nil>", true
			}
		}()
		return v.String(), true
	}
	if sym.IsConst(x) {
		return "", false
	}
	switch v := x.(type) {
	case int:
		return strconv.FormatInt(int64(v), 10), true
	case int8:
		return strconv.FormatInt(int64(v), 10), true
	case int16:
		return strconv.FormatInt(int64(v), 10), true
	case int32:
		return strconv.FormatInt(int64(v), 10), true
	case int64:
		return strconv.FormatInt(v, 10), true
	case uint:
		return strconv.FormatUint(uint64(v), 10), true
	case uint8:
		return strconv.FormatUint(uint64(v), 10), true
	case uint16:
		return strconv.FormatUint(uint64(v), 10), true
	case uint32:
		return strconv.FormatUint(uint64(v), 10), true
	case uint64:
		return strconv.FormatUint(v, 10), true
	case bool:
		return strconv.FormatBool(v), true
	}
	return "", false
}

//sym:model fmt.Sprintf
func fmtSprintf(f string, a ...any) string {
	t, has := texts(a)
	return sym.Sprintf(f, t, has, a)
}

//sym:model fmt.Sprint
func fmtSprint(a ...any) string {
	t, has := texts(a)
	return sym.Sprint(false, t, has, a)
}

//sym:model fmt.Sprintln
func fmtSprintln(a ...any) string {
	t, has := texts(a)
	return sym.Sprint(true, t, has, a)
}

//sym:model fmt.Append
func fmtAppend(b []byte, a ...any) []byte { return append(b, fmt.Sprint(a...)...) }

//sym:model fmt.Appendln
func fmtAppendln(b []byte, a ...any) []byte { return append(b, fmt.Sprintln(a...)...) }

//sym:model fmt.Appendf
func fmtAppendf(b []byte, f string, a ...any) []byte { return append(b, fmt.Sprintf(f, a...)...) }

// ---- fmt.Fprint: format, then one Write

func fprint(w io.Writer, s string) (int, error) {
	if _, ok := w.(*os.File); ok {
		return len(s), nil
	}
	return w.Write([]byte(s))
}

//sym:model fmt.Fprint
func fmtFprint(w io.Writer, a ...any) (int, error) { return fprint(w, fmt.Sprint(a...)) }

//sym:model fmt.Fprintln
func fmtFprintln(w io.Writer, a ...any) (int, error) { return fprint(w, fmt.Sprintln(a...)) }

//sym:model fmt.Fprintf
func fmtFprintf(w io.Writer, format string, a ...any) (int, error) {
	return fprint(w, fmt.Sprintf(format, a...))
}

// ---- sync.Map: every operation is one atomic step on an ordinary map; Range
// visits the keys present at its start that are still there.

type syncMapHdr struct {
	inited uint32
	state  int32
	sema   uint32
	root   unsafe.Pointer
}

type syncMapState struct{ m map[any]any }

func smap(p *sync.Map) map[any]any {
	h := (*syncMapHdr)(unsafe.Pointer(p))
	s := (*syncMapState)(h.root)
	if s == nil {
		s = &syncMapState{map[any]any{}}
		h.root = unsafe.Pointer(s)
	}
	return s.m
}

//sym:model (*sync.Map).Load
func smLoad(p *sync.Map, k any) (any, bool) {
	sym.Step()
	v, ok := smap(p)[k]
	return v, ok
}

//sym:model (*sync.Map).Store
func smStore(p *sync.Map, k, v any) {
	sym.Step()
	smap(p)[k] = v
}

//sym:model (*sync.Map).Clear
func smClear(p *sync.Map) {
	sym.Step()
	h := (*syncMapHdr)(unsafe.Pointer(p))
	h.root = nil
}

//sym:model (*sync.Map).LoadOrStore
func smLoadOrStore(p *sync.Map, k, v any) (any, bool) {
	sym.Step()
	m := smap(p)
	if o, ok := m[k]; ok {
		return o, true
	}
	m[k] = v
	return v, false
}

//sym:model (*sync.Map).LoadAndDelete
func smLoadAndDelete(p *sync.Map, k any) (any, bool) {
	sym.Step()
	m := smap(p)
	v, ok := m[k]
	delete(m, k)
	return v, ok
}

//sym:model (*sync.Map).Delete
func smDelete(p *sync.Map, k any) {
	sym.Step()
	delete(smap(p), k)
}

//sym:model (*sync.Map).Swap
func smSwap(p *sync.Map, k, v any) (any, bool) {
	sym.Step()
	m := smap(p)
	o, ok := m[k]
	m[k] = v
	return o, ok
}

//sym:model (*sync.Map).CompareAndSwap
func smCAS(p *sync.Map, k, o, n any) bool {
	sym.Step()
	m := smap(p)
	v, ok := m[k]
	if !ok || v != o {
		return false
	}
	m[k] = n
	return true
}

//sym:model (*sync.Map).CompareAndDelete
func smCAD(p *sync.Map, k, o any) bool {
	sym.Step()
	m := smap(p)
	v, ok := m[k]
	if !ok || v != o {
		return false
	}
	delete(m, k)
	return true
}

//sym:model (*sync.Map).Range
func smRange(p *sync.Map, f func(k, v any) bool) {
	sym.Step()
	var ks []any
	for k := range smap(p) {
		ks = append(ks, k)
	}
	for _, k := range ks {
		sym.Step()
		if v, ok := smap(p)[k]; ok && !f(k, v) {
			return
		}
	}
}

// ---- math/rand: the global source, and generators over modelled sources

//sym:model math/rand.Int
func randInt() int { return int(uint(sym.Uint64("rand")) >> 1) }

//sym:model math/rand.Int63
func randInt63() int64 { return int64(sym.Uint64("rand") >> 1) }

//sym:model math/rand.Int31
func randInt31() int32 { return int32(sym.Uint32("rand") >> 1) }

//sym:model math/rand.Uint32
func randUint32() uint32 { return sym.Uint32("rand") }

//sym:model math/rand.Uint64
func randUint64() uint64 { return sym.Uint64("rand") }

//sym:model math/rand.Float64
func randFloat64() float64 { return float64(sym.Uint32("rand")>>8) / (1 << 24) }

//sym:model math/rand.Seed
func randSeed(int64) {}

//sym:model math/rand/v2.Uint64
func rand2Uint64() uint64 { return sym.Uint64("rand") }

//sym:model math/rand/v2.Uint32
func rand2Uint32() uint32 { return sym.Uint32("rand") }

//sym:model math/rand/v2.Int
func rand2Int() int { return randInt() }

//sym:model math/rand/v2.Int64
func rand2Int64() int64 { return randInt63() }

//sym:model math/rand/v2.Float64
func rand2Float64() float64 { return randFloat64() }

//sym:model math/rand/v2.UintN
func rand2UintN(n uint) uint { return uint(randIntn(int(n))) }

//sym:model math/rand/v2.Int64N
func rand2Int64N(n int64) int64 { return int64(randIntn(int(n))) }

//sym:model (*math/rand.Rand).Shuffle
func rndShuffle(r *rand.Rand, n int, swap func(i, j int)) { randShuffle(n, swap) }

//sym:model (*math/rand.Rand).Intn
func rndIntn(r *rand.Rand, n int) int { return randIntn(n) }

//sym:model (*math/rand.Rand).Perm
func rndPerm(r *rand.Rand, n int) []int { return randPerm(n) }

// ---- math.Max and Min (assembly on amd64)

//sym:model math.Max
func mathMax(x, y float64) float64 {
	switch {
	case math.IsInf(x, 1) || math.IsInf(y, 1):
		return math.Inf(1)
	case x != x || y != y:
		return math.NaN()
	case x == 0 && x == y:
		if math.Signbit(x) {
			return y
		}
		return x
	}
	if x > y {
		return x
	}
	return y
}

//sym:model math.Min
func mathMin(x, y float64) float64 {
	switch {
	case math.IsInf(x, -1) || math.IsInf(y, -1):
		return math.Inf(-1)
	case x != x || y != y:
		return math.NaN()
	case x == 0 && x == y:
		if math.Signbit(x) {
			return x
		}
		return y
	}
	if x < y {
		return x
	}
	return y
}
