package c_conv

import (
	"github.com/unsafe-risk/utilx/typex/convx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

// Types of the user: named types with the same underlying type, interface
// types (one implemented by the other), pointers, structs.
type (
	celsius int
	kelvin  int
	shape   struct{ a, b int }
	meter   interface{ Meter() int }
	any2    = interface{}
)

func (k kelvin) Meter() int { return int(k) }

type slot struct {
	reg    func(id int)
	unreg  func()
	exists func() bool
	into   func(id int)
	cur    int // registered converter, 0 = none
}

// calls made of registered converters: which one, how often
var called, calls int

func newSlot[T, R any](mk func(n int) T, num func(T) int, out func(id, n int) R, isOut func(R, int, int) bool, isZero func(R) bool, isOr func(R) bool, or R) *slot {
	s := &slot{}
	s.reg = func(id int) {
		convx.Register(func(v T) R {
			called = id
			calls++
			return out(id, num(v))
		})
		s.cur = id
	}
	s.unreg = func() {
		convx.Unregister[T, R]()
		s.cur = 0
	}
	s.exists = func() bool { return convx.Exists[T, R]() }
	s.into = func(n int) {
		called, calls = 0, 0
		v := mk(n)
		r, ok := convx.Into[T, R](v)
		sym.Observe("into", ok, called, calls)
		sym.Assert(ok == (s.cur != 0), "Into reports whether a converter is registered for exactly this pair")
		if s.cur != 0 {
			sym.Assert(calls == 1 && called == s.cur, "Into applies exactly the converter registered last, once")
			sym.Assert(isOut(r, s.cur, n), "Into returns what the converter returned for the given value")
			sym.Reach("applied")
		} else {
			sym.Assert(calls == 0, "no converter is called when none is registered for the pair")
			sym.Assert(isZero(r), "Into returns the zero value when it fails")
			sym.Reach("missing")
		}
		calls = 0
		r = convx.IntoOr[T, R](v, or)
		if s.cur != 0 {
			sym.Assert(calls == 1 && isOut(r, s.cur, n), "IntoOr returns the conversion when there is one")
		} else {
			sym.Assert(calls == 0 && isOr(r), "IntoOr returns the default exactly when there is none")
		}
	}
	return s
}

func idNum(id, n int) int { return n*8 + id }

func slots() []*slot {
	kel := func(id, n int) kelvin { return kelvin(idNum(id, n)) }
	isKel := func(r kelvin, id, n int) bool { return int(r) == idNum(id, n) }
	zKel := func(r kelvin) bool { return r == 0 }
	orKel := func(r kelvin) bool { return r == -5 }
	mkCel := func(n int) celsius { return celsius(n) }
	numCel := func(c celsius) int { return int(c) }
	mkMeter := func(n int) meter { return kelvin(n) }
	numMeter := func(m meter) int { return m.Meter() }
	isMeter := func(m meter, id, n int) bool { return m != nil && m.Meter() == idNum(id, n) }
	zMeter := func(m meter) bool { return m == nil }
	orMeter := func(m meter) bool { return m != nil && m.Meter() == -5 }
	shp := func(id, n int) shape { return shape{id, n} }
	isShp := func(r shape, id, n int) bool { return r.a == id && r.b == n }
	zShp := func(r shape) bool { return r == shape{} }
	orShp := func(r shape) bool { return r.a == -5 }
	return []*slot{
		newSlot[celsius, kelvin](mkCel, numCel, kel, isKel, zKel, orKel, -5),
		newSlot[kelvin, kelvin](func(n int) kelvin { return kelvin(n) }, func(k kelvin) int { return int(k) }, kel, isKel, zKel, orKel, -5),
		newSlot[meter, kelvin](mkMeter, numMeter, kel, isKel, zKel, orKel, -5),
		newSlot[any2, kelvin](func(n int) any2 { return kelvin(n) }, func(v any2) int { return int(v.(kelvin)) }, kel, isKel, zKel, orKel, -5),
		newSlot[celsius, meter](mkCel, numCel, func(id, n int) meter { return kel(id, n) }, isMeter, zMeter, orMeter, kelvin(-5)),
		newSlot[celsius, shape](mkCel, numCel, shp, isShp, zShp, orShp, shape{-5, 0}),
		newSlot[celsius, any2](mkCel, numCel, func(id, n int) any2 { return shp(id, n) }, func(v any2, id, n int) bool { return v == any2(shape{id, n}) }, func(v any2) bool { return v == nil }, func(v any2) bool { return v == any2(-5) }, any2(-5)),
		newSlot[int, celsius](func(n int) int { return n }, func(n int) int { return n }, func(id, n int) celsius { return celsius(idNum(id, n)) }, func(r celsius, id, n int) bool { return int(r) == idNum(id, n) }, func(r celsius) bool { return r == 0 }, func(r celsius) bool { return r == -5 }, -5),
	}
}

// C32_History runs any sequence of registrations and removals over pairs of
// related types (a named type and its underlying type, an interface and a
// type implementing it) and then looks every pair up.
//
//sym:opt shards=8 quick.param.N=3 thorough.param.N=4
func C32_History() {
	ss := slots()
	for _, s := range ss {
		s.unreg()
	}
	n := sym.Param("N", 3, 4)
	for i := 0; i < n; i++ {
		s := ss[sym.Choose("pair", len(ss))]
		if sym.Choose("op", 2) == 0 {
			s.reg(i + 1)
		} else {
			s.unreg()
		}
	}
	v := sym.Int("v")
	sym.Assume(v > -1000 && v < 1000)
	for _, s := range ss {
		sym.Assert(s.exists() == (s.cur != 0), "Exists agrees with the registrations made")
		s.into(v)
	}
	for _, s := range ss {
		s.unreg()
	}
}

// C32_Builtin replaces and removes a built-in converter; the others stay.
func C32_Builtin() {
	v := sym.Int16("v")
	convx.Register(func(i int16) int32 { return int32(i) + 1 })
	r, ok := convx.Into[int16, int32](v)
	sym.Assert(ok && r == int32(v)+1, "a registration replaces a built-in converter")
	u, ok := convx.Into[int16, int64](v)
	sym.Assert(ok && u == int64(v), "another pair with the same source is untouched")
	w, ok := convx.Into[uint16, int32](uint16(v))
	sym.Assert(ok && w == int32(uint16(v)), "another pair with the same target is untouched")
	convx.Unregister[int16, int32]()
	r, ok = convx.Into[int16, int32](v)
	sym.Assert(!ok && r == 0 && !convx.Exists[int16, int32](), "an unregistered built-in converter is gone")
	sym.Assert(convx.Exists[int16, int64](), "unregistering removes one pair only")
	convx.Register(func(i int16) int32 { return int32(i) })
	r, ok = convx.Into[int16, int32](v)
	sym.Assert(ok && r == int32(v), "it can be registered again")
	_, ok = convx.Into[struct{ x int }, shape](struct{ x int }{1})
	sym.Assert(!ok, "a pair never registered fails")
	convx.Unregister[struct{ y int }, shape]()
	convx.Register[int16, kelvin](nil)
	convx.Unregister[int16, kelvin]()
	sym.Reach("builtin")
}

// C32_Reentrant lets a converter use the registry it is called from.
func C32_Reentrant() {
	convx.Unregister[kelvin, celsius]()
	op := sym.Choose("op", 4)
	convx.Register(func(s shape) celsius {
		switch op {
		case 0:
			k, ok := convx.Into[int, kelvin2](s.a)
			sym.Assert(ok && int(k) == s.a+1, "a converter converts its parts through the registry")
		case 1:
			convx.Register(func(k kelvin) celsius { return celsius(k) })
		case 2:
			convx.Unregister[shape, celsius]()
		case 3:
			sym.Assert(convx.Exists[shape, celsius](), "a converter sees itself registered")
		}
		return celsius(s.b)
	})
	convx.Register(func(i int) kelvin2 { return kelvin2(i + 1) })
	b := sym.Int("b")
	r, ok := convx.Into[shape, celsius](shape{3, b})
	sym.Assert(ok && int(r) == b, "a converter that uses the registry still converts")
	sym.Assert(convx.Exists[kelvin, celsius]() == (op == 1), "its registrations count")
	sym.Assert(convx.Exists[shape, celsius]() == (op != 2), "its removals count")
	convx.Unregister[kelvin, celsius]()
	convx.Unregister[shape, celsius]()
	convx.Unregister[int, kelvin2]()
	sym.Reach("reentrant")
}

type kelvin2 int

// C32_Concurrent runs lookups against registrations and removals of the same
// pair and of a pair with the same source.
//
//sym:opt race=1 shards=4
func C32_Concurrent() {
	convx.Unregister[celsius, kelvin]()
	convx.Unregister[celsius, shape]()
	pre := sym.Choose("pre", 2)
	if pre == 1 {
		convx.Register(func(c celsius) kelvin { return kelvin(c) + 100 })
	}
	op1, op2 := sym.Choose("op1", 4), sym.Choose("op2", 5)
	do := func(op, id int) {
		switch op {
		case 0:
			convx.Register(func(c celsius) kelvin { return kelvin(c) + kelvin(100*id) })
		case 1:
			convx.Unregister[celsius, kelvin]()
		case 2:
			convx.Register(func(c celsius) shape { return shape{int(c), id} })
		case 3:
			r, ok := convx.Into[celsius, kelvin](7)
			sym.Assert(!ok && r == 0 || ok && (r == 107 || r == 207 || r == 307), "a lookup sees one complete registration or none")
			sym.Assert(!(op1 > 1 && op2 > 1 && pre == 1) || ok && r == 107, "registrations of other pairs do not disturb a lookup")
		case 4:
			ok := convx.Exists[celsius, kelvin]()
			sym.Assert(!(op1 > 1 && pre == 1) || ok, "a registered pair exists throughout")
		}
	}
	done := make(chan bool, 2)
	go func() { do(op1, 2); done <- true }()
	go func() { do(op2, 3); done <- true }()
	<-done
	<-done
	r, ok := convx.Into[celsius, kelvin](7)
	want := func(x kelvin) bool { return ok && r == x }
	switch {
	case op1 == 0 && op2 == 0:
		sym.Assert(want(207) || want(307), "the last of two registrations stays")
	case op1 == 0 && op2 == 1:
		sym.Assert(want(207) || !ok, "a registration and a removal take effect in some order")
	case op1 == 1 && op2 == 0:
		sym.Assert(want(307) || !ok, "a registration and a removal take effect in some order")
	case op1 == 0:
		sym.Assert(want(207), "a registration is not lost")
	case op2 == 0:
		sym.Assert(want(307), "a registration is not lost")
	case op1 == 1 || op2 == 1:
		sym.Assert(!ok, "a removal is not lost")
	default:
		sym.Assert(ok == (pre == 1), "nothing else changes the pair")
	}
	s, ok2 := convx.Into[celsius, shape](5)
	sym.Assert(ok2 == (op1 == 2 || op2 == 2) && (!ok2 || s.a == 5), "a registration of another pair is not lost")
	convx.Unregister[celsius, kelvin]()
	convx.Unregister[celsius, shape]()
	sym.Reach("concurrent")
}

// zero registers a converter whose result is r, the zero value of its type or
// not, and checks that the result is what counts and nothing is read into it.
func zero[R any](r, or R, same func(R, R) bool) {
	var none R
	convx.Unregister[shape, R]()
	x, ok := convx.Into[shape, R](shape{})
	sym.Assert(!ok && same(x, none), "Into returns the zero value and false when it fails")
	sym.Assert(same(convx.IntoOr[shape, R](shape{}, or), or), "IntoOr falls back to the default exactly when Into fails")
	for i := 0; i < 2; i++ {
		calls = 0
		convx.Register(func(shape) R { calls++; return r })
		x, ok = convx.Into[shape, R](shape{i, 0})
		sym.Assert(ok && calls == 1 && same(x, r), "Into returns what the converter returned, zero values included")
		x = convx.IntoOr[shape, R](shape{i, 0}, or)
		sym.Assert(calls == 2 && same(x, r), "IntoOr returns the conversion when there is one, zero values included")
		r = none
	}
	convx.Unregister[shape, R]()
	sym.Reach("zero")
}

func eq[R comparable](a, b R) bool { return a == b }

// C32_Zero: results that are zero values of their types.
func C32_Zero() {
	a, b := sym.Int("a"), sym.Int("b")
	p, q := &a, &b
	switch sym.Choose("type", 16) {
	case 0:
		zero(a, b, eq[int])
	case 1:
		zero("x", "or", eq[string])
	case 2:
		zero(true, false, eq[bool])
	case 3:
		zero(false, true, eq[bool])
	case 4:
		zero(1.5, 2.5, eq[float64])
	case 5:
		zero(shape{a, 0}, shape{b, 1}, eq[shape])
	case 6:
		zero([2]int{a, 0}, [2]int{0, b}, eq[[2]int])
	case 7:
		zero(p, q, eq[*int])
	case 8:
		zero[meter](kelvin(a), kelvin(b), func(a, b meter) bool { return a == b })
	case 9:
		zero[any](a, b, func(a, b any) bool { return a == b })
	case 10:
		zero[error](&convErr{1}, &convErr{2}, func(a, b error) bool { return a == b })
	case 11:
		zero([]int{1}, []int{1, 2}, func(a, b []int) bool { return len(a) == len(b) && (a == nil) == (b == nil) })
	case 12:
		zero(map[int]int{1: 1}, map[int]int{}, func(a, b map[int]int) bool { return len(a) == len(b) && (a == nil) == (b == nil) })
	case 13:
		zero(func() {}, nil, func(a, b func()) bool { return (a == nil) == (b == nil) })
	case 14:
		zero(make(chan int), make(chan int), eq[chan int])
	case 15:
		zero(struct{}{}, struct{}{}, eq[struct{}])
	}
}

type convErr struct{ n int }

func (*convErr) Error() string { return "e" }

// localA and localB are different types of the same name; so are the two pairs
// below made of them.
func localA() (*slot, *slot) {
	type local int
	return localSlot[local](func(n int) local { return local(n) }), backSlot[local](func(r local, n int) bool { return int(r) == n })
}

func localB() (*slot, *slot) {
	type local int
	return localSlot[local](func(n int) local { return local(n) }), backSlot[local](func(r local, n int) bool { return int(r) == n })
}

func localSlot[T ~int](mk func(int) T) *slot {
	return newSlot[T, shape](mk, func(v T) int { return int(v) },
		func(id, n int) shape { return shape{id, n} }, func(r shape, id, n int) bool { return r.a == id && r.b == n },
		func(r shape) bool { return r == shape{} }, func(r shape) bool { return r.a == -5 }, shape{-5, 0})
}

func backSlot[T ~int](is func(T, int) bool) *slot {
	return newSlot[shape, T](func(n int) shape { return shape{n, n} }, func(v shape) int { return v.b },
		func(id, n int) T { return T(idNum(id, n)) }, func(r T, id, n int) bool { return is(r, idNum(id, n)) },
		func(r T) bool { return is(r, 0) }, func(r T) bool { return is(r, -5) }, -5)
}

// C32_SameName: types are told apart by what they are, not by their name.
//
//sym:opt shards=4
func C32_SameName() {
	a, b := localA()
	c, d := localB()
	ss := []*slot{a, b, c, d}
	for _, s := range ss {
		s.unreg()
	}
	n := sym.Param("N", 3, 4)
	for i := 0; i < n; i++ {
		s := ss[sym.Choose("pair", len(ss))]
		if sym.Choose("op", 2) == 0 {
			s.reg(i + 1)
		} else {
			s.unreg()
		}
	}
	v := sym.Int("v")
	sym.Assume(v > -1000 && v < 1000)
	for _, s := range ss {
		sym.Assert(s.exists() == (s.cur != 0), "Exists agrees with the registrations made")
		s.into(v)
	}
	for _, s := range ss {
		s.unreg()
	}
	sym.Reach("same name")
}
