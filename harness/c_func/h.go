package c_func

import (
	"errors"

	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

type myErr struct{ n int }

func (e *myErr) Error() string { return "e" }

func anyErr() error {
	if sym.Choose("err", 2) == 0 {
		return nil
	}
	return &myErr{sym.Int("errno")}
}

func option[T any](v, r, zero T) {
	re := anyErr()
	someN, noneN := 0, 0
	var got T
	f := func(x T) (T, error) { someN++; got = x; return r, re }
	g := func() (T, error) { noneN++; return r, re }
	for i := 0; i < 2; i++ { // matching twice on one value behaves the same
		some := optionx.Some(v)
		x, err := some.Match(f, g)
		sym.Assert(someN == i+1 && noneN == 0, "Some calls the first callback exactly once and not the second")
		sym.Assert(any(got) == any(v), "the callback receives the stored value")
		sym.Assert(any(x) == any(r) && any(err) == any(re), "the callback's results are returned unchanged")
	}
	someN = 0
	for i := 0; i < 2; i++ {
		none := optionx.None[T]()
		x, err := none.Match(f, g)
		sym.Assert(someN == 0 && noneN == i+1, "None calls the second callback exactly once and not the first")
		sym.Assert(any(x) == any(r) && any(err) == any(re), "the callback's results are returned unchanged")
	}
}

func C19_OptionInt()  { option(sym.Int("v"), sym.Int("r"), 0) }
func C19_OptionByte() { option(sym.Byte("v"), sym.Byte("r"), 0) }
func C19_OptionBool() { option(sym.Bool("v"), sym.Bool("r"), false) }
func C19_OptionString() {
	option(sym.String("v", sym.Choose("n", 3)), sym.String("r", sym.Choose("m", 3)), "")
}
func C19_OptionPtr() {
	a, b := new(int), new(int)
	ps := []*int{nil, a, b}
	option(ps[sym.Choose("v", 3)], ps[sym.Choose("r", 3)], nil)
}
func C19_OptionError() {
	option(anyErr(), anyErr(), nil)
}

type wide struct {
	a, b int
	s    string
}

func C19_OptionStruct() {
	option(wide{sym.Int("v"), sym.Int("v"), "x"}, wide{sym.Int("r"), 0, ""}, wide{})
}

func result[T, E any](v, r T, e, re E) {
	okN, errN := 0, 0
	var got T
	var gotE E
	f := func(x T) (T, E) { okN++; got = x; return r, re }
	g := func(x E) (T, E) { errN++; gotE = x; return r, re }
	for i := 0; i < 2; i++ {
		ok := resultx.Ok[T, E](v)
		x, err := ok.Match(f, g)
		sym.Assert(okN == i+1 && errN == 0, "Ok calls the success callback exactly once and not the other")
		sym.Assert(any(got) == any(v), "the success callback receives the stored value")
		sym.Assert(any(x) == any(r) && any(err) == any(re), "the callback's results are returned unchanged")
	}
	okN = 0
	for i := 0; i < 2; i++ {
		bad := resultx.Err[T, E](e)
		x, err := bad.Match(f, g)
		sym.Assert(okN == 0 && errN == i+1, "Err calls the failure callback exactly once and not the other")
		sym.Assert(any(gotE) == any(e), "the failure callback receives the stored error")
		sym.Assert(any(x) == any(r) && any(err) == any(re), "the callback's results are returned unchanged")
	}
}

func C19_ResultIntErr() { result(sym.Int("v"), sym.Int("r"), anyErr(), anyErr()) }
func C19_ResultErrErr() { result(anyErr(), anyErr(), anyErr(), errors.New("x")) }
func C19_ResultIntInt() { result(sym.Int("v"), sym.Int("r"), sym.Int("e"), sym.Int("re")) }
func C19_ResultStr() {
	result(sym.String("v", sym.Choose("n", 3)), "r", sym.String("e", sym.Choose("m", 3)), "e")
}
func C19_ResultBool() { result(sym.Bool("v"), sym.Bool("r"), sym.Bool("e"), sym.Bool("re")) }
func C19_ResultStruct() {
	result(wide{sym.Int("v"), 0, ""}, wide{}, [2]int{sym.Int("e"), 0}, [2]int{1, sym.Int("re")})
}

// C19_Panic: a panicking callback is the only one called and its panic
// reaches the caller.
func C19_Panic() {
	calls := 0
	mode := sym.Choose("mode", 4)
	defer func() {
		x := recover()
		sym.Assert(x == "boom", "the callback's panic reaches the caller")
		sym.Assert(calls == 1, "exactly one callback is called exactly once")
	}()
	switch mode {
	case 0:
		optionx.Some(sym.Int("v")).Match(func(int) (int, error) { calls++; panic("boom") }, func() (int, error) { calls++; return 0, nil })
	case 1:
		optionx.None[int]().Match(func(int) (int, error) { calls++; return 0, nil }, func() (int, error) { calls++; panic("boom") })
	case 2:
		resultx.Ok[int, error](sym.Int("v")).Match(func(int) (int, error) { calls++; panic("boom") }, func(error) (int, error) { calls++; return 0, nil })
	case 3:
		resultx.Err[int, error](errors.New("e")).Match(func(int) (int, error) { calls++; return 0, nil }, func(error) (int, error) { calls++; panic("boom") })
	}
	sym.Assert(false, "the callback's panic reaches the caller")
}
