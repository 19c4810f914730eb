package c_config

import (
	"github.com/unsafe-risk/utilx/configx/optionalx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

type param struct {
	a int
	b string
}

type object struct{ p *param }

// C42_Fold gives Parameter any options: each may return nil, its argument, a
// copy of it or something of its own.
//
//sym:opt shards=4 depth=3
func C42_Fold() {
	n := sym.Choose("n", sym.Param("options", 5, 6)+1)
	calls := 0
	var prev *param
	fs := make([]func(*param) *param, n)
	for i := range fs {
		i, kind, v := i, sym.Choose("returns", 4), sym.Int("value")
		fs[i] = func(p *param) *param {
			sym.Assert(calls == i, "the options are called in order, each once")
			sym.Assert(p == prev, "each option gets what the previous one returned")
			calls++
			switch kind {
			case 0:
				prev = nil
			case 1:
				prev = p
				if p != nil {
					p.a = v
				}
			case 2:
				prev = &param{b: "copy"}
				if p != nil {
					prev.a = p.a
				}
			case 3:
				prev = &param{a: v}
			}
			return prev
		}
	}
	built := 0
	var made *object
	null := sym.Bool("constructor returns nil")
	r := optionalx.Parameter(func(p *param) *object {
		sym.Assert(calls == n, "the constructor is called last")
		sym.Assert(p == prev, "the constructor gets what the last option returned")
		built++
		if !null {
			made = &object{p: p}
		}
		return made
	}, fs...)
	sym.Assert(calls == n && built == 1, "the constructor is called once")
	sym.Assert(r == made, "the result of the constructor is returned")
	if r != nil {
		sym.Assert(r.p == prev, "the result of the constructor is unchanged")
	}
	sym.Reach("built")
}

// C42_Value applies options to values and pointers of other types.
func C42_Value() {
	x, y, k := sym.Int("x"), sym.Int("y"), sym.Int("k")
	r := optionalx.Parameter(func(p *int) *string {
		s := "none"
		if p != nil {
			sym.Assert(*p == (x+k)*3+y, "the options are applied in order")
			s = "some"
		}
		return &s
	}, func(p *int) *int {
		sym.Assert(p == nil, "the first option gets nil")
		v := x
		return &v
	}, func(p *int) *int {
		*p += k
		return p
	}, func(p *int) *int {
		v := *p * 3
		return &v
	}, func(p *int) *int {
		*p += y
		return p
	})
	sym.Assert(*r == "some", "the constructor gets what the last option returned")
	sym.Assert(*optionalx.Parameter(func(p *int) *bool { b := p == nil; return &b }), "without options the constructor gets nil")
}
