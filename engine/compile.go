package main

// Per-function preprocessing: register numbering, operand resolution,
// liveness, postdominator-free pure-diamond detection.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type operand struct {
	reg int // >=0: register; -1: constant value
	val Value
}

type CInstr struct {
	ins  ssa.Instruction
	dst  int
	ops  []operand
	aux  interface{}
	skip bool
}

type CFunc struct {
	fn      *ssa.Function
	nregs   int
	regOf   map[ssa.Value]int
	blocks  [][]CInstr
	live    map[[2]int][]int // memoised live-in registers per program point
	liveOut [][]bool
	intr    intrinsic
	redir   *CFunc
	gran    bool
	inRepo  bool
	harness bool // a function of a harness package
	pos     string
}

func (f *CFunc) at(b, i int) ssa.Instruction {
	if b < 0 || b >= len(f.blocks) || i >= len(f.blocks[b]) {
		return nil
	}
	return f.blocks[b][i].ins
}

func (e *Engine) cfunc(fn *ssa.Function) *CFunc {
	if cf, ok := e.cfuncs[fn]; ok {
		return cf
	}
	cf := &CFunc{fn: fn, regOf: map[ssa.Value]int{}, live: map[[2]int][]int{}}
	e.cfuncs[fn] = cf
	key := fn.String()
	if o := fn.Origin(); o != nil {
		key = o.String()
	}
	cf.pos = key
	if in, ok := intrinsics[key]; ok {
		cf.intr = in
		return cf
	}
	if m, ok := e.models[key]; ok {
		if o := fn.Origin(); o != nil && m.TypeParams().Len() > 0 {
			panic(unsupported("generic model for " + key))
		}
		cf.redir = e.cfunc(m)
		return cf
	}
	if p := fnPkg(fn); p != nil {
		cf.inRepo = e.isRepo(p.Path())
		cf.harness = strings.HasPrefix(p.Path(), zz+"c_")
		cf.gran = cf.inRepo || cf.harness && e.coarse
	}
	add := func(v ssa.Value) {
		cf.regOf[v] = cf.nregs
		cf.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	cf.blocks = make([][]CInstr, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cis := make([]CInstr, len(b.Instrs))
		for j, ins := range b.Instrs {
			ci := CInstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = cf.regOf[v]
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				ci.skip = true
			} else {
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						ci.ops = append(ci.ops, operand{reg: -1})
						continue
					}
					ci.ops = append(ci.ops, e.operand(cf, *op))
				}
			}
			cis[j] = ci
		}
		cf.blocks[i] = cis
	}
	return cf
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

func (e *Engine) operand(cf *CFunc, v ssa.Value) operand {
	switch x := v.(type) {
	case *ssa.Const:
		return operand{-1, e.constVal(x)}
	case *ssa.Global:
		return operand{-1, Ptr{e.globalID(x), 0}}
	case *ssa.Function:
		return operand{-1, &FuncV{fn: x}}
	case *ssa.Builtin:
		return operand{-1, &FuncV{bi: x}}
	}
	r, ok := cf.regOf[v]
	if !ok {
		panic("unnumbered value " + v.String())
	}
	return operand{reg: r}
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return Ptr{}
		}
		if tt, ok := t.Underlying().(*types.Tuple); ok {
			return e.zero(tt)
		}
		return e.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		// constant of type-parameter type cannot occur in instantiated code
		panic(unsupported("constant of type " + t.String()))
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return e.c.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return StrV{s: constant.StringVal(c.Value)}
	}
	k := basicKind(b)
	switch {
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		w := uint8(64)
		if b.Kind() == types.Complex64 {
			w = 32
		}
		return &Agg{[]Value{e.c.FP(w, re), e.c.FP(w, im)}}
	case k.float:
		if k.w == 32 {
			f, _ := constant.Float32Val(c.Value)
			return e.c.F32(f)
		}
		f, _ := constant.Float64Val(c.Value)
		return e.c.F64(f)
	case k.ok:
		v := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(v); exact {
			return e.c.BV(k.w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return e.c.BV(k.w, u)
	case b.Kind() == types.UnsafePointer:
		return Ptr{}
	}
	panic(unsupported("constant " + c.String()))
}

// ---- liveness

func (cf *CFunc) computeLiveOut() {
	n := len(cf.blocks)
	in := make([][]bool, n)
	out := make([][]bool, n)
	for i := range in {
		in[i] = make([]bool, cf.nregs)
		out[i] = make([]bool, cf.nregs)
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := cf.fn.Blocks[i]
			for _, s := range b.Succs {
				for r, v := range in[s.Index] {
					if v && !out[i][r] {
						out[i][r] = true
						changed = true
					}
				}
				// phi uses on this edge
				for _, ci := range cf.blocks[s.Index] {
					phi, ok := ci.ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							if r := ci.ops[k].reg; r >= 0 && !out[i][r] {
								out[i][r] = true
								changed = true
							}
						}
					}
					_ = phi
				}
			}
			live := append([]bool(nil), out[i]...)
			cf.back(i, 0, live)
			for r, v := range live {
				if v && !in[i][r] {
					in[i][r] = true
					changed = true
				}
			}
		}
	}
	cf.liveOut = out
}

// back transforms live (at block end) into liveness before instruction ip.
func (cf *CFunc) back(b, ip int, live []bool) {
	for j := len(cf.blocks[b]) - 1; j >= ip; j-- {
		ci := &cf.blocks[b][j]
		if ci.dst >= 0 {
			live[ci.dst] = false
		}
		if _, ok := ci.ins.(*ssa.Phi); ok {
			continue
		}
		if ci.skip {
			continue
		}
		for _, o := range ci.ops {
			if o.reg >= 0 {
				live[o.reg] = true
			}
		}
	}
}

// liveIn returns the registers live before instruction ip of block b.
func (cf *CFunc) liveIn(b, ip int) []int {
	k := [2]int{b, ip}
	if l, ok := cf.live[k]; ok {
		return l
	}
	if cf.liveOut == nil {
		cf.computeLiveOut()
	}
	live := append([]bool(nil), cf.liveOut[b]...)
	cf.back(b, ip, live)
	l := []int{}
	for r, v := range live {
		if v {
			l = append(l, r)
		}
	}
	cf.live[k] = l
	return l
}

var _ = token.ADD
