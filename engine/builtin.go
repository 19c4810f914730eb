package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUp(n int64) int64 {
	for _, c := range sizeClasses {
		if c >= n {
			return c
		}
	}
	return (n + 8191) &^ 8191
}

// growCap follows runtime.growslice.
func (e *Engine) growCap(el types.Type, oldCap, newLen int64) int64 {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := e.sizes.Sizeof(el)
	if sz == 0 {
		return newLen
	}
	return roundUp(nc*sz) / sz
}

func (st *State) builtin(b *ssa.Builtin, args []Value, c *ssa.CallCommon) (Value, bool) {
	e := st.e
	switch b.Name() {
	case "len":
		return e.c.BV(64, uint64(st.length(args[0]))), true
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return e.c.BV(64, uint64(x.cap)), true
		case ChanV:
			if x.o == 0 {
				return e.c.BV(64, 0), true
			}
			return e.c.BV(64, uint64(st.obj(x.o).ch.cap)), true
		case Ptr, *Agg:
			return st.arrLen(c), true
		}
	case "append":
		el := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
		return st.appendOp(args[0].(SliceV), args[1], el), true
	case "copy":
		d := args[0].(SliceV)
		n := int(d.len)
		var src []Value
		switch s := args[1].(type) {
		case SliceV:
			n = min(n, int(s.len))
			src = append([]Value(nil), st.sliceCells(SliceV{s.o, s.off, int32(n), s.cap, s.cell})...)
		case StrV:
			n = min(n, s.Len())
			for i := 0; i < n; i++ {
				src = append(src, strTerm(e, s, i))
			}
		}
		if n > 0 {
			st.storeCells(Ptr{d.o, d.off}, src)
		}
		return e.c.BV(64, uint64(n)), true
	case "delete":
		st.mapDelete(args[0].(MapV), args[1])
		return nil, true
	case "close":
		ch := args[0].(ChanV)
		if ch.o == 0 {
			st.throw("close of nil channel")
		}
		if st.obj(ch.o).ch.closed {
			st.throw("close of closed channel")
		}
		st.wobj(ch.o).ch.closed = true
		return nil, true
	case "panic":
		v := args[0].(IfaceV)
		panic(goPanic{v})
	case "print", "println":
		return nil, true
	case "recover":
		return st.doRecover(), true
	case "min", "max":
		acc := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			if s, ok := a.(StrV); ok {
				l := e.strLess(s, acc.(StrV))
				if b.Name() == "max" {
					l = e.strLess(acc.(StrV), s)
				}
				if st.decide(l) {
					acc = s
				}
				continue
			}
			x, y := asTerm(acc), asTerm(a)
			k := basicKind(t)
			if k.float {
				panic(unsupported("min/max on floats"))
			}
			if b.Name() == "min" {
				acc = e.c.Ite(e.less(y, x, k.signed), y, x)
			} else {
				acc = e.c.Ite(e.less(x, y, k.signed), y, x)
			}
		}
		return acc, true
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			if x.o != 0 {
				st.wobj(x.o).m.ents = nil
			}
		case SliceV:
			if x.len > 0 {
				el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
				z := e.zeroCells(el, nil)
				var cs []Value
				for i := int32(0); i < x.len; i++ {
					cs = append(cs, z...)
				}
				st.storeCells(Ptr{x.o, x.off}, cs)
			}
		}
		return nil, true
	case "real":
		return args[0].(*Agg).c[0], true
	case "imag":
		return args[0].(*Agg).c[1], true
	case "complex":
		return &Agg{[]Value{args[0], args[1]}}, true
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.o == 0 {
			st.throw("value method called using nil pointer")
		}
		return args[0], true
	case "String": // unsafe.String(ptr, len)
		n := int64(st.concretize(e.c.Resize(asTerm(args[1]), 64, true), 64, "unsafe.String length"))
		if n == 0 {
			return StrV{}, true
		}
		cs := st.loadCells(args[0], int32(n))
		var b []*Term
		for _, c := range cs {
			b = append(b, asTerm(c))
		}
		return mkStr(b), true
	case "StringData":
		s := args[0].(StrV)
		if s.Len() == 0 {
			return Ptr{}, true
		}
		sv := st.newBytes(e.strBytes(s))
		return Ptr{sv.o, 0}, true
	case "Sizeof":
		return e.c.BV(64, uint64(types.SizesFor("gc", "amd64").Sizeof(c.Args[0].Type()))), true
	case "Alignof":
		return e.c.BV(64, uint64(types.SizesFor("gc", "amd64").Alignof(c.Args[0].Type()))), true
	case "SliceData":
		s := args[0].(SliceV)
		return Ptr{s.o, s.off}, true
	case "Slice":
		p := args[0].(Ptr)
		n := int32(st.concretize(e.c.Resize(asTerm(args[1]), 64, true), 4096, "unsafe.Slice length"))
		el := c.Args[0].Type().Underlying().(*types.Pointer).Elem()
		if p.o == 0 {
			return SliceV{cell: e.ly.of(el).n}, true
		}
		return SliceV{p.o, p.off, n, n, e.ly.of(el).n}, true
	case "Add":
		n := int64(st.concretize(e.c.Resize(asTerm(args[1]), 64, true), 64, "unsafe.Add"))
		if n == 0 {
			return args[0], true
		}
	}
	panic(unsupported("builtin " + b.Name()))
}

func (st *State) arrLen(c *ssa.CallCommon) Value {
	t := c.Args[0].Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	return st.e.c.BV(64, uint64(t.(*types.Array).Len()))
}

func (st *State) length(v Value) int64 {
	switch x := v.(type) {
	case SliceV:
		return int64(x.len)
	case StrV:
		return int64(x.Len())
	case MapV:
		if x.o == 0 {
			return 0
		}
		return int64(len(st.obj(x.o).m.ents))
	case ChanV:
		if x.o == 0 {
			return 0
		}
		return int64(len(st.obj(x.o).ch.buf))
	}
	panic(unsupported(fmt.Sprintf("len of %T", v)))
}

func (st *State) appendOp(s SliceV, v Value, el types.Type) Value {
	e := st.e
	var src []Value
	var n int32
	switch x := v.(type) {
	case SliceV:
		src = append([]Value(nil), st.sliceCells(x)...)
		n = x.len
	case StrV:
		for i := 0; i < x.Len(); i++ {
			src = append(src, strTerm(e, x, i))
		}
		n = int32(x.Len())
	}
	if n == 0 {
		return s
	}
	nl := s.len + n
	if nl <= s.cap && s.o != 0 {
		if len(src) > 0 {
			st.storeCells(Ptr{s.o, s.off + s.len*s.cell}, src)
		}
		return SliceV{s.o, s.off, nl, s.cap, s.cell}
	}
	nc := int32(e.growCap(el, int64(s.cap), int64(nl)))
	r := st.newSlice(el, nl, nc)
	o := st.wobj(r.o)
	copy(o.cells, st.sliceCells(s))
	copy(o.cells[s.len*s.cell:], src)
	return r
}

func (st *State) doRecover() Value {
	g := st.g()
	n := len(g.frames)
	if n < 2 {
		return IfaceV{}
	}
	d := g.frames[n-1]
	if !d.isDefer {
		return IfaceV{}
	}
	c := g.frames[n-2]
	if c.panicking == nil || c.panicking.recovered {
		return IfaceV{}
	}
	c = st.frameAt(n - 2)
	c.panicking.recovered = true
	return c.panicking.val
}
