package c_bitset

import (
	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
	"golang.org/x/exp/constraints"
)

type word uint16

// every returns all positions of the width.
func every(w int) []int {
	r := make([]int, w)
	for i := range r {
		r[i] = i
	}
	return r
}

// arbitrary puts b into an arbitrary state: position i is set exactly when
// bit i of a symbolic word is clear (otherwise a position beyond every width
// is passed, which is to be ignored).
func arbitrary[T constraints.Unsigned](b *bitsetx.BitSet[T], w int) {
	x := sym.Uint64("state")
	ps := make([]int, w)
	for i := range ps {
		ps[i] = i + int(x>>i&1)*256
	}
	b.Set(ps...)
	for i := 0; i < w; i += 1 + w/4 {
		sym.Assert(b.Test(i) == (x>>i&1 == 0), "Set sets exactly the listed bits")
	}
}

func bits[T constraints.Unsigned](w int) {
	var b bitsetx.BitSet[T]
	sym.Assert(b.IsEmpty(), "a new set is empty")
	sym.Assert(!b.IsFull(), "a new set is not full")
	arbitrary(&b, w)

	q := sym.Int("q")
	sym.Assume(q >= 0)
	pre := b.Test(q)
	if q >= w {
		sym.Assert(!pre, "no position beyond the width is in the set")
	}
	n := sym.Choose("n", 4)
	ps := make([]int, n)
	listed := false
	for i := range ps {
		ps[i] = sym.Int("p")
		sym.Assume(ps[i] >= 0)
		if ps[i] == q {
			listed = true
		}
	}
	in := listed && q < w
	switch sym.Choose("op", 4) {
	case 0:
		b.Set(ps...)
		sym.Assert(b.Test(q) == (pre || in), "Set sets exactly the listed bits")
	case 1:
		b.Clear(ps...)
		sym.Assert(b.Test(q) == (pre && !in), "Clear clears exactly the listed bits")
	case 2:
		for i := range ps {
			for j := 0; j < i; j++ {
				sym.Assume(ps[i] != ps[j])
			}
		}
		b.Toggle(ps...)
		sym.Assert(b.Test(q) == (pre != in), "Toggle inverts exactly the listed bits")
	case 3:
		any := false
		for _, p := range ps {
			if b.Test(p) {
				any = true
			}
		}
		sym.Assert(b.Test(ps...) == any, "Test reports whether at least one listed bit is set")
		sym.Assert(b.Test(q) == pre, "Test changes nothing")
	}
}

func whole[T constraints.Unsigned](w int) {
	var b bitsetx.BitSet[T]
	arbitrary(&b, w)
	q := sym.Int("q")
	sym.Assume(q >= 0)
	pre := b.Test(q)
	all := every(w)
	emp, full := b.IsEmpty(), b.IsFull()
	sym.Assert(emp == !b.Test(all...), "IsEmpty holds exactly when no bit is set")
	if full && q < w {
		sym.Assert(pre, "IsFull holds only when every bit is set")
	}
	if emp {
		sym.Assert(!pre, "an empty set has no bit")
	}
	sym.Assert(b.Test(q) == pre, "queries change nothing")
	b.ToggleAll()
	sym.Assert(b.Test(q) == (q < w && !pre), "ToggleAll inverts every bit of the width")
	sym.Assert(full == !b.Test(all...), "IsFull holds exactly when every bit is set")
	sym.Assert(full == b.IsEmpty(), "the inverse of a full set is empty")
	sym.Assert(emp == b.IsFull(), "the inverse of an empty set is full")
	switch sym.Choose("op", 2) {
	case 0:
		b.SetAll()
		sym.Assert(b.Test(q) == (q < w), "SetAll sets every bit of the width")
		sym.Assert(b.IsFull() && !b.IsEmpty(), "SetAll fills the set")
		if q < w {
			b.Clear(q)
			sym.Assert(!b.IsFull(), "a set missing one bit is not full")
			b.Set(q)
			sym.Assert(b.IsFull(), "a set with every bit is full")
		}
	case 1:
		b.ClearAll()
		sym.Assert(!b.Test(q), "ClearAll clears every bit")
		sym.Assert(b.IsEmpty() && !b.IsFull(), "ClearAll empties the set")
		b.Set(q)
		sym.Assert(b.IsEmpty() == (q >= w), "positions beyond the width are ignored")
	}
}

func C16_Bits8()    { bits[uint8](8) }
func C16_Bits16()   { bits[word](16) }
func C16_Bits32()   { bits[uint32](32) }
func C16_Bits64()   { bits[uint64](64) }
func C16_BitsUint() { bits[uint](64) }
func C16_BitsPtr()  { bits[uintptr](64) }

func C16_Whole8()    { whole[uint8](8) }
func C16_Whole16()   { whole[uint16](16) }
func C16_Whole32()   { whole[uint32](32) }
func C16_Whole64()   { whole[uint64](64) }
func C16_WholeUint() { whole[uint](64) }
func C16_WholePtr()  { whole[uintptr](64) }
