package c_conv

import (
	"github.com/unsafe-risk/utilx/typex/convx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

func intFloat[T integer, F float](v T) {
	r, ok := convx.Into[T, F](v)
	sym.Assert(ok, "every integer type converts to every float type")
	sym.Assert(r == F(v), "an integer becomes the float Go converts it to")
	sym.Reach("int-float")
}

// C31_IntegerToFloat converts any value of every integer type.
//
//sym:opt shards=5
func C31_IntegerToFloat() {
	switch sym.Choose("from", 10) {
	case 0:
		v := sym.Int8("v")
		intFloat[int8, float32](v)
		intFloat[int8, float64](v)
	case 1:
		v := sym.Int16("v")
		intFloat[int16, float32](v)
		intFloat[int16, float64](v)
	case 2:
		v := sym.Int32("v")
		intFloat[int32, float32](v)
		intFloat[int32, float64](v)
	case 3:
		v := sym.Int64("v")
		intFloat[int64, float32](v)
		intFloat[int64, float64](v)
	case 4:
		v := sym.Int("v")
		intFloat[int, float32](v)
		intFloat[int, float64](v)
	case 5:
		v := sym.Byte("v")
		intFloat[uint8, float32](v)
		intFloat[uint8, float64](v)
	case 6:
		v := sym.Uint16("v")
		intFloat[uint16, float32](v)
		intFloat[uint16, float64](v)
	case 7:
		v := sym.Uint32("v")
		intFloat[uint32, float32](v)
		intFloat[uint32, float64](v)
	case 8:
		v := sym.Uint64("v")
		intFloat[uint64, float32](v)
		intFloat[uint64, float64](v)
	case 9:
		v := sym.Uint("v")
		intFloat[uint, float32](v)
		intFloat[uint, float64](v)
	}
}

// floatInt converts floats whose value, cut towards zero, fits the target:
// lo and hi are the (exactly representable) excluded bounds.
func floatInt[F float, T integer](f F, lo, hi F) {
	sym.Assume(f > lo && f < hi)
	r, ok := convx.Into[F, T](f)
	sym.Assert(ok, "every float type converts to every integer type")
	sym.Assert(r == T(f), "a float in range becomes the integer Go converts it to")
	sym.Reach("float-int")
}

//sym:opt shards=5
func C31_Float32ToInteger() {
	f := sym.Float32("f")
	switch sym.Choose("to", 10) {
	case 0:
		floatInt[float32, int8](f, -129.0, 128.0)
	case 1:
		floatInt[float32, int16](f, -32769.0, 32768.0)
	case 2:
		floatInt[float32, int32](f, -2147483904.0, 2147483648.0)
	case 3:
		floatInt[float32, int64](f, -9223372036854775808.0, 9223372036854775808.0)
	case 4:
		floatInt[float32, int](f, -9223372036854775808.0, 9223372036854775808.0)
	case 5:
		floatInt[float32, uint8](f, -1.0, 256.0)
	case 6:
		floatInt[float32, uint16](f, -1.0, 65536.0)
	case 7:
		floatInt[float32, uint32](f, -1.0, 4294967296.0)
	case 8:
		floatInt[float32, uint64](f, -1.0, 18446744073709551616.0)
	case 9:
		floatInt[float32, uint](f, -1.0, 18446744073709551616.0)
	}
}

//sym:opt shards=5
func C31_Float64ToInteger() {
	f := sym.Float64("f")
	switch sym.Choose("to", 10) {
	case 0:
		floatInt[float64, int8](f, -129.0, 128.0)
	case 1:
		floatInt[float64, int16](f, -32769.0, 32768.0)
	case 2:
		floatInt[float64, int32](f, -2147483649.0, 2147483648.0)
	case 3:
		floatInt[float64, int64](f, -9223372036854775808.0, 9223372036854775808.0)
	case 4:
		floatInt[float64, int](f, -9223372036854775808.0, 9223372036854775808.0)
	case 5:
		floatInt[float64, uint8](f, -1.0, 256.0)
	case 6:
		floatInt[float64, uint16](f, -1.0, 65536.0)
	case 7:
		floatInt[float64, uint32](f, -1.0, 4294967296.0)
	case 8:
		floatInt[float64, uint64](f, -1.0, 18446744073709551616.0)
	case 9:
		floatInt[float64, uint](f, -1.0, 18446744073709551616.0)
	}
}

func same[F float](a, b F) bool { return a == b || a != a && b != b }

// C31_FloatPairs converts any float, NaN and infinities included.
func C31_FloatPairs() {
	a, d := sym.Float32("a"), sym.Float64("d")
	aa, ok := convx.Into[float32, float32](a)
	sym.Assert(ok && same(aa, a), "float32 to itself is the identity")
	ad, ok := convx.Into[float32, float64](a)
	sym.Assert(ok && same(ad, float64(a)), "float32 widens exactly")
	da, ok := convx.Into[float64, float32](d)
	sym.Assert(ok && same(da, float32(d)), "float64 narrows as Go does")
	dd, ok := convx.Into[float64, float64](d)
	sym.Assert(ok && same(dd, d), "float64 to itself is the identity")
	back, ok := convx.Into[float64, float32](ad)
	sym.Assert(ok && same(back, a), "a widened float32 comes back")
	ab, ok := convx.Into[float32, bool](a)
	sym.Assert(ok && ab == (a != 0), "a float32 is true exactly when it is not zero")
	db, ok := convx.Into[float64, bool](d)
	sym.Assert(ok && db == (d != 0), "a float64 is true exactly when it is not zero")
	sym.Reach("floats")
}

// C31_FloatText only looks at presence: the text of a float is not part of
// the property.
func C31_FloatText() {
	sym.Assert(convx.Exists[float32, string]() && convx.Exists[float64, string]() && convx.Exists[string, float32]() && convx.Exists[string, float64](), "floats and text are registered")
	sym.Reach("registered")
}

func eqBytes(a []byte, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// C31_Bytes converts any string and any byte slice, valid UTF-8 or not.
//
//sym:opt quick.param.N=5 thorough.param.N=9
func C31_Bytes() {
	n := sym.Choose("n", sym.Param("N", 5, 9))
	raw := sym.Bytes("s", n)
	s := string(raw)
	b, ok := convx.Into[string, []byte](s)
	sym.Assert(ok, "string to bytes is registered")
	sym.Assert(eqBytes(b, s), "string to bytes loses nothing")
	s2, ok := convx.Into[[]byte, string](raw)
	sym.Assert(ok, "bytes to string is registered")
	sym.Assert(s2 == s, "bytes to string loses nothing")
	sym.Assert(eqBytes(raw, s), "the given bytes are not modified")
	b2, ok := convx.Into[[]byte, []byte](raw)
	sym.Assert(ok && eqBytes(b2, s), "bytes to bytes keeps them")
	s3, ok := convx.Into[string, string](s)
	sym.Assert(ok && s3 == s, "string to string is the identity")
	if n > 0 {
		raw[0]++
		sym.Assert(s2 == s, "the converted string does not change with the bytes")
		b[0]++
		sym.Assert(s3 == s, "the string does not change with the converted bytes")
	}
	sym.Reach("bytes")
}

// C31_StringToRunes decodes any byte sequence.
//
//sym:opt shards=4
func C31_StringToRunes() {
	n := sym.Choose("n", sym.Param("N", 4, 6))
	s := string(sym.Bytes("s", n))
	r, ok := convx.Into[string, []rune](s)
	sym.Assert(ok, "string to runes is registered")
	sym.Assert(eqRunes(r, []rune(s)), "a string becomes the runes Go decodes")
	sym.Reach("decode")
}

// C31_RunesToString encodes any rune values, invalid ones included.
func C31_RunesToString() {
	n := sym.Choose("n", sym.Param("N", 3, 5))
	var r []rune
	for i := 0; i < n; i++ {
		r = append(r, sym.Int32("r"))
	}
	keep := append([]rune(nil), r...)
	s, ok := convx.Into[[]rune, string](r)
	sym.Assert(ok, "runes to string is registered")
	sym.Assert(s == string(r), "runes become the string Go encodes")
	r2, ok := convx.Into[[]rune, []rune](r)
	sym.Assert(ok && eqRunes(r2, keep) && eqRunes(r, keep), "runes to runes keeps them")
	sym.Reach("encode")
}

func presentTo[T integer, F float]() {
	for _, v := range []int{0, 1, 5, 100} {
		r, ok := convx.Into[T, F](T(v))
		sym.Assert(ok && r == F(v), "an integer becomes the float Go converts it to")
		t, ok := convx.Into[F, T](F(v))
		sym.Assert(ok && t == T(v), "a float in range becomes the integer Go converts it to")
		t, ok = convx.Into[F, T](F(v) + 0.75)
		sym.Assert(ok && t == T(v), "a float in range is cut towards zero")
	}
	sym.Assert(convx.Exists[T, F]() && convx.Exists[F, T](), "Exists agrees")
}

func present[T integer]() {
	presentTo[T, float32]()
	presentTo[T, float64]()
	_, ok := convx.Into[T, bool](1)
	sym.Assert(ok && convx.Exists[T, bool]() && convx.Exists[bool, T](), "integers and truth values are registered both ways")
	_, ok = convx.Into[T, string](1)
	sym.Assert(ok && convx.Exists[T, string]() && convx.Exists[string, T](), "integers and text are registered both ways")
}

// C31_Pairs looks every integer and float pair up.
func C31_Pairs() {
	present[int8]()
	present[int16]()
	present[int32]()
	present[int64]()
	present[int]()
	present[uint8]()
	present[uint16]()
	present[uint32]()
	present[uint64]()
	present[uint]()
	sym.Reach("pairs")
}

// C31_LongBytes converts long strings and byte slices.
func C31_LongBytes() {
	ns := []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025}
	n := ns[sym.Choose("n", len(ns))]
	raw := sym.Bytes("s", n)
	s := string(raw)
	b, ok := convx.Into[string, []byte](s)
	sym.Assert(ok && eqBytes(b, s), "string to bytes loses nothing")
	s2, ok := convx.Into[[]byte, string](raw)
	sym.Assert(ok && len(s2) == n && eqBytes([]byte(s2), s), "bytes to string loses nothing")
	b2, ok := convx.Into[[]byte, []byte](raw)
	sym.Assert(ok && eqBytes(b2, s), "bytes to bytes keeps them")
	s3, ok := convx.Into[string, string](s)
	sym.Assert(ok && len(s3) == n && eqBytes([]byte(s3), s), "string to string is the identity")
	raw[n-1]++
	b[n/2]++
	sym.Assert(eqBytes([]byte(s2), s) && eqBytes([]byte(s3), s), "the converted string does not change with the bytes")
	sym.Reach("bytes")
}

// C31_LongRunes converts long texts of a few kinds of runes, with some
// arbitrary ones among them.
func C31_LongRunes() {
	ns := []int{15, 16, 17, 31, 32, 33, 64, 65, 129, 300}
	n := ns[sym.Choose("n", len(ns))]
	fills := [][]rune{{'a'}, {'a', 0xe9}, {0x20ac, 'b', 0x1f600}, {0xfffd, 0x10ffff}, {0x1f600}}
	fill := fills[sym.Choose("fill", len(fills))]
	r := make([]rune, n)
	for i := range r {
		r[i] = fill[i%len(fill)]
	}
	r[[]int{0, n / 2, n - 1}[sym.Choose("at", 3)]] = sym.Int32("r")
	s, ok := convx.Into[[]rune, string](r)
	sym.Assert(ok, "runes to string is registered")
	want := string(r)
	sym.Assert(len(s) == len(want) && eqBytes([]byte(s), want), "runes become the string Go encodes")
	r2, ok := convx.Into[string, []rune](s)
	sym.Assert(ok && eqRunes(r2, []rune(want)), "a string becomes the runes Go decodes")
	sym.Reach("runes")
}
