package c_conv

import (
	"github.com/unsafe-risk/utilx/typex/convx"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

type integer interface {
	~int8 | ~int16 | ~int32 | ~int64 | ~int | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint
}

type float interface{ ~float32 | ~float64 }

func intInt[T, R integer](v T) {
	r, ok := convx.Into[T, R](v)
	sym.Observe("r", uint64(r))
	sym.Assert(ok, "every pair of integer types is registered")
	sym.Assert(r == R(v), "an integer conversion equals Go's own")
	sym.Assert(convx.IntoOr[T, R](v, R(7)) == R(v), "IntoOr converts and ignores the default")
	sym.Assert(convx.Exists[T, R](), "Exists agrees")
}

func intAll[T integer](v T) {
	intInt[T, int8](v)
	intInt[T, int16](v)
	intInt[T, int32](v)
	intInt[T, int64](v)
	intInt[T, int](v)
	intInt[T, uint8](v)
	intInt[T, uint16](v)
	intInt[T, uint32](v)
	intInt[T, uint64](v)
	intInt[T, uint](v)
	b, ok := convx.Into[T, bool](v)
	sym.Assert(ok && b == (v != 0), "an integer is true exactly when it is not zero")
	sym.Reach("int")
}

// C30_IntegerPairs converts a value of every integer type into every other.
//
//sym:opt shards=10
func C30_IntegerPairs() {
	switch sym.Choose("from", 10) {
	case 0:
		intAll(sym.Int8("v"))
	case 1:
		intAll(sym.Int16("v"))
	case 2:
		intAll(sym.Int32("v"))
	case 3:
		intAll(sym.Int64("v"))
	case 4:
		intAll(sym.Int("v"))
	case 5:
		intAll(sym.Byte("v"))
	case 6:
		intAll(sym.Uint16("v"))
	case 7:
		intAll(sym.Uint32("v"))
	case 8:
		intAll(sym.Uint64("v"))
	case 9:
		intAll(sym.Uint("v"))
	}
}

func boolInt[T integer](b bool) {
	r, ok := convx.Into[bool, T](b)
	sym.Assert(ok, "bool to every integer type is registered")
	if b {
		sym.Assert(r == 1, "true converts to 1")
	} else {
		sym.Assert(r == 0, "false converts to 0")
	}
	back, ok := convx.Into[T, bool](r)
	sym.Assert(ok && back == b, "a bool comes back from an integer")
}

// C30_Bool converts both truth values to every type and back.
func C30_Bool() {
	b := sym.Bool("b")
	boolInt[int8](b)
	boolInt[int16](b)
	boolInt[int32](b)
	boolInt[int64](b)
	boolInt[int](b)
	boolInt[uint8](b)
	boolInt[uint16](b)
	boolInt[uint32](b)
	boolInt[uint64](b)
	boolInt[uint](b)
	f32, ok := convx.Into[bool, float32](b)
	sym.Assert(ok && (f32 == 1) == b && (f32 == 0) == !b, "bool converts to float32 1 or 0")
	f64, ok := convx.Into[bool, float64](b)
	sym.Assert(ok && (f64 == 1) == b && (f64 == 0) == !b, "bool converts to float64 1 or 0")
	same, ok := convx.Into[bool, bool](b)
	sym.Assert(ok && same == b, "bool to bool is the identity")
	s, ok := convx.Into[bool, string](b)
	sym.Assert(ok, "bool to string is registered")
	if b {
		sym.Assert(s == "true", "true is \"true\"")
	} else {
		sym.Assert(s == "false", "false is \"false\"")
	}
	back, ok := convx.Into[string, bool](s)
	sym.Assert(ok && back == b, "the text of a bool parses back")
	sym.Reach("bool")
}

// digits builds an integer of exactly n decimal digits from the given
// prefix (decimal digits) and free digits for the rest, together with its
// canonical text. Every such integer has exactly one such form, so ranging
// over prefixes, lengths and digits covers every value.
func digits[T integer](prefix string, n int) (v T, text []byte) {
	for i := 0; i < n; i++ {
		var d byte
		switch {
		case i < len(prefix) && prefix[i] != '?':
			d = prefix[i] - '0'
		case i == 0 && n > 1:
			d = 1 + sym.Byte("d")%9
		default:
			d = sym.Byte("d") % 10
		}
		v = v*10 + T(d)
		text = append(text, '0'+d)
	}
	return v, text
}

// prefixes splits the n-digit numbers up to max (as decimal text): shorter
// numbers need no prefix, numbers as long as max have a common prefix of j
// digits, then a smaller digit, then anything.
func prefixOf(max string) (prefix string, n int) {
	n = 1 + sym.Choose("len", len(max))
	if n < len(max) {
		return "", n
	}
	j := sym.Choose("common", n+1)
	if j == n {
		return max, n
	}
	low := byte('0')
	if j == 0 && n > 1 {
		low = '1'
	}
	if max[j] <= low {
		return "", 0
	}
	return max[:j] + string([]byte{low + byte(sym.Choose("smaller", int(max[j]-low)))}), n
}

func text[T integer](max string, negative bool) {
	prefix, n := prefixOf(max)
	if n == 0 {
		return
	}
	v, want := digits[T](prefix, n)
	if negative {
		sym.Assume(v != 0)
		v = -v
		want = append([]byte{'-'}, want...)
	}
	s, ok := convx.Into[T, string](v)
	sym.Observe("s", s)
	sym.Assert(ok, "every integer type converts to text")
	sym.Assert(s == string(want), "the text of an integer is its canonical decimal form")
	back, ok := convx.Into[string, T](string(want))
	sym.Observe("back", uint64(back))
	sym.Assert(ok, "text converts to every integer type")
	sym.Assert(back == v, "the text parses back to the same value")
	sym.Reach("text")
}

// edge checks the integers that share all but their last two digits with max.
func edge[T integer](max string, negative bool) {
	cut := len(max) - 2
	if sym.Choose("exact", 2) == 1 {
		cut = len(max)
	}
	var v T
	want := []byte(max)
	if negative {
		want = append([]byte{'-'}, want...)
	}
	for i := range max {
		d := max[i] - '0'
		if i >= cut {
			d = sym.Byte("d") % 16
			sym.Assume(d <= max[i]-'0' && (i > 0 || d > 0))
			want[len(want)-len(max)+i] = '0' + d
		}
		v = v*10 + T(d)
	}
	if negative {
		v = -v
	}
	s, ok := convx.Into[T, string](v)
	sym.Assert(ok && s == string(want), "the text of an integer is its canonical decimal form")
	back, ok := convx.Into[string, T](string(want))
	sym.Assert(ok && back == v, "the text parses back to the same value")
	sym.Reach("edge")
}

// C30_EdgeSigned: the largest and the smallest values and powers of two and
// ten, of every signed type.
func C30_EdgeSigned() {
	neg := sym.Choose("sign", 2) == 1
	switch sym.Choose("type", 5) {
	case 0:
		edge[int8]([]string{"127", "100", "64", "99"}[sym.Choose("at", 4)], neg)
	case 1:
		edge[int16]([]string{"32767", "10000", "256", "999"}[sym.Choose("at", 4)], neg)
	case 2:
		edge[int32]([]string{"2147483647", "1000000000", "65536", "99999"}[sym.Choose("at", 4)], neg)
	case 3:
		edge[int64]([]string{"9223372036854775807", "1000000000000000000", "4294967296", "9007199254740993"}[sym.Choose("at", 4)], neg)
	case 4:
		edge[int]([]string{"9223372036854775807", "1000000000000000000", "4294967296", "9007199254740993"}[sym.Choose("at", 4)], neg)
	}
	sym.Assert(func() bool {
		a, _ := convx.Into[int8, string](-128)
		b, _ := convx.Into[int16, string](-32768)
		c, _ := convx.Into[int32, string](-2147483648)
		d, _ := convx.Into[int64, string](-9223372036854775808)
		e, _ := convx.Into[int, string](-9223372036854775808)
		return a == "-128" && b == "-32768" && c == "-2147483648" && d == "-9223372036854775808" && e == d
	}(), "the text of the smallest value is its canonical decimal form")
	sym.Assert(func() bool {
		a, _ := convx.Into[string, int8]("-128")
		b, _ := convx.Into[string, int16]("-32768")
		c, _ := convx.Into[string, int32]("-2147483648")
		d, _ := convx.Into[string, int64]("-9223372036854775808")
		e, _ := convx.Into[string, int]("-9223372036854775808")
		return a == -128 && b == -32768 && c == -2147483648 && d == -9223372036854775808 && e == -9223372036854775808
	}(), "the text of the smallest value parses back")
}

// C30_EdgeUnsigned: the same of every unsigned type.
func C30_EdgeUnsigned() {
	switch sym.Choose("type", 5) {
	case 0:
		edge[uint8]([]string{"255", "128", "100", "99"}[sym.Choose("at", 4)], false)
	case 1:
		edge[uint16]([]string{"65535", "32768", "10000", "256"}[sym.Choose("at", 4)], false)
	case 2:
		edge[uint32]([]string{"4294967295", "2147483648", "65536", "99999"}[sym.Choose("at", 4)], false)
	case 3:
		edge[uint64]([]string{"18446744073709551615", "9223372036854775899", "10000000000000000000", "9007199254740993"}[sym.Choose("at", 4)], false)
	case 4:
		edge[uint]([]string{"18446744073709551615", "9223372036854775899", "10000000000000000000", "9007199254740993"}[sym.Choose("at", 4)], false)
	}
}

//sym:opt shards=4
func C30_TextInt8() {
	if sym.Choose("sign", 2) == 1 {
		text[int8]("128", true)
	} else {
		text[int8]("127", false)
	}
}

//sym:opt shards=4
func C30_TextInt16() {
	if sym.Choose("sign", 2) == 1 {
		text[int16]("32768", true)
	} else {
		text[int16]("32767", false)
	}
}

//sym:opt shards=4
func C30_TextInt32() {
	if sym.Choose("sign", 2) == 1 {
		text[int32]("2147483648", true)
	} else {
		text[int32]("2147483647", false)
	}
}

//sym:opt shards=8
func C30_TextInt64() {
	if sym.Choose("sign", 2) == 1 {
		text[int64]("9223372036854775808", true)
	} else {
		text[int64]("9223372036854775807", false)
	}
}

//sym:opt shards=8
func C30_TextInt() {
	if sym.Choose("sign", 2) == 1 {
		text[int]("9223372036854775808", true)
	} else {
		text[int]("9223372036854775807", false)
	}
}

//sym:opt shards=4
func C30_TextUint8() { text[uint8]("255", false) }

//sym:opt shards=4
func C30_TextUint16() { text[uint16]("65535", false) }

//sym:opt shards=4
func C30_TextUint32() { text[uint32]("4294967295", false) }

//sym:opt shards=8
func C30_TextUint64() { text[uint64]("18446744073709551615", false) }

//sym:opt shards=8
func C30_TextUint() { text[uint]("18446744073709551615", false) }
