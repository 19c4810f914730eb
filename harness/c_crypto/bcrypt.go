package c_crypto

import (
	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"github.com/unsafe-risk/utilx/zzverif/clog"
	"github.com/unsafe-risk/utilx/zzverif/sym"
	"golang.org/x/crypto/bcrypt"
)

var pwLens = []int{0, 1, 2, 71, 72, 73, 74, 80, 144}

func password(name string) []byte {
	return sym.Bytes(name, pwLens[sym.Choose(name+".len", len(pwLens))])
}

// C35_Verify hashes any password and verifies it and any other one.
//
//sym:opt shards=3
func C35_Verify() {
	src := newSource()
	pw := guard(password("pw"))
	h, err := bcryptx.Encrypt(pw.arg())
	if len(pw.arg()) > 72 {
		sym.Assert(err == bcryptx.ErrPasswordTooLong, "a password longer than 72 bytes is refused with the length error")
		sym.Assert(len(h) == 0, "no hash is returned for it")
		sym.Assert(src.calls == 0 && clog.Bcrypt == 0, "it is not hashed")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil && len(h) > 0, "a password of at most 72 bytes is hashed")
	sym.Assert(pw.intact(), "hashing does not modify the password")
	ok, err := bcryptx.Decrypt(h, pw.arg())
	sym.Assert(ok && err == nil, "a hash verifies with its password")
	other := password("other")
	ok, err = bcryptx.Decrypt(h, other)
	sym.Observe("other", ok)
	sym.Assert(ok == (err == nil), "a failed verification comes with an error, a successful one without")
	if sym.Symbolic() {
		sym.Assert(ok == same(other, pw.arg()), "a hash verifies with no other password")
	}
	sym.Reach("verified")
}

// C35_Prefix verifies a password that continues the hashed one.
func C35_Prefix() {
	newSource()
	n := pwLens[sym.Choose("len", 5)]
	pw := sym.Bytes("pw", n)
	h, err := bcryptx.Encrypt(pw)
	sym.Assert(err == nil, "a password of at most 72 bytes is hashed")
	more := append(append([]byte(nil), pw...), 'x')
	more = append(more, sym.Bytes("more", sym.Choose("more.len", 3))...)
	ok, err := bcryptx.Decrypt(h, more)
	sym.Assert(!ok && err != nil, "a longer password with the hashed one as prefix does not verify")
	sym.Reach("prefix")
}

// C35_Arbitrary verifies against any bytes in place of a hash.
//
//sym:opt shards=2 native=no
func C35_Arbitrary() {
	newSource()
	n := []int{0, 1, 3, 58, 59, 60, 61, 70}[sym.Choose("n", 8)]
	h, pw := sym.Bytes("h", n), sym.Bytes("pw", []int{0, 3, 72, 73}[sym.Choose("len", 4)])
	ok, err := bcryptx.Decrypt(h, pw)
	sym.Assert(ok == (err == nil), "verification is true without error or false with one")
	sym.Assert(!ok || n >= 59 && len(pw) <= 72 && bcrypt.CompareHashAndPassword(h, pw) == nil, "only a hash of the password verifies")
	sym.Reach("arbitrary")
}

// C35_Failure makes the random source fail.
//
//sym:opt native=no
func C35_Failure() {
	src := newSource()
	src.fail, src.left = true, []int{0, 1, 15}[sym.Choose("left", 3)]
	h, err := bcryptx.Encrypt(sym.Bytes("pw", 4))
	sym.Assert(err != nil && len(h) == 0, "a failing random source is reported")
	sym.Reach("failure")
}

// C35_Pattern hashes passwords of multi-byte characters, or any bytes, that
// repeat.
//
//sym:opt shards=4
func C35_Pattern() {
	newSource()
	n := []int{36, 37, 70, 71, 72, 73, 74, 75, 100, 144, 200}[sym.Choose("len", 11)]
	var unit []byte
	switch sym.Choose("unit", 5) {
	case 0:
		unit = sym.Bytes("unit", 1)
	case 1:
		unit = []byte("\u00e9")
	case 2:
		unit = []byte("\u20ac")
	case 3:
		unit = []byte("\U0001f600")
	case 4:
		unit = []byte("a\x00 ")
	}
	pw := make([]byte, n)
	for i := range pw {
		pw[i] = unit[i%len(unit)]
	}
	h, err := bcryptx.Encrypt(pw)
	sym.Assert((err == nil) == (n <= 72), "exactly the passwords of at most 72 bytes are hashed")
	if err != nil {
		sym.Assert(err == bcryptx.ErrPasswordTooLong && len(h) == 0 && clog.Bcrypt == 0, "a password longer than 72 bytes is refused with the length error")
		sym.Reach("refused")
		return
	}
	ok, err := bcryptx.Decrypt(h, pw)
	sym.Assert(ok && err == nil, "a hash verifies with its password")
	pw[sym.Choose("change", 2)*(n-1)] ^= 1
	ok, err = bcryptx.Decrypt(h, pw)
	sym.Assert(!ok && err != nil, "a hash verifies with no other password")
	sym.Reach("hashed")
}
