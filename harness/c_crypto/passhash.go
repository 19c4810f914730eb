package c_crypto

import (
	"encoding/binary"

	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"github.com/unsafe-risk/utilx/zzverif/clog"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

// time, memory (KiB), threads, key length, salt length of every level
var costs = map[passhashx.SecurityLevel][5]int{
	passhashx.SecurityLevelHigh:       {20, 64 * 1024, 4, 32, 16},
	passhashx.SecurityLevelLow:        {32, 4 * 1024, 1, 32, 16},
	passhashx.SecurityLevelMobileHigh: {4, 37 * 1024, 1, 32, 16},
	passhashx.SecurityLevelMobileLow:  {8, 15 * 1024, 1, 32, 16},
}

var levels = []passhashx.SecurityLevel{passhashx.SecurityLevelHigh, passhashx.SecurityLevelLow, passhashx.SecurityLevelMobileHigh, passhashx.SecurityLevelMobileLow}

// short passwords and long ones, for which nothing is cut
func anyPassword(name string) []byte {
	return sym.Bytes(name, []int{0, 1, 2, 33, 100}[sym.Choose(name+".len", sym.Param("P", 4, 5))])
}

// C36_Verify hashes any password at every level and verifies it and others.
//
//sym:opt shards=4 native=no
func C36_Verify() {
	src := newSource()
	sl := levels[sym.Choose("level", 4)]
	pw := guard(anyPassword("pw"))
	h, err := passhashx.Hash(pw.arg(), sl)
	sym.Assert(err == nil && len(h) > 0, "any password is hashed at every level")
	sym.Assert(len(src.drawn) == 16, "16 bytes of salt are drawn from the random source")
	sym.Assert(len(clog.Argon2) == 1 && clog.Argon2[0] == costs[sl], "the Argon2id cost parameters are those of the level")
	sym.Assert(same(clog.Salts[0], src.drawn), "the salt is what was drawn")
	g := guard(h)
	sym.Assert(passhashx.Verify(pw.arg(), g.arg()) == nil, "a hash verifies with its password")
	sym.Assert(len(clog.Argon2) == 2 && clog.Argon2[1] == costs[sl] && same(clog.Salts[1], src.drawn), "it is verified under the parameters and the salt recorded in it")
	other := anyPassword("other")
	err = passhashx.Verify(other, g.arg())
	sym.Assert((err == nil) == same(other, pw.arg()), "it verifies with no other password")
	if err != nil {
		sym.Assert(err == passhashx.ErrHashMismatch, "another password is a mismatch")
		sym.Reach("mismatch")
	}
	sym.Assert(pw.intact() && g.intact(), "password and hash are not modified")
	first := append([]byte(nil), h...)
	src.drawn = nil
	h2, err := passhashx.Hash(pw.arg(), sl)
	sym.Assert(err == nil && len(src.drawn) == 16 && same(clog.Salts[len(clog.Salts)-1], src.drawn), "a second hash draws its own salt")
	sym.Assert(passhashx.Verify(pw.arg(), h2) == nil && same(h, first), "both hashes verify")
	sym.Reach("verified")
}

// C36_Levels gives any level, known or not.
//
//sym:opt native=no
func C36_Levels() {
	src := newSource()
	sl := passhashx.SecurityLevel(sym.Int16("level"))
	known := sl >= 1 && sl <= 4
	if sym.Bool("base64") {
		h, err := passhashx.HashBase64([]byte{1, 2}, sl)
		sym.Assert((err == nil) == known && (h != "") == known, "exactly the known levels are accepted")
	} else {
		h, err := passhashx.Hash([]byte{1, 2}, sl)
		sym.Assert((err == nil) == known && (len(h) > 0) == known, "exactly the known levels are accepted")
		sym.Assert(known || err == passhashx.ErrInvalidSecurityLevel, "an unknown level is reported as such")
	}
	if known {
		sym.Assert(clog.Argon2[0] == costs[sl], "a level has its own parameters")
		sym.Reach("known")
	} else {
		sym.Assert(len(clog.Argon2) == 0 && src.calls == 0, "nothing is hashed at an unknown level")
		sym.Reach("unknown")
	}
}

// C36_Recorded turns the parameter recorded in a hash into another one.
//
//sym:opt native=no
func C36_Recorded() {
	newSource()
	sl := levels[sym.Choose("level", 4)]
	h1, err := passhashx.Hash([]byte("pw"), sl)
	sym.Assert(err == nil, "hashing succeeds")
	other := levels[sym.Choose("other", 4)]
	h2, err := passhashx.Hash([]byte("pw"), other)
	sym.Assert(err == nil, "hashing succeeds")
	sym.Assert(len(h1) == len(h2) && (h1[0] == h2[0]) == (sl == other), "the hash records its level")
	if sl != other {
		sym.Assert(clog.Argon2[0] != clog.Argon2[1], "levels differ in their parameters")
		h1[0] = h2[0]
		sym.Assert(passhashx.Verify([]byte("pw"), h1) == passhashx.ErrHashMismatch, "a hash does not verify under another level's parameters")
		sym.Reach("other level")
	}
}

// C36_Failure makes the random source fail.
//
//sym:opt native=no
func C36_Failure() {
	src := newSource()
	src.fail, src.left = true, []int{0, 1, 8, 15}[sym.Choose("left", 4)]
	sl := levels[sym.Choose("level", 4)]
	h, err := passhashx.Hash(sym.Bytes("pw", 3), sl)
	sym.Assert(err != nil && len(h) == 0, "a failing random source is reported and no hash returned")
	s, err := passhashx.HashBase64(sym.Bytes("pw", 3), sl)
	sym.Assert(err != nil && s == "", "a failing random source is reported and no hash returned")
	sym.Assert(len(clog.Argon2) == 0, "nothing is hashed without salt")
	sym.Reach("failure")
}

// C36_Base64 does the same through the text form.
//
//sym:opt native=no shards=4
func C36_Base64() {
	src := newSource()
	sl := levels[sym.Choose("level", sym.Param("LV", 2, 4))]
	pw := sym.Bytes("pw", sym.Choose("len", 3))
	h, err := passhashx.HashBase64(pw, sl)
	sym.Assert(err == nil && h != "", "any password is hashed at every level")
	sym.Assert(same(clog.Salts[0], src.drawn) && len(src.drawn) == 16 && clog.Argon2[0] == costs[sl], "with fresh salt and the level's parameters")
	sym.Assert(passhashx.VerifyBase64(pw, h) == nil, "a hash verifies with its password")
	other := sym.Bytes("other", sym.Choose("other.len", 3))
	err = passhashx.VerifyBase64(other, h)
	sym.Assert((err == nil) == same(other, pw), "it verifies with no other password")
	sym.Reach("base64")
}

// stored checks the verdict on any stored bytes against the framing they
// claim: a parameter, two little-endian offsets, then salt and hash.
func stored(pw, data []byte) {
	g := guard(data)
	err := passhashx.Verify(pw, g.arg())
	sym.Assert(g.intact(), "verification does not modify the stored hash")
	n := uint64(len(data))
	valid := false
	var o1, o2 uint64
	if n >= 17 {
		o1, o2 = binary.LittleEndian.Uint64(data[1:]), binary.LittleEndian.Uint64(data[9:])
		valid = 17 <= o1 && o1 <= o2 && o2 <= n
	}
	switch {
	case !valid:
		sym.Assert(err == passhashx.ErrInvalidPassHash, "malformed framing is reported as invalid")
		sym.Reach("malformed")
	case data[0] > 3:
		sym.Assert(err == passhashx.ErrUnknownAlgorithm, "an unknown parameter is reported as an unknown algorithm")
		sym.Reach("unknown")
	default:
		sym.Assert(len(clog.Outs) > 0, "a well-formed hash is compared")
		k := len(clog.Outs) - 1
		sym.Assert(clog.Argon2[k] == [5]int{costs[levels[data[0]]][0], costs[levels[data[0]]][1], costs[levels[data[0]]][2], 32, int(o1 - 17)}, "with the parameters it names")
		sym.Assert(same(clog.Salts[k], data[17:o1]), "with the salt it carries")
		match := same(data[o1:o2], clog.Outs[k])
		if match {
			sym.Assert(err == nil, "the exact Argon2id output verifies")
			sym.Reach("match")
		} else {
			sym.Assert(err == passhashx.ErrHashMismatch, "anything else is a mismatch")
			sym.Reach("mismatch")
		}
	}
}

// C37_Short verifies any short byte string.
//
//sym:opt native=no shards=4
func C37_Short() {
	newSource()
	n := sym.Choose("n", sym.Param("N", 22, 27))
	data := sym.Bytes("data", n)
	err := passhashx.Verify([]byte("pw"), data)
	valid := false
	if n >= 17 {
		o1, o2 := binary.LittleEndian.Uint64(data[1:]), binary.LittleEndian.Uint64(data[9:])
		valid = 17 <= o1 && o1 <= o2 && o2 <= uint64(n)
	}
	if !valid {
		sym.Assert(err == passhashx.ErrInvalidPassHash, "malformed framing is reported as invalid")
		sym.Reach("malformed")
	} else if data[0] > 3 {
		sym.Assert(err == passhashx.ErrUnknownAlgorithm, "an unknown parameter is reported as an unknown algorithm")
		sym.Reach("unknown")
	} else {
		sym.Assert(err == passhashx.ErrHashMismatch, "a truncated hash is a mismatch")
		sym.Reach("mismatch")
	}
}

// C37_Framed verifies byte strings as long as real ones with any content and
// offsets around the real ones.
//
//sym:opt native=no shards=8
func C37_Framed() {
	newSource()
	salt := []int{0, 8, 16, 17}[sym.Choose("salt", 4)]
	hash := []int{0, 1, 31, 32, 33}[sym.Choose("hash", 5)]
	extra := sym.Choose("extra", 3) - 1
	n := 17 + salt + hash + extra
	if n < 17 {
		return
	}
	data := sym.Bytes("data", n)
	binary.LittleEndian.PutUint64(data[1:], uint64(17+salt))
	binary.LittleEndian.PutUint64(data[9:], uint64(17+salt+hash))
	stored(sym.Bytes("pw", sym.Choose("pw.len", 2)), data)
}

// C37_Tampered changes a hash that Hash made, in content or length.
//
//sym:opt native=no shards=4
func C37_Tampered() {
	newSource()
	pw := sym.Bytes("pw", 2)
	sl := levels[sym.Choose("level", 4)]
	h, err := passhashx.Hash(pw, sl)
	sym.Assert(err == nil, "hashing succeeds")
	switch sym.Choose("how", 3) {
	case 0: // truncated
		cut := h[:sym.Choose("cut", len(h))]
		sym.Assert(passhashx.Verify(pw, cut) == passhashx.ErrInvalidPassHash, "a truncated hash does not verify")
		sym.Reach("truncated")
	case 1: // one byte of salt or hash changed
		i := 17 + sym.Choose("at", len(h)-17)
		d := sym.Byte("delta")
		sym.Assume(d != 0)
		h[i] ^= d
		sym.Assert(passhashx.Verify(pw, h) == passhashx.ErrHashMismatch, "a changed salt or hash is a mismatch")
		sym.Reach("changed")
	case 2: // hash shortened with its offset kept consistent
		m := sym.Choose("len", 32)
		h = h[:33+m]
		binary.LittleEndian.PutUint64(h[9:], uint64(33+m))
		sym.Assert(passhashx.Verify(pw, h) == passhashx.ErrHashMismatch, "a shortened hash is a mismatch")
		sym.Reach("shortened")
	}
}

// C37_Text verifies any short text.
//
//sym:opt native=no shards=4
func C37_Text() {
	newSource()
	n := sym.Choose("n", sym.Param("N", 5, 7))
	err := passhashx.VerifyBase64([]byte("pw"), string(sym.Bytes("text", n)))
	sym.Assert(err != nil, "no short text verifies")
	sym.Reach("text")
}

// C37_Native runs the compiled code on framings around the limits, with any
// bytes and offsets.
//
//sym:opt shards=2
func C37_Native() {
	n := 15 + sym.Choose("n", 5)
	data := sym.Bytes("data", n)
	sym.Assume(n < 17 || data[0] > 3 || data[8] != 0 || data[16] != 0)
	err := passhashx.Verify([]byte("pw"), data)
	sym.Observe("err", err == passhashx.ErrInvalidPassHash, err == passhashx.ErrUnknownAlgorithm)
	sym.Assert(err != nil, "no such string verifies")
	sym.Reach("rejected")
}

// C36_Long hashes long passwords, which are not cut.
//
//sym:opt shards=4 native=no
func C36_Long() {
	newSource()
	sl := levels[sym.Choose("level", 4)]
	n := []int{32, 63, 64, 65, 72, 73, 128, 129, 256, 1000}[sym.Choose("len", 10)]
	pw := make([]byte, n)
	tail := sym.Bytes("tail", 2)
	copy(pw[n-2:], tail)
	h, err := passhashx.Hash(pw, sl)
	sym.Assert(err == nil && len(clog.Argon2) == 1 && clog.Argon2[0] == costs[sl], "any password is hashed at every level")
	sym.Assert(passhashx.Verify(pw, h) == nil, "a hash verifies with its password")
	other := append([]byte(nil), pw...)
	switch sym.Choose("how", 4) {
	case 0:
		other[n-1] ^= 1
	case 1:
		other = other[:n-1]
	case 2:
		other = append(other, 0)
	case 3:
		other[0] ^= 0x80
	}
	sym.Assert(passhashx.Verify(other, h) == passhashx.ErrHashMismatch, "it verifies with no other password")
	sym.Reach("long")
}

// C36_Concurrent hashes in two goroutines.
//
//sym:opt shards=2 native=no conc=1 ticks=0 race=1
func C36_Concurrent() {
	newSource()
	sl := levels[sym.Choose("level", 4)]
	var hs [2][]byte
	done := make(chan bool, 2)
	for g := 0; g < 2; g++ {
		g := g
		go func() {
			h, err := passhashx.Hash([]byte{byte(g)}, sl)
			sym.Assert(err == nil, "any password is hashed at every level")
			hs[g] = h
			done <- true
		}()
	}
	<-done
	<-done
	for g := 0; g < 2; g++ {
		sym.Assert(passhashx.Verify([]byte{byte(g)}, hs[g]) == nil, "a hash verifies with its password")
		sym.Assert(passhashx.Verify([]byte{byte(1 - g)}, hs[g]) == passhashx.ErrHashMismatch, "it verifies with no other password")
	}
	sym.Reach("concurrent")
}
