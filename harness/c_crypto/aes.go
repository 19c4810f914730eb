package c_crypto

import (
	"crypto/rand"
	"errors"
	"sync"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/zzverif/clog"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

// source is the system's random source: arbitrary bytes, every byte recorded.
type source struct {
	mu    sync.Mutex
	fail  bool
	left  int // bytes delivered before it fails
	step  int // bytes delivered at once, if positive
	drawn []byte
	calls int
}

var errSource = errors.New("no entropy")

func (s *source) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls++
	n, err := len(b), error(nil)
	if s.step > 0 && n > s.step {
		n = s.step
	}
	if s.fail {
		if n > s.left {
			n, err = s.left, errSource
		}
		s.left -= n
	}
	r := sym.Bytes("iv", n)
	copy(b, r)
	s.drawn = append(s.drawn, r...)
	return n, err
}

func newSource() *source {
	s := &source{}
	rand.Reader = s
	return s
}

func same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	d := byte(0)
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

type mode struct {
	enc, dec func(data, key []byte) ([]byte, error)
	iv, tag  int
	blocks   bool
}

var modes = []mode{
	{aesx.EncryptCTR, aesx.DecryptCTR, 16, 0, false},
	{aesx.EncryptGCM, aesx.DecryptGCM, 12, 16, false},
	{aesx.EncryptCBC, aesx.DecryptCBC, 16, 0, true},
}

// guarded is an argument with spare capacity behind it that must stay as it is.
type guarded struct{ all, orig []byte }

func guard(b []byte) *guarded {
	all := append(append([]byte(nil), b...), 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5)
	return &guarded{all, append([]byte(nil), all...)}
}
func (g *guarded) arg() []byte { return g.all[:len(g.all)-20] }
func (g *guarded) intact() bool {
	return same(g.all, g.orig)
}

// sizes of messages, as far as the mode takes them
func message(m mode, quick, thorough int) []byte {
	n := sym.Choose("len", sym.Param("L", quick, thorough))
	if m.blocks {
		n *= 16
	} else if n > 2 {
		n = []int{15, 16, 17, 31, 32, 33, 47, 48, 49, 64}[n-3]
	}
	return sym.Bytes("m", n)
}

func anyKey(name string) []byte {
	return sym.Bytes(name, []int{0, 1, 16, 32, 33}[sym.Choose(name+".len", sym.Param("K", 5, 5))])
}

// C33_RoundTrip encrypts any message under any key, twice, and decrypts.
//
//sym:opt shards=6 quick.param.L=6 thorough.param.L=13
func C33_RoundTrip() {
	m := modes[sym.Choose("mode", 3)]
	key := guard(anyKey("key"))
	msg := message(m, 6, 13)
	in := guard(msg)
	src := newSource()
	c1, err := m.enc(in.arg(), key.arg())
	sym.Assert(err == nil, "any message of an allowed length is encrypted")
	sym.Assert(src.calls > 0 && len(src.drawn) == m.iv, "the full-length IV is drawn from the random source")
	sym.Assert(len(c1) == m.iv+len(msg)+m.tag, "the output is IV and ciphertext")
	sym.Assert(same(c1[:m.iv], src.drawn), "the output begins with the IV drawn for this call")
	first := append([]byte(nil), c1...)
	src.drawn = nil
	c2, err := m.enc(in.arg(), key.arg())
	sym.Assert(err == nil && len(c2) == len(c1), "the message can be encrypted again")
	sym.Assert(len(src.drawn) == m.iv && same(c2[:m.iv], src.drawn), "a second encryption draws its own IV")
	sym.Assert(in.intact() && key.intact(), "encryption does not modify the message or the key")
	sym.Assert(same(c1, first), "a later encryption does not change earlier output")
	ct := guard(c1)
	for i := 0; i < 2; i++ {
		p, err := m.dec(ct.arg(), key.arg())
		sym.Assert(err == nil, "what was encrypted decrypts")
		sym.Assert(same(p, msg), "decryption returns exactly the message")
	}
	p, err := m.dec(c2, key.arg())
	sym.Assert(err == nil && same(p, msg), "the second ciphertext decrypts to the message as well")
	sym.Assert(key.intact() && in.intact(), "decryption does not modify the key or the message")
	if sym.Symbolic() {
		sym.Assert(len(clog.AESKeys) == 5, "one cipher per call")
		for _, k := range clog.AESKeys {
			sym.Assert(same(k, clog.AESKeys[0]), "the cipher key depends on the key alone")
		}
	}
	sym.Reach("round-trip")
}

// C33_Failure makes the random source fail.
//
//sym:opt native=no
func C33_Failure() {
	m := modes[sym.Choose("mode", 3)]
	src := newSource()
	src.fail, src.left = true, []int{0, 1, 11}[sym.Choose("left", 3)]
	c, err := m.enc(sym.Bytes("m", []int{0, 16, 32}[sym.Choose("len", 3)]), sym.Bytes("key", 16))
	sym.Assert(err != nil, "a failing random source is reported")
	sym.Assert(len(c) == 0, "no ciphertext is returned without a random IV")
	sym.Reach("failure")
}

// C33_Short lets the random source deliver a few bytes at a time.
//
//sym:opt native=no
func C33_Short() {
	m := modes[sym.Choose("mode", 3)]
	src := newSource()
	src.step = 1 + sym.Choose("step", 7)
	msg, key := sym.Bytes("m", 16), sym.Bytes("key", 16)
	c, err := m.enc(msg, key)
	sym.Assert(err == nil && len(c) == m.iv+16+m.tag, "a source that delivers little at a time does")
	sym.Assert(len(src.drawn) == m.iv && same(c[:m.iv], src.drawn), "the whole IV is random")
	p, err := m.dec(c, key)
	sym.Assert(err == nil && same(p, msg), "decryption returns the message")
	sym.Reach("short")
}

// C33_WholeKey uses two keys that differ somewhere.
//
//sym:opt shards=4
func C33_WholeKey() {
	m := modes[sym.Choose("mode", 3)]
	k1, k2 := anyKey("key"), anyKey("other")
	sym.Assume(!same(k1, k2))
	newSource()
	msg := sym.Bytes("m", 16)
	c1, err := m.enc(msg, k1)
	sym.Assert(err == nil, "encryption succeeds")
	if sym.Symbolic() {
		n := len(clog.AESKeys)
		p, err := m.dec(c1, k2)
		sym.Assert(len(clog.AESKeys) > n && !same(clog.AESKeys[n], clog.AESKeys[n-1]), "different keys give different cipher keys")
		if m.tag > 0 {
			sym.Assert(err != nil && len(p) == 0, "another key does not open the message")
		}
		_, err = m.enc(msg, k2)
		sym.Assert(err == nil && !same(clog.AESKeys[len(clog.AESKeys)-1], clog.AESKeys[n-1]), "different keys give different cipher keys")
	} else {
		p, err := m.dec(c1, k2)
		sym.Assert(err != nil || !same(p, msg), "another key does not recover the message")
	}
	sym.Reach("keys")
}

// C34_Arbitrary decrypts any bytes with any key.
//
//sym:opt shards=6 quick.param.N=36 thorough.param.N=66
func C34_Arbitrary() {
	m := modes[sym.Choose("mode", 3)]
	n := sym.Choose("n", sym.Param("N", 36, 66))
	data := guard(sym.Bytes("data", n))
	key := guard(sym.Bytes("key", []int{0, 5, 32}[sym.Choose("key.len", 3)]))
	newSource()
	p, err := m.dec(data.arg(), key.arg())
	sym.Observe("err", err != nil)
	if err == nil {
		sym.Assert(n >= m.iv+m.tag && len(p) == n-m.iv-m.tag, "a plaintext is returned for a whole ciphertext only")
		sym.Assert(m.tag == 0, "bytes that were never encrypted do not authenticate")
		sym.Assert(!m.blocks || n%16 == 0, "CBC decrypts whole blocks only")
		sym.Reach("decrypted")
	} else {
		sym.Assert(len(p) == 0, "no plaintext comes with an error")
		sym.Assert(m.tag > 0 || n < m.iv || m.blocks && n%16 != 0, "input with an IV and whole blocks is decrypted")
		sym.Reach("rejected")
	}
	sym.Assert(data.intact() && key.intact(), "decryption does not modify its input")
}

// C34_Misaligned encrypts messages of any length in CBC mode.
//
//sym:opt quick.param.N=34 thorough.param.N=66
func C34_Misaligned() {
	n := sym.Choose("n", sym.Param("N", 34, 66))
	newSource()
	c, err := aesx.EncryptCBC(sym.Bytes("m", n), sym.Bytes("key", 3))
	if n%16 != 0 {
		sym.Assert(err != nil && len(c) == 0, "a message that is not a whole number of blocks is refused")
		sym.Reach("refused")
	} else {
		sym.Assert(err == nil && len(c) == 16+n, "a whole number of blocks is encrypted")
		sym.Reach("encrypted")
	}
}

// C34_Forgery changes a GCM ciphertext, its nonce, its length or the key in
// any way.
//
//sym:opt shards=4
func C34_Forgery() {
	newSource()
	msg := sym.Bytes("m", []int{0, 1, 17}[sym.Choose("len", 3)])
	key := sym.Bytes("key", 8)
	c, err := aesx.EncryptGCM(msg, key)
	sym.Assert(err == nil, "encryption succeeds")
	delta := sym.Choose("delta", 4)
	n := len(c) + []int{0, -1, 1, -16}[delta]
	forged := sym.Bytes("forged", n)
	key2 := sym.Bytes("key2", 7+sym.Choose("key2.len", 3))
	p, err := aesx.DecryptGCM(forged, key2)
	if err == nil {
		sym.Assert(same(forged, c) && same(key, key2), "only an unmodified nonce and ciphertext under the same key authenticates")
		sym.Assert(same(p, msg), "and it yields the message")
		sym.Reach("accepted")
	} else {
		sym.Assert(!(same(forged, c) && same(key, key2)), "the ciphertext itself is accepted")
		sym.Reach("forgery rejected")
	}
}

// C33_Long encrypts long messages and decrypts them.
//
//sym:opt back=20000 depth=2 shards=4
func C33_Long() {
	which := sym.Choose("mode", 3)
	m := modes[which]
	ns := [][]int{
		{48, 64, 65, 96, 128, 192},
		{48, 64, 65, 96, 128, 256, 272, 512, 1024, 1040},
		{48, 64, 80, 96, 128},
	}[which]
	n := ns[sym.Choose("n", len(ns))]
	if !m.blocks {
		n += sym.Choose("off", 3) - 1
	}
	key := guard(sym.Bytes("key", []int{1, 64, 100}[sym.Choose("key.len", sym.Param("K", 2, 3))]))
	msg := sym.Bytes("m", n)
	in := guard(msg)
	src := newSource()
	c, err := m.enc(in.arg(), key.arg())
	sym.Assert(err == nil && len(c) == m.iv+n+m.tag, "the output is IV and ciphertext")
	sym.Assert(len(src.drawn) == m.iv && same(c[:m.iv], src.drawn), "the output begins with the IV drawn for this call")
	sym.Assert(in.intact() && key.intact(), "encryption does not modify the message or the key")
	p, err := m.dec(c, key.arg())
	sym.Assert(err == nil && len(p) == n, "what was encrypted decrypts")
	for i := range p {
		sym.Assert(p[i] == msg[i], "decryption returns exactly the message")
	}
	sym.Reach("round-trip")
}

// C34_Long decrypts long ciphertexts with something changed or cut off.
//
//sym:opt back=20000 depth=2 shards=4
func C34_Long() {
	newSource()
	n := []int{64, 100, 256}[sym.Choose("n", 3)]
	msg, key := sym.Bytes("m", n), sym.Bytes("key", 8)
	c, err := aesx.EncryptGCM(msg, key)
	sym.Assert(err == nil, "encryption succeeds")
	cut := []int{0, 1, 12, 16, n}[sym.Choose("cut", 5)]
	if cut == 0 {
		i := []int{0, 11, 12, 12 + n/2, 12 + n - 1, 12 + n, len(c) - 1}[sym.Choose("at", 7)]
		d := sym.Byte("d")
		sym.Assume(d != 0)
		c[i] ^= d
	}
	p, err := aesx.DecryptGCM(c[:len(c)-cut], key)
	sym.Assert(err != nil && len(p) == 0, "a changed GCM message is refused")
	b := sym.Bytes("data", 16+n)
	for _, f := range []func(data, key []byte) ([]byte, error){aesx.DecryptCTR, aesx.DecryptCBC} {
		p, err = f(b, key)
		sym.Assert((err == nil) == (len(p) > 0), "no plaintext comes with an error")
	}
	sym.Reach("refused")
}
