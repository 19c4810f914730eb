package models

import (
	"crypto/cipher"
	"crypto/rand"
	"encoding/base64"
	"errors"
	"hash"
	"io"

	"golang.org/x/crypto/bcrypt"

	"github.com/unsafe-risk/utilx/zzverif/clog"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

// ---- ideal cryptography
//
// Hashes are collision-free functions, a block cipher is an arbitrary
// permutation per key, an AEAD opens exactly what was sealed. What is drawn,
// which keys reach the cipher and which cost parameters reach the password
// hash is recorded for the harnesses.

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func eq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	d := byte(0)
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

//sym:model crypto/rand.Read
func cryptoRandRead(b []byte) (int, error) { return io.ReadFull(rand.Reader, b) }

func to32(b []byte) (r [32]byte) { copy(r[:], b); return }

//sym:model crypto/sha256.Sum256
func sha256Sum(data []byte) [32]byte { return to32(sym.UF("sha256", 32, 1, data)) }

//sym:model crypto/sha256.New
func sha256New() hash.Hash { return &hashState{"sha256", 32, nil} }

//sym:model crypto/sha512.Sum512_256
func sha512256Sum(data []byte) [32]byte { return to32(sym.UF("sha512_256", 32, 1, data)) }

//sym:model crypto/sha512.Sum512
func sha512Sum(data []byte) (r [64]byte) {
	copy(r[:], sym.UF("sha512", 64, 1, data))
	return
}

//sym:model crypto/sha1.Sum
func sha1Sum(data []byte) (r [20]byte) {
	copy(r[:], sym.UF("sha1", 20, 1, data))
	return
}

//sym:model crypto/md5.Sum
func md5Sum(data []byte) (r [16]byte) {
	copy(r[:], sym.UF("md5", 16, 1, data))
	return
}

type hashState struct {
	name string
	size int
	buf  []byte
}

func (h *hashState) Write(b []byte) (int, error) { h.buf = append(h.buf, b...); return len(b), nil }
func (h *hashState) Sum(b []byte) []byte         { return append(b, sym.UF(h.name, h.size, 1, h.buf)...) }
func (h *hashState) Reset()                      { h.buf = nil }
func (h *hashState) Size() int                   { return h.size }
func (h *hashState) BlockSize() int              { return 64 }

//sym:model crypto/subtle.ConstantTimeCompare
func constantTimeCompare(a, b []byte) int {
	if eq(a, b) {
		return 1
	}
	return 0
}

// aesBlock is an arbitrary permutation of 16-byte blocks for every key.
type aesBlock struct{ key []byte }

type keySizeError int

func (k keySizeError) Error() string { return "crypto/aes: invalid key size" }

//sym:model crypto/aes.NewCipher
func aesNewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
	default:
		return nil, keySizeError(len(key))
	}
	clog.AESKeys = append(clog.AESKeys, clone(key))
	return &aesBlock{clone(key)}, nil
}

func (a *aesBlock) BlockSize() int { return 16 }

func (a *aesBlock) Encrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	in := clone(src[:16])
	out := sym.UF("aes.enc", 16, 0, a.key, in)
	sym.Assume(eq(sym.UF("aes.dec", 16, 0, a.key, out), in))
	copy(dst, out)
}

func (a *aesBlock) Decrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	in := clone(src[:16])
	out := sym.UF("aes.dec", 16, 0, a.key, in)
	sym.Assume(eq(sym.UF("aes.enc", 16, 0, a.key, out), in))
	copy(dst, out)
}

// inexact reports whether two buffers overlap without being the same.
func inexact(a, b []byte) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	for i := 1; i < len(b); i++ {
		if &a[0] == &b[i] {
			return true
		}
	}
	for i := 1; i < len(a); i++ {
		if &b[0] == &a[i] {
			return true
		}
	}
	return false
}

type cbc struct {
	b   cipher.Block
	iv  []byte
	dec bool
}

//sym:model crypto/cipher.NewCBCEncrypter
func newCBCEncrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBCEncrypter: IV length must equal block size")
	}
	return &cbc{b, clone(iv), false}
}

//sym:model crypto/cipher.NewCBCDecrypter
func newCBCDecrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBCDecrypter: IV length must equal block size")
	}
	return &cbc{b, clone(iv), true}
}

func (c *cbc) BlockSize() int { return c.b.BlockSize() }

func (c *cbc) CryptBlocks(dst, src []byte) {
	n := c.b.BlockSize()
	if len(src)%n != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	if inexact(dst[:len(src)], src) {
		panic("crypto/cipher: invalid buffer overlap")
	}
	for i := 0; i < len(src); i += n {
		in := clone(src[i : i+n])
		out := make([]byte, n)
		if c.dec {
			c.b.Decrypt(out, in)
			for j := range out {
				out[j] ^= c.iv[j]
			}
			c.iv = in
		} else {
			for j := range in {
				in[j] ^= c.iv[j]
			}
			c.b.Encrypt(out, in)
			c.iv = out
		}
		copy(dst[i:], out)
	}
}

type ctr struct {
	b    cipher.Block
	ctr  []byte
	left []byte
}

//sym:model crypto/cipher.NewCTR
func newCTR(b cipher.Block, iv []byte) cipher.Stream {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCTR: IV length must equal block size")
	}
	return &ctr{b: b, ctr: clone(iv)}
}

func (c *ctr) XORKeyStream(dst, src []byte) {
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	if inexact(dst[:len(src)], src) {
		panic("crypto/cipher: invalid buffer overlap")
	}
	for i := range src {
		if len(c.left) == 0 {
			c.left = make([]byte, len(c.ctr))
			c.b.Encrypt(c.left, c.ctr)
			carry := uint16(1)
			for j := len(c.ctr) - 1; j >= 0; j-- {
				s := uint16(c.ctr[j]) + carry
				c.ctr[j] = byte(s)
				carry = s >> 8
			}
		}
		dst[i] = src[i] ^ c.left[0]
		c.left = c.left[1:]
	}
}

type sealed struct{ key, nonce, plain, ad, out []byte }

var seals []sealed

type gcm struct {
	key        []byte
	nonce, tag int
}

func newGCM(b cipher.Block, nonce, tag int) (cipher.AEAD, error) {
	a, ok := b.(*aesBlock)
	if !ok {
		return nil, errors.New("cipher: unknown block cipher")
	}
	if tag < 12 || tag > 16 {
		return nil, errors.New("cipher: incorrect tag size given to GCM")
	}
	if nonce <= 0 {
		return nil, errors.New("cipher: the nonce can't have zero length")
	}
	return &gcm{a.key, nonce, tag}, nil
}

//sym:model crypto/cipher.NewGCM
func cipherNewGCM(b cipher.Block) (cipher.AEAD, error) { return newGCM(b, 12, 16) }

//sym:model crypto/cipher.NewGCMWithNonceSize
func cipherNewGCMNonce(b cipher.Block, n int) (cipher.AEAD, error) { return newGCM(b, n, 16) }

//sym:model crypto/cipher.NewGCMWithTagSize
func cipherNewGCMTag(b cipher.Block, n int) (cipher.AEAD, error) { return newGCM(b, 12, n) }

func (g *gcm) NonceSize() int { return g.nonce }
func (g *gcm) Overhead() int  { return g.tag }

func (g *gcm) Seal(dst, nonce, plain, ad []byte) []byte {
	if len(nonce) != g.nonce {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	nonce, plain, ad = clone(nonce), clone(plain), clone(ad)
	var out []byte
	for i := 0; i < len(plain); i++ {
		if i%16 == 0 {
			out = append(out, sym.UF("gcm.stream", 16, 0, g.key, nonce, []byte{byte(i / 16)})...)
		}
	}
	out = out[:len(plain)]
	for i := range out {
		out[i] ^= plain[i]
	}
	out = append(out, sym.UF("gcm.tag", 16, 0, g.key, nonce, clone(out), ad)[:g.tag]...)
	seals = append(seals, sealed{g.key, nonce, plain, ad, clone(out)})
	return append(dst, out...)
}

var errOpen = errors.New("cipher: message authentication failed")

func (g *gcm) Open(dst, nonce, ct, ad []byte) ([]byte, error) {
	if len(nonce) != g.nonce {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	if len(ct) < g.tag {
		return nil, errOpen
	}
	for i := len(seals) - 1; i >= 0; i-- {
		s := seals[i]
		if len(s.out) == len(ct) && len(s.nonce) == len(nonce) && len(s.key) == len(g.key) && len(s.ad) == len(ad) &&
			eq(s.key, g.key) && eq(s.nonce, nonce) && eq(s.ad, ad) && eq(s.out, ct) {
			return append(dst, s.plain...), nil
		}
	}
	return nil, errOpen
}

// ---- password hashes

func le(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

//sym:model golang.org/x/crypto/argon2.IDKey
func argon2IDKey(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	if time < 1 {
		panic("argon2: number of rounds too small")
	}
	if threads < 1 {
		panic("argon2: parallelism degree too low")
	}
	clog.Argon2 = append(clog.Argon2, [5]int{int(time), int(memory), int(threads), int(keyLen), len(salt)})
	n := int(sym.Concrete(int(keyLen)))
	out := sym.UF("argon2id", n, 1, password, salt, le(time), le(memory), []byte{threads}, le(keyLen))
	clog.Salts = append(clog.Salts, clone(salt))
	clog.Outs = append(clog.Outs, clone(out))
	return out
}

//sym:model golang.org/x/crypto/argon2.Key
func argon2Key(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	n := int(sym.Concrete(int(keyLen)))
	return sym.UF("argon2i", n, 1, password, salt, le(time), le(memory), []byte{threads}, le(keyLen))
}

// bcryptHash is the 31 characters bcrypt computes: it looks at no more than
// 72 bytes of the password.
func bcryptHash(password, salt []byte, cost int) []byte {
	if len(password) > 72 {
		password = password[:72]
	}
	return sym.UF("bcrypt", 31, 1, password, salt, []byte{byte(cost)})
}

//sym:model golang.org/x/crypto/bcrypt.GenerateFromPassword
func bcryptGenerate(password []byte, cost int) ([]byte, error) {
	if cost < bcrypt.MinCost {
		cost = bcrypt.DefaultCost
	}
	if cost > bcrypt.MaxCost {
		return nil, bcrypt.InvalidCostError(cost)
	}
	salt := make([]byte, 16)
	if _, err := io.ReadFull(rand.Reader, salt); err != nil {
		return nil, err
	}
	clog.Bcrypt++
	enc := sym.UF("bcrypt.salt", 22, 1, salt)
	sym.Assume(bcryptText(enc))
	out := []byte{'$', '2', 'a', '$', '0' + byte(cost/10), '0' + byte(cost%10), '$'}
	out = append(out, enc...)
	return append(out, bcryptHash(password, enc, cost)...), nil
}

func bcryptParse(h []byte) (salt, hash []byte, cost int, err error) {
	if len(h) < 59 {
		return nil, nil, 0, bcrypt.ErrHashTooShort
	}
	if h[0] != '$' {
		return nil, nil, 0, bcrypt.InvalidHashPrefixError(h[0])
	}
	if h[1] > '2' {
		return nil, nil, 0, bcrypt.HashVersionTooNewError(h[1])
	}
	if h[2] != '$' {
		h = h[4:]
	} else {
		h = h[3:]
	}
	if h[0] < '0' || h[0] > '9' || h[1] < '0' || h[1] > '9' {
		return nil, nil, 0, errors.New("strconv.Atoi: invalid syntax")
	}
	cost = int(h[0]-'0')*10 + int(h[1]-'0')
	if cost < bcrypt.MinCost || cost > bcrypt.MaxCost {
		return nil, nil, 0, bcrypt.InvalidCostError(cost)
	}
	h = h[3:]
	return h[:22], h[22:], cost, nil
}

// bcryptText reports whether a salt can be decoded.
func bcryptText(b []byte) bool {
	bad := byte(0)
	for _, c := range b {
		x := byte(1)
		if c-'.' < 12 || c-'A' < 26 || c-'a' < 26 { // . / 0-9 A-Z a-z
			x = 0
		}
		bad |= x
	}
	return bad == 0
}

//sym:model golang.org/x/crypto/bcrypt.CompareHashAndPassword
func bcryptCompare(h, password []byte) error {
	salt, hash, cost, err := bcryptParse(h)
	if err != nil {
		return err
	}
	if !bcryptText(salt) {
		return base64.CorruptInputError(0)
	}
	if !eq(hash, bcryptHash(password, salt, cost)) {
		return bcrypt.ErrMismatchedHashAndPassword
	}
	return nil
}

//sym:model golang.org/x/crypto/bcrypt.Cost
func bcryptCost(h []byte) (int, error) {
	_, _, cost, err := bcryptParse(h)
	return cost, err
}
