// Package ref is the executable reference model: an implementation of the two
// sharing schemes and of the generator's stream that shares no code with the
// repository. GF(2^8) is computed bit by bit from the field polynomial.
package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/klauspost/reedsolomon"
)

const poly = 0x11d

var mul [256][256]byte
var inv [256]byte

func mulBits(a, b byte) byte {
	var r, x uint16 = 0, uint16(a)
	for i := 0; i < 8; i++ {
		if b>>uint(i)&1 == 1 {
			r ^= x
		}
		x <<= 1
		if x&0x100 != 0 {
			x ^= poly
		}
	}
	return byte(r)
}

func init() {
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			m := mulBits(byte(a), byte(b))
			mul[a][b] = m
			if m == 1 {
				inv[a] = byte(b)
			}
		}
	}
}

// Mul multiplies in GF(2^8)/0x11d.
func Mul(a, b byte) byte { return mul[a][b] }

// Basis returns the matrix M with coef[j] = sum_i M[j][i]*y[i] for the unique
// polynomial of degree < len(xs) through (xs[i], y[i]).
func Basis(xs []byte) ([][]byte, error) {
	k := len(xs)
	// master polynomial prod (X + x_i), coefficients low to high
	p := make([]byte, k+1)
	p[0] = 1
	for n, x := range xs {
		for j := n + 1; j >= 1; j-- {
			p[j] = p[j-1] ^ mul[p[j]][x]
		}
		p[0] = mul[p[0]][x]
	}
	m := make([][]byte, k)
	for j := range m {
		m[j] = make([]byte, k)
	}
	q := make([]byte, k)
	for i, x := range xs {
		// q = p / (X + x_i) by synthetic division
		q[k-1] = p[k]
		for j := k - 2; j >= 0; j-- {
			q[j] = p[j+1] ^ mul[q[j+1]][x]
		}
		d := Eval(q, x)
		if d == 0 {
			return nil, fmt.Errorf("point %d occurs twice", x)
		}
		s := inv[d]
		for j := 0; j < k; j++ {
			m[j][i] = mul[q[j]][s]
		}
	}
	return m, nil
}

// Eval evaluates a polynomial given by its coefficients, lowest first.
func Eval(c []byte, x byte) byte {
	var r byte
	for i := len(c) - 1; i >= 0; i-- {
		r = mul[r][x] ^ c[i]
	}
	return r
}

// Coefs recovers, per secret byte, the coefficients of the polynomial through
// the given shares (value bytes followed by the point).
func Coefs(shares [][]byte) ([][]byte, error) {
	k := len(shares)
	L := len(shares[0]) - 1
	xs := make([]byte, k)
	for i, s := range shares {
		xs[i] = s[L]
	}
	m, err := Basis(xs)
	if err != nil {
		return nil, err
	}
	out := make([][]byte, L)
	buf := make([]byte, L*k)
	for p := 0; p < L; p++ {
		c := buf[p*k : (p+1)*k]
		for j := 0; j < k; j++ {
			var r byte
			row := m[j]
			for i := 0; i < k; i++ {
				r ^= mul[row[i]][shares[i][p]]
			}
			c[j] = r
		}
		out[p] = c
	}
	return out, nil
}

// Combine is the reference reconstruction of a Shamir secret.
func Combine(shares [][]byte) ([]byte, error) {
	k := len(shares)
	L := len(shares[0]) - 1
	xs := make([]byte, k)
	for i, s := range shares {
		xs[i] = s[L]
	}
	m, err := Basis(xs)
	if err != nil {
		return nil, err
	}
	out := make([]byte, L)
	for p := range out {
		var r byte
		for i := 0; i < k; i++ {
			r ^= mul[m[0][i]][shares[i][p]]
		}
		out[p] = r
	}
	return out, nil
}

// CheckDegree verifies that all shares lie, at the given positions, on one
// polynomial of degree < k whose constant term is the secret byte. It returns
// a description of the first deviation.
func CheckDegree(shares [][]byte, secret []byte, k int, positions []int) string {
	L := len(secret)
	xs := make([]byte, k)
	for i := 0; i < k; i++ {
		xs[i] = shares[i][L]
	}
	m, err := Basis(xs)
	if err != nil {
		return err.Error()
	}
	c := make([]byte, k)
	for _, p := range positions {
		for j := 0; j < k; j++ {
			var r byte
			for i := 0; i < k; i++ {
				r ^= mul[m[j][i]][shares[i][p]]
			}
			c[j] = r
		}
		if c[0] != secret[p] {
			return fmt.Sprintf("byte %d: the first %d shares determine %#02x, the secret has %#02x", p, k, c[0], secret[p])
		}
		for i := k; i < len(shares); i++ {
			if Eval(c, shares[i][L]) != shares[i][p] {
				return fmt.Sprintf("byte %d: share %d (point %d) is not on the polynomial of degree %d through the first %d shares", p, i, shares[i][L], k-1, k)
			}
		}
	}
	return ""
}

const (
	KeyLen  = 16
	MetaLen = 20
)

// OFB en- or decrypts with AES-OFB and a zero IV.
func OFB(in, key []byte) ([]byte, error) {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	out := make([]byte, len(in))
	var fb [16]byte
	for i := range in {
		if i%16 == 0 {
			b.Encrypt(fb[:], fb[:])
		}
		out[i] = in[i] ^ fb[i%16]
	}
	return out, nil
}

// SSMS is a decoded SSMS share set.
type SSMS struct {
	Key    []byte
	Len    int
	Coefs  [][]byte // per metadata byte
	Secret []byte
}

// DecodeSSMS decodes k or more SSMS shares of an (n,k) sharing.
func DecodeSSMS(shares [][]byte, n, k int) (*SSMS, error) {
	if len(shares) < k {
		return nil, errors.New("too few shares")
	}
	meta := make([][]byte, k)
	enc := make([][]byte, n)
	for i, s := range shares {
		if len(s) < MetaLen+3 {
			return nil, errors.New("short share")
		}
		if i < k {
			meta[i] = s[:MetaLen+1]
		}
		id := int(s[len(s)-1])
		if id >= n {
			return nil, fmt.Errorf("part-id %d of %d parts", id, n)
		}
		enc[id] = append([]byte(nil), s[MetaLen+1:len(s)-1]...)
	}
	co, err := Coefs(meta)
	if err != nil {
		return nil, err
	}
	rec := make([]byte, MetaLen)
	for i := range rec {
		rec[i] = co[i][0]
	}
	d := &SSMS{Key: rec[:KeyLen], Len: int(binary.LittleEndian.Uint32(rec[KeyLen:])), Coefs: co}
	rs, err := RS(n, k)
	if err != nil {
		return nil, err
	}
	if err := rs.ReconstructData(enc); err != nil {
		return nil, err
	}
	var ct []byte
	for i := 0; i < k; i++ {
		ct = append(ct, enc[i]...)
	}
	if d.Len < 0 || d.Len > len(ct) {
		return d, fmt.Errorf("recorded length %d exceeds the %d ciphertext bytes", d.Len, len(ct))
	}
	d.Secret, err = OFB(ct[:d.Len], d.Key)
	return d, err
}

// CheckCode verifies that all n SSMS shards form one codeword.
func CheckCode(shares [][]byte, n, k int) string {
	enc := make([][]byte, n)
	for _, s := range shares {
		id := int(s[len(s)-1])
		if id >= n {
			return fmt.Sprintf("part-id %d of %d parts", id, n)
		}
		enc[id] = s[MetaLen+1 : len(s)-1]
	}
	rs, err := RS(n, k)
	if err != nil {
		return err.Error()
	}
	have := make([][]byte, n)
	for i := 0; i < k; i++ {
		if enc[i] == nil {
			return fmt.Sprintf("part %d missing", i)
		}
		have[i] = append([]byte(nil), enc[i]...)
	}
	if n > k {
		if err := rs.Reconstruct(have); err != nil {
			return err.Error()
		}
	}
	for i := k; i < n; i++ {
		if !bytes.Equal(have[i], enc[i]) {
			return fmt.Sprintf("part %d is not the erasure code of the first %d parts", i, k)
		}
	}
	return ""
}

// EncodeSSMS produces shares as the original release would, from explicit
// randomness: key and per-byte coefficients come from draw.
func EncodeSSMS(secret []byte, n, k int, draw func(n int) []byte) ([][]byte, error) {
	key := draw(KeyLen)
	ct, err := OFB(secret, key)
	if err != nil {
		return nil, err
	}
	rs, err := RS(n, k)
	if err != nil {
		return nil, err
	}
	per := (len(ct) + k - 1) / k
	padded := make([]byte, per*n)
	copy(padded, ct)
	enc := make([][]byte, n)
	for i := range enc {
		enc[i] = padded[i*per : (i+1)*per]
	}
	if err := rs.Encode(enc); err != nil {
		return nil, err
	}
	rec := make([]byte, MetaLen)
	copy(rec, key)
	binary.LittleEndian.PutUint32(rec[KeyLen:], uint32(len(ct)))
	meta := EncodeShamir(rec, n, k, draw)
	out := make([][]byte, n)
	for i := range out {
		out[i] = append(append(append([]byte{}, meta[i]...), enc[i]...), byte(i))
	}
	return out, nil
}

// EncodeShamir makes a Shamir sharing from explicit randomness.
func EncodeShamir(secret []byte, n, k int, draw func(n int) []byte) [][]byte {
	perm := make([]byte, 255)
	for i := range perm {
		perm[i] = byte(i) + 1
	}
	r := draw(510)
	for i := 254; i > 0; i-- {
		j := int(binary.LittleEndian.Uint16(r[2*i:])) % (i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	out := make([][]byte, n)
	for i := range out {
		out[i] = make([]byte, len(secret)+1)
		out[i][len(secret)] = perm[i]
	}
	for p, s := range secret {
		c := append([]byte{s}, draw(k-1)...)
		for i := range out {
			out[i][p] = Eval(c, perm[i])
		}
	}
	return out
}

var rsCache = map[[2]int]reedsolomon.Encoder{}

// RS returns the erasure code of the original release.
func RS(n, k int) (reedsolomon.Encoder, error) {
	if e, ok := rsCache[[2]int{n, k}]; ok {
		return e, nil
	}
	e, err := reedsolomon.New(k, n-k)
	if err != nil {
		return nil, err
	}
	if len(rsCache) > 64 {
		rsCache = map[[2]int]reedsolomon.Encoder{}
	}
	rsCache[[2]int{n, k}] = e
	return e, nil
}

// CTR is the AES-128-CTR keystream [off, off+n) for keyIV (16+16 bytes).
func CTR(keyIV []byte, off uint64, n int) []byte {
	b, err := aes.NewCipher(keyIV[:16])
	if err != nil {
		panic(err)
	}
	iv := append([]byte(nil), keyIV[16:32]...)
	blk := off / 16
	// add blk to the big-endian counter
	var carry uint64 = blk
	for i := 15; i >= 0 && carry > 0; i-- {
		carry += uint64(iv[i])
		iv[i] = byte(carry)
		carry >>= 8
	}
	skip := int(off % 16)
	out := make([]byte, n+skip)
	cipher.NewCTR(b, iv).XORKeyStream(out, out)
	return out[skip:]
}
