// Package aesctrat replaces github.com/starius/aesctrat in instrumented code.
// By default it calls the real package; in biased runs the keystream is a
// position-addressable stand-in in which edge bytes and repeats are frequent
// (any byte string is a possible keystream of an ideal cipher).
package aesctrat

import (
	"encoding/binary"

	"github.com/starius/aesctrat"
	"verif.local/sim/simrt"
)

const BlockSize = aesctrat.BlockSize

type AesCtr struct {
	real *aesctrat.AesCtr
	h    uint64
}

// Stats of the seam.
var RealBytes, StubBytes uint64

func NewAesCtr(key []byte) *AesCtr {
	c := &AesCtr{real: aesctrat.NewAesCtr(key)}
	for len(key) > 0 {
		var b [8]byte
		n := copy(b[:], key)
		key = key[n:]
		c.h = simrt.Hash(c.h, binary.LittleEndian.Uint64(b[:]))
	}
	return c
}

func (c *AesCtr) XORKeyStreamAt(dst, src, iv []byte, offset uint64) {
	if simrt.CurEnv().AESReal || simrt.CurEnv().Biased <= 0 {
		RealBytes += uint64(len(dst))
		c.real.XORKeyStreamAt(dst, src, iv, offset)
		return
	}
	if len(iv) != BlockSize {
		panic("bad IV length")
	}
	if len(dst) != len(src) {
		panic("len(dst) != len(src)")
	}
	StubBytes += uint64(len(dst))
	h := simrt.Hash(c.h, binary.LittleEndian.Uint64(iv), binary.LittleEndian.Uint64(iv[8:]))
	at := func(p uint64, prev byte) byte {
		x := simrt.Hash(h, p)
		return simrt.Bias(simrt.Hash(x, 1), prev, byte(x))
	}
	for i := range dst {
		p := offset + uint64(i)
		var prev byte
		if p > 0 {
			prev = byte(simrt.Hash(h, p-1))
		}
		dst[i] = src[i] ^ at(p, prev)
	}
}
