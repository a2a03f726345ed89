// Package rand replaces crypto/rand in instrumented code: simulated OS entropy.
package rand

import (
	crand "crypto/rand"
	"io"
	"math/big"

	"verif.local/sim/simrt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) { return simrt.OSRead(p) }

var Reader io.Reader = reader{}

func Read(b []byte) (int, error)                      { return io.ReadFull(Reader, b) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return crand.Prime(r, bits) }
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	simrt.OSRead(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
