//go:build vec
// +build vec

package worker

import (
	"bytes"
	"fmt"

	lib_galois "github.com/fadhilkurnia/shamir/galois"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

func init() { extraOps["vec"] = (*World).doVec }

// guarded is a slice at a chosen alignment between two zones nobody may touch.
type guarded struct{ all, b []byte }

const zone = 70

func newGuarded(n, align int, fill *rng) guarded {
	all := make([]byte, n+2*zone+align)
	for i := range all {
		all[i] = 0xC3
	}
	g := guarded{all, all[zone+align : zone+align+n : zone+align+n]}
	if fill.n(3) == 0 {
		g.b = all[zone+align : zone+align+n] // capacity to spare
	}
	fill.fill(g.b)
	if fill.n(4) == 0 { // extreme elements
		for i := range g.b {
			g.b[i] = []byte{0, 1, 0xff, 0x80, 2}[fill.n(5)]
		}
	}
	return g
}

func (g guarded) touched() bool {
	if len(g.all) == len(g.b) {
		return false
	}
	lo := len(g.all) - zone - len(g.b)
	for i, c := range g.all {
		if (i < lo || i >= lo+len(g.b)) && c != 0xC3 {
			return true
		}
	}
	return false
}

func mulVec(c byte, a []byte) []byte {
	out := make([]byte, len(a))
	for i := range a {
		out[i] = ref.Mul(c, a[i])
	}
	return out
}

func addVec(a, b []byte) []byte {
	out := make([]byte, len(a))
	for i := range a {
		out[i] = a[i] ^ b[i]
	}
	return out
}

// shared returns the vector of length n all clients use as an input.
func (w *World) sharedVec(op *Op) []byte {
	if v := w.vecs[op.L]; v != nil {
		return v
	}
	v := make([]byte, op.L)
	newRng(uint64(op.L), 77).fill(v)
	w.vecs[op.L] = v
	w.track(fmt.Sprintf("the shared operand of %d elements", op.L), v)
	return v
}

func (w *World) doVec(op *Op) {
	r := newRng(op.Seed, 4711)
	w.st.add("op:vector "+op.X, 1)
	bad := func(what string, got, want []byte) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		if len(got) != len(want) {
			w.viol("vector", "op %d: %s of %d elements returned %d elements", op.ID, what, len(want), len(got))
			return
		}
		w.viol("vector", "op %d: %s of %d elements: element %d is %#02x instead of %#02x", op.ID, what, len(want), i, got[i], want[i])
	}
	mul := func(c byte, g guarded, generic bool) ([]byte, bool) {
		before := append([]byte(nil), g.b...)
		var out []byte
		what := fmt.Sprintf("MulConstVector(%d)", c)
		if generic {
			what = fmt.Sprintf("MulConstVectorGeneric(%d)", c)
		}
		w.expect(1, op.L)
		if _, ok := w.call(fmt.Sprintf("op %d: %s of %d elements", op.ID, what, op.L), func() {
			if generic {
				out = lib_galois.MulConstVectorGeneric(c, g.b)
			} else {
				out = lib_galois.MulConstVector(c, g.b)
			}
		}); !ok {
			return nil, false
		}
		good := true
		simrt.Atomic(func() {
			want := mulVec(c, before)
			switch {
			case !bytes.Equal(out, want):
				bad(what, out, want)
				good = false
			case !bytes.Equal(g.b, before) && !bytes.Equal(g.b, want):
				bad("the operand left by "+what, g.b, before)
				good = false
			case g.touched():
				w.viol("vector", "op %d: %s of %d elements wrote outside its operand", op.ID, what, op.L)
				good = false
			}
		})
		return out, good
	}
	add := func(a []byte, g guarded, kind int) ([]byte, bool) {
		a0, before := append([]byte(nil), a...), append([]byte(nil), g.b...)
		alias := len(a) > 0 && &a[0] == &g.b[0]
		what := []string{"AddVector", "AddVectorGeneric", "AddVectorBatchGeneric"}[kind]
		var out []byte
		w.expect(1, op.L)
		if _, ok := w.call(fmt.Sprintf("op %d: %s of %d elements", op.ID, what, op.L), func() {
			switch kind {
			case 0:
				out = lib_galois.AddVector(a, g.b)
			case 1:
				out = lib_galois.AddVectorGeneric(a, g.b)
			default:
				out = lib_galois.AddVectorBatchGeneric(a, g.b)
			}
		}); !ok {
			return nil, false
		}
		good := true
		simrt.Atomic(func() {
			want := addVec(a0, before)
			switch {
			case !bytes.Equal(out, want):
				bad(what, out, want)
				good = false
			case !alias && !bytes.Equal(a, a0):
				bad("the first operand left by "+what, a, a0)
				good = false
			case !bytes.Equal(g.b, before) && !bytes.Equal(g.b, want):
				bad("the second operand left by "+what, g.b, before)
				good = false
			case g.touched():
				w.viol("vector", "op %d: %s of %d elements wrote outside its operands", op.ID, what, op.L)
				good = false
			}
		})
		return out, good
	}
	konst := func() byte {
		if r.n(4) == 0 {
			return []byte{0, 1, 2, 0xff, 0x80}[r.n(5)]
		}
		return byte(r.n(256))
	}
	g := newGuarded(op.L, r.n(33), r)
	var out []byte
	ok := true
	switch op.X {
	case "mul":
		out, ok = mul(konst(), g, op.Cnt == 1)
	case "add":
		h := newGuarded(op.L, r.n(33), r)
		out, ok = add(h.b, g, op.Cnt)
	case "add shared":
		out, ok = add(w.sharedVec(op), g, op.Cnt)
	case "add itself":
		out, ok = add(g.b, g, op.Cnt)
	case "horner": // as the evaluation of a polynomial uses them
		c := konst()
		for i := 0; i < 2+op.T && ok; i++ {
			if out, ok = mul(c, g, op.Cnt == 1); !ok {
				break
			}
			out, ok = add(w.sharedVec(op), guarded{out, out}, op.Cnt)
			h := newGuarded(op.L, r.n(33), r)
			copy(h.b, out)
			g = h
		}
	case "scalar":
		w.scalars(op, r)
		return
	}
	if ok && out != nil {
		w.track(fmt.Sprintf("the result of op %d", op.ID), out)
	}
}

// scalars judges the operations on single elements.
func (w *World) scalars(op *Op, r *rng) {
	for i := 0; i < op.L && w.vclass == ""; i++ {
		a, b, n := byte(r.n(256)), byte(r.n(256)), r.n(600)
		switch r.n(8) {
		case 0:
			a = byte(r.n(2))
		case 1:
			b = byte(1 + r.n(2))
		case 2:
			n = r.pick(0, 1, 254, 255, 256, 509, 510, 511, 70000)
		}
		pow := func(x byte, n int) byte {
			p := byte(1)
			for ; n > 0; n-- {
				p = ref.Mul(p, x)
			}
			return p
		}
		var got [6]byte
		w.expect(1, n)
		if _, ok := w.call(fmt.Sprintf("op %d: scalar operations on %d, %d, %d", op.ID, a, b, n), func() {
			got = [6]byte{lib_galois.GalAdd(a, b), lib_galois.GalSub(a, b), lib_galois.GalMultiply(a, b), lib_galois.GalMultiplyLogExp(a, b), lib_galois.GalExp(a, n), 0}
			if b != 0 {
				got[5] = lib_galois.GalDivide(a, b)
			}
		}); !ok {
			return
		}
		simrt.Atomic(func() {
			want := [6]byte{a ^ b, a ^ b, ref.Mul(a, b), ref.Mul(a, b), pow(a, n), 0}
			for j, name := range []string{"GalAdd", "GalSub", "GalMultiply", "GalMultiplyLogExp", "GalExp"} {
				if got[j] != want[j] {
					y := int(b)
					if j == 4 {
						y = n
					}
					w.viol("scalar", "op %d: %s(%d, %d) is %d instead of %d", op.ID, name, a, y, got[j], want[j])
				}
			}
			if b != 0 && ref.Mul(got[5], b) != a {
				w.viol("scalar", "op %d: GalDivide(%d, %d) is %d, and %d times that is not %d", op.ID, a, b, got[5], b, a)
			}
		})
	}
}
