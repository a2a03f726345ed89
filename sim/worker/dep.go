package worker

import (
	"fmt"
	"sort"

	"verif.local/sim/ref"
)

// Independence of coefficients. Every polynomial recovered from a history is a
// row of bits; the coefficient bits must be linearly independent, over GF(2)
// and modulo a constant, of each other, of the secret byte and of the
// polynomial of the preceding byte. Any affine relation that holds on all rows
// (copies, sums, rotations, field multiples, recurrences) shows as a column
// without a pivot. With spare rows beyond the number of columns the chance of
// a chance relation is below 2^-spare per column.
const spare = 70

type depRow struct {
	sec  byte
	prev []byte // secret byte and coefficients of the preceding byte; nil for the first
	c    []byte // coefficients 1..k-1
}

func (w *World) dependCoefs(key string, co [][]byte) {
	if w.deps == nil {
		w.deps = map[string][]depRow{}
	}
	rows := w.deps[key]
	for p, c := range co {
		r := depRow{sec: c[0], c: c[1:]}
		if p > 0 {
			r.prev = co[p-1]
		}
		rows = append(rows, r)
	}
	w.deps[key] = rows
}

func (w *World) checkDepend() {
	var keys []string
	for k := range w.deps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, key := range keys {
		rows := w.deps[key]
		m := len(rows[0].c)
		own := 1 + 8 + 8*m + spare
		if len(rows) < own {
			continue
		}
		if m <= 300 {
			if msg := depend(rows[:own], false); msg != "" {
				w.dependent(key, "first", own, msg)
				return
			}
			if len(rows) > own { // relations that begin late
				if msg := depend(rows[len(rows)-own:], false); msg != "" {
					w.dependent(key, "last", own, msg)
					return
				}
			}
			w.st.add("independence tests", 1)
		}
		if m > 100 {
			continue
		}
		var follow []depRow
		for _, r := range rows {
			if r.prev != nil {
				follow = append(follow, r)
			}
		}
		both := own + 8 + 8*m
		if len(follow) < both {
			continue
		}
		w.st.add("independence tests", 1)
		for i, sub := range [][]depRow{follow[:both], follow[len(follow)-both:]} {
			if msg := depend(sub, true); msg != "" {
				w.dependent(key, []string{"first", "last"}[i], both, msg)
				return
			}
		}
	}
}

func (w *World) dependent(key, which string, n int, msg string) {
	w.viol("not-independent", "the coefficients of %s are not independent: in the %s %d polynomials %s", key, which, n, msg)
}

// depend looks for an affine relation between the coefficient bits.
func depend(rows []depRow, prev bool) string {
	R := len(rows)
	words := (R + 63) / 64
	bs := basis{words: words}
	reduce := bs.add
	column := func(f func(r *depRow) byte, bit uint) []uint64 {
		col := make([]uint64, words)
		for i := range rows {
			if f(&rows[i])>>bit&1 != 0 {
				col[i>>6] |= 1 << (uint(i) & 63)
			}
		}
		return col
	}
	reduce(column(func(*depRow) byte { return 1 }, 0))
	for b := uint(0); b < 8; b++ {
		reduce(column(func(r *depRow) byte { return r.sec }, b))
	}
	m := len(rows[0].c)
	if prev {
		for j := 0; j <= m; j++ {
			for b := uint(0); b < 8; b++ {
				reduce(column(func(r *depRow) byte { return r.prev[j] }, b))
			}
		}
	}
	for j := 0; j < m; j++ {
		for b := uint(0); b < 8; b++ {
			if !reduce(column(func(r *depRow) byte { return r.c[j] }, b)) {
				with := "lower coefficients and the secret byte"
				if prev {
					with += " and the polynomial of the preceding byte"
				}
				return fmt.Sprintf("bit %d of coefficient %d follows from %s", b, j+1, with)
			}
		}
	}
	return ""
}

// Independence of what anyone can see. In histories of many small splits (mode
// "tags"), one row per split: the secret, the tags of all shares (as x and as
// x-1), everything of the split before or after it, and the coefficients and
// the key. No bit of these may be an affine function of the rest.
type tagRow struct{ pub, drawn []byte }

func (w *World) dependTags(s *Sharing, co [][]byte) {
	var r tagRow
	for _, sh := range s.snap {
		x := sh[len(sh)-1]
		if s.ssms {
			x = sh[ref.MetaLen]
		}
		r.pub = append(r.pub, x, x-1)
	}
	for p, c := range co {
		if s.ssms && p < ref.KeyLen {
			r.drawn = append(r.drawn, c[0])
		}
		if p < 4 {
			r.drawn = append(r.drawn, c[1:]...)
		}
	}
	r.pub = append(r.pub, s.secret[:min(len(s.secret), 4)]...)
	w.tags = append(w.tags, r)
}

func (w *World) checkTags() {
	if len(w.tags) == 0 {
		return
	}
	cols := 1 + 8*2*(len(w.tags[0].pub)+len(w.tags[0].drawn))
	if len(w.tags) < cols+spare+1 {
		return
	}
	w.st.add("independence tests", 1)
	for _, before := range []bool{true, false} {
		var given, drawn [][]byte
		for i := 0; i < cols+spare; i++ {
			a, b := w.tags[i], w.tags[i+1]
			if before {
				a, b = b, a
			}
			if len(a.pub) != len(b.pub) || len(a.drawn) != len(b.drawn) {
				return
			}
			given = append(given, append(append(append([]byte(nil), a.pub...), b.pub...), b.drawn...))
			drawn = append(drawn, a.drawn)
		}
		if j, bit := affine(given, drawn); j >= 0 {
			w.viol("not-independent", "in %d splits bit %d of random value %d follows from the tags of the shares, the secret, the neighbouring split and lower values", len(given), bit, j)
			return
		}
	}
}

// affine looks for a bit of drawn that is an affine function of the bits of
// given and of lower bits of drawn in all rows.
func affine(given, drawn [][]byte) (int, uint) {
	b := basis{words: (len(given) + 63) / 64}
	one := make([]uint64, b.words)
	for i := range given {
		one[i>>6] |= 1 << (uint(i) & 63)
	}
	b.add(one)
	column := func(m [][]byte, j int, bit uint) []uint64 {
		col := make([]uint64, b.words)
		for i := range m {
			if m[i][j]>>bit&1 != 0 {
				col[i>>6] |= 1 << (uint(i) & 63)
			}
		}
		return col
	}
	for j := range given[0] {
		for bit := uint(0); bit < 8; bit++ {
			b.add(column(given, j, bit))
		}
	}
	for j := range drawn[0] {
		for bit := uint(0); bit < 8; bit++ {
			if !b.add(column(drawn, j, bit)) {
				return j, bit
			}
		}
	}
	return -1, 0
}

// basis of a space of bit vectors
type basis struct {
	words int
	rows  [][]uint64
	pivot []int
}

// add reports whether col is independent of what was added before.
func (b *basis) add(col []uint64) bool {
	for i, r := range b.rows {
		p := b.pivot[i]
		if col[p>>6]>>(uint(p)&63)&1 != 0 {
			for j := p >> 6; j < b.words; j++ {
				col[j] ^= r[j]
			}
		}
	}
	for j, x := range col {
		if x != 0 {
			p := 0
			for x>>uint(p)&1 == 0 {
				p++
			}
			b.rows = append(b.rows, col)
			b.pivot = append(b.pivot, j*64+p)
			return true
		}
	}
	return false
}
