package worker

import (
	"bytes"
	"fmt"
	"sort"

	"verif.local/sim/ref"
)

// recordRandomness recovers, from k shares, the values the dealer drew.
func (w *World) recordRandomness(op *Op, s *Sharing) {
	// k^2 L work
	L := len(s.secret)
	if s.ssms {
		d, err := ref.DecodeSSMS(s.snap, s.n, s.k)
		if err != nil {
			return
		}
		w.addStream(op, "key", d.Key, nil)
		w.addCoefs(op, s, d.Coefs)
		if w.prof.Uniform {
			w.uniformShares(op, s)
		}
		return
	}
	if s.k*s.k*L > 4000000 && !w.prof.Uniform || s.k*s.k*L > 200000000 {
		return
	}
	co, err := ref.Coefs(s.snap[:s.k])
	if err != nil {
		return
	}
	w.addCoefs(op, s, co)
	if w.prof.Uniform {
		w.uniformShares(op, s)
	}
}

func (w *World) addCoefs(op *Op, s *Sharing, co [][]byte) {
	k := s.k
	val := make([]byte, 0, len(co)*k)
	known := make([]bool, 0, len(co)*k)
	for _, c := range co {
		val = append(val, c...)
		for j := range c {
			known = append(known, j > 0)
		}
	}
	w.addStream(op, "coefficients", val, known)
	if w.prof.Uniform {
		w.uniformCoefs(op, s, co)
	}
}

func (w *World) addStream(op *Op, what string, val []byte, known []bool) {
	w.streams = append(w.streams, stream{w.inc, op.ID, fmt.Sprintf("the %s of op %d (%s, incarnation %d)", what, op.ID, op.API, w.inc), append([]byte(nil), val...), known})
}

const window = 10

// overlap looks for a stretch of randomness that occurs twice: runs of known
// values (10 bytes: chance 2^-80 per pair), and aligned comparison of streams
// with unknown bytes at small shifts.
func overlap(ss []stream, crossInc bool) (string, int64) {
	type loc struct{ s, p int }
	seen := map[[window]byte]loc{}
	var comps int64
	flat := make([][]byte, len(ss))
	for i, s := range ss {
		if s.known == nil {
			flat[i] = s.val
			continue
		}
		for p, b := range s.val {
			if s.known[p] {
				flat[i] = append(flat[i], b)
			}
		}
	}
	for i := range ss {
		f := flat[i]
		for p := 0; p+window <= len(f); p++ {
			var key [window]byte
			copy(key[:], f[p:])
			comps++
			if l, ok := seen[key]; ok {
				if crossInc && ss[l.s].inc == ss[i].inc {
					continue
				}
				if l.s == i && l.p+window > p {
					// overlapping windows of one run of equal bytes
					return fmt.Sprintf("%s repeat with period %d at random byte %d: %x", ss[i].what, p-l.p, l.p, key), comps
				}
				return fmt.Sprintf("%s (from random byte %d) equal %s (from random byte %d): %x", ss[i].what, p, ss[l.s].what, l.p, f[p:min(len(f), p+32)]), comps
			}
			seen[key] = loc{i, p}
		}
	}
	// masked comparison
	reach := 40
	if len(ss) > 150 { // long histories
		reach = 2
	}
	for a := 0; a < len(ss); a++ {
		for b := a + 1; b < len(ss); b++ {
			if ss[a].known == nil && ss[b].known == nil {
				continue
			}
			if crossInc && ss[a].inc == ss[b].inc {
				continue
			}
			for d := -reach; d <= reach; d++ {
				comps++
				if n := masked(&ss[a], &ss[b], d); n >= window+1 {
					return fmt.Sprintf("%s and %s are drawn from the same random bytes (shift %d, all %d comparable bytes equal)", ss[a].what, ss[b].what, d, n), comps
				}
			}
		}
	}
	return "", comps
}

// masked compares a[i] with b[i+d] where both are known; -1 if any differs.
func masked(a, b *stream, d int) int {
	n := 0
	lo := 0
	if d < 0 {
		lo = -d
	}
	for i := lo; i < len(a.val) && i+d < len(b.val) && i < 4096; i++ {
		if (a.known == nil || a.known[i]) && (b.known == nil || b.known[i+d]) {
			if a.val[i] != b.val[i+d] {
				return -1
			}
			n++
		}
	}
	return n
}

// ---- uniformity

func (w *World) tally(key string, b byte) {
	h := w.stats[key]
	if h == nil {
		h = new([256]int)
		w.stats[key] = h
	}
	h[b]++
}

func (w *World) uniformCoefs(op *Op, s *Sharing, co [][]byte) {
	k := s.k
	L := len(co)
	switch w.plan.Mode {
	case "twin":
		w.recordPublic(op, s)
	case "tags":
		w.dependTags(s, co)
		return
	}
	a := fmt.Sprintf("%s n=%d k=%d ", s.api, s.n, k)
	w.dependCoefs(a[:len(a)-1], co)
	prev := w.prevC[a]
	var cur []byte
	for p, c := range co {
		for j := 1; j < k; j++ {
			w.tally(a+"coefficients", c[j])
			w.tally(a+"coefficients xor secret byte", c[j]^c[0])
			if j == 1 {
				w.tally(a+"linear coefficients", c[j])
				if p > 0 {
					w.tally(a+"linear coefficients of neighbouring bytes, xored", c[j]^co[p-1][j])
				}
			} else {
				w.tally(a+"neighbouring coefficients, xored", c[j]^c[j-1])
			}
			if j == k-1 {
				w.tally(a+"leading coefficients", c[j])
			}
			if p == 0 {
				w.tally(a+"coefficients of the first byte", c[j])
			}
			if p == L-1 {
				w.tally(a+"coefficients of the last byte", c[j])
			}
			if len(cur) < len(prev) {
				w.tally(a+"coefficients of successive splits, xored", c[j]^prev[len(cur)])
			}
			cur = append(cur, c[j])
		}
	}
	w.prevC[a] = cur
}

// recordPublic notes the bytes of shares that are in the clear.
func (w *World) recordPublic(op *Op, s *Sharing) {
	add := func(what string, val []byte) {
		w.public = append(w.public, stream{w.inc, op.ID, fmt.Sprintf("the %s of op %d (%s)", what, op.ID, op.API), val, nil})
	}
	var tags, pad []byte
	for _, sh := range s.snap {
		if !s.ssms {
			tags = append(tags, sh[len(sh)-1])
			continue
		}
		tags = append(tags, sh[ref.MetaLen], sh[len(sh)-1])
		body := sh[ref.MetaLen+1 : len(sh)-1]
		if id := int(sh[len(sh)-1]); id < s.k {
			from := len(s.secret) - id*len(body)
			if from < 0 {
				from = 0
			}
			if from < len(body) {
				pad = append(pad, body[from:]...)
			}
		}
	}
	add("share tags", tags)
	if s.ssms {
		add("padding bytes", pad)
	}
}

func (w *World) uniformShares(op *Op, s *Sharing) {
	a := fmt.Sprintf("%s n=%d k=%d ", s.api, s.n, s.k)
	L := len(s.secret)
	for i, sh := range s.snap {
		if s.ssms {
			body := sh[ref.MetaLen+1 : len(sh)-1]
			if i < s.k { // data parts; padding bytes are public zeros
				end := L - i*len(body)
				if end > len(body) {
					end = len(body)
				}
				for p := 0; p < end; p++ {
					w.tally(a+"data part bytes", body[p])
					w.tally(a+"data part bytes xor secret", body[p]^s.secret[i*len(body)+p])
				}
			}
			if i < s.k-1 {
				for _, b := range sh[:ref.MetaLen] {
					w.tally(a+"metadata share bytes", b)
				}
			}
			continue
		}
		if i >= s.k-1 { // only k-1 shares are jointly independent
			break
		}
		for p := 0; p < L; p++ {
			w.tally(a+"share bytes", sh[p])
			w.tally(a+"share bytes xor secret", sh[p]^s.secret[p])
		}
	}
}

// checkUniform tests every tally with a chi-squared statistic; the threshold
// is 10 standard deviations of the (normalised) statistic.
func (w *World) checkUniform() {
	var keys []string
	for k := range w.stats {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, key := range keys {
		h := w.stats[key]
		n, top := 0, 0
		for v, c := range h {
			n += c
			if c > h[top] {
				top = v
			}
		}
		if n < 2560 {
			continue
		}
		w.st.add("uniformity tests", 1)
		if v, d := worstBin(h, n); d > 50 {
			w.viol("not-uniform", "%s are not uniformly distributed: %d of %d values are %#02x (expected %.0f; probability below e^-%.0f)", key, h[v], n, v, float64(n)/256, d)
			return
		}
		e := float64(n) / 256
		x := 0.0
		for _, c := range h {
			d := float64(c) - e
			x += d * d / e
		}
		if z := chiZ(x, 255); z > 10 {
			w.viol("not-uniform", "%s are not uniformly distributed: chi-squared %.0f over 255 degrees of freedom (%.0f sigma) for %d values; most frequent %#02x, %d times (expected %.0f)", key, x, z, n, top, h[top], e)
			return
		}
	}
}

// worstBin returns the value whose count is least credible and the exponent of
// the Chernoff bound on a count at least as far from its expectation. A value
// that never occurs shows from 13000 values on.
func worstBin(h *[256]int, n int) (int, float64) {
	const p = 1.0 / 256
	worst, at := -1.0, 0
	for v, c := range h {
		q := float64(c) / float64(n)
		d := 0.0
		if q > 0 {
			d += q * logf(q/p)
		}
		if q < 1 {
			d += (1 - q) * logf((1-q)/(1-p))
		}
		if d *= float64(n); d > worst {
			worst, at = d, v
		}
	}
	return at, worst
}

// eavesdrop plays an adversary holding k-1 shares.
func (w *World) doEaves(op *Op) {
	s := w.sh[op.Ref]
	if s == nil || len(s.secret) < 16 {
		return
	}
	r := newRng(op.Seed, 11)
	idx := r.perm(len(s.snap))[:s.k-1]
	what := fmt.Sprintf("op %d: an eavesdropper with %d shares of the %s sharing of op %d (n=%d k=%d)", op.ID, len(idx), s.api, s.id, s.n, s.k)
	var list [][]byte
	for _, i := range idx {
		list = append(list, append([]byte(nil), s.snap[i]...))
	}
	for _, sh := range list {
		if hasRun(s.secret, sh) {
			w.viol("leak", "%s finds 12 consecutive bytes of the secret in one share", what)
			return
		}
	}
	w.st.add("op:eavesdrop", 1)
	if s.ssms {
		for _, nk := range [][2]int{{s.n, s.k}, {s.n, s.k - 1}} {
			if nk[1] < 1 {
				continue
			}
			got, err, ok := w.combineCall(what, "ssms", list, nk[0], nk[1], 0, 0)
			if ok && err == nil && bytes.Equal(got, s.secret) {
				w.viol("leak", "%s recovers the secret with Combine(n=%d, k=%d)", what, nk[0], nk[1])
				return
			}
		}
		return
	}
	if len(list) >= 2 {
		got, err, ok := w.combineCall(what, "split", list, 0, 0, 0, 0)
		if ok && err == nil && bytes.Equal(got, s.secret) {
			w.viol("leak", "%s recovers the secret with Combine", what)
		}
	}
}

// hasRun: 12 consecutive bytes of a high-entropy secret in clear. Low-entropy
// secrets are decided by the uniformity tests.
func hasRun(secret, share []byte) bool {
	distinct := map[byte]bool{}
	for i := 0; i+12 <= len(secret); i++ {
		for k := range distinct {
			delete(distinct, k)
		}
		for _, b := range secret[i : i+12] {
			distinct[b] = true
		}
		if len(distinct) >= 10 && bytes.Contains(share, secret[i:i+12]) {
			return true
		}
	}
	return false
}

func chiZ(x float64, dof float64) float64 {
	// Wilson-Hilferty
	c := 2.0 / (9 * dof)
	return (cbrt(x/dof) - (1 - c)) / sqrt(c)
}
