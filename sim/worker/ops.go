package worker

import (
	"bytes"
	"fmt"
	"time"

	lib_csprng "github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	lib_worker "github.com/fadhilkurnia/shamir/worker"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// do executes one operation in the current simulated thread.
func (w *World) do(op *Op) {
	switch op.K {
	case "split":
		w.doSplit(op)
	case "oldsplit":
		w.doOldSplit(op)
	case "golden":
		w.doGolden(op)
	case "combine":
		w.doCombine(op)
	case "refcombine":
		w.doRefCombine(op)
	case "psplit":
		w.doParallel(op)
	case "lose":
		w.doLose(op)
	case "regen":
		w.doRegen(op)
	case "eaves":
		w.doEaves(op)
	case "append":
		w.doAppend(op)
	case "damage":
		w.doDamage(op)
	case "bad":
		w.doBad(op)
	case "read":
		w.doRead(op)
	case "advance":
		w.doAdvance(op)
	case "await":
		w.doAwait(op)
	case "rread":
		w.doRandomizerRead(op)
	case "uniq", "perm", "rperm":
		w.doUnique(op)
	case "newgen":
		w.doNewGen(op)
	case "get", "put":
		w.doPool(op)
	case "clock":
		simrt.StepClock(time.Duration(op.D))
		w.inject++
		w.st.add("fault:clock-step", 1)
	case "sleep":
		simrt.Wait(time.Duration(op.D), func() bool { return false })
	default:
		if f := extraOps[op.K]; f != nil {
			f(w, op)
		} else if !w.netOp(op) {
			w.trouble("unknown operation %q", op.K)
		}
	}
}

// extraOps are operations only some builds have.
var extraOps = map[string]func(*World, *Op){}

// ------------------------------------------------ shares of the old release

// draw returns a source of ideal randomness for the model.
func draw(seed uint64) func(int) []byte {
	r := newRng(seed, 0x01d)
	return func(n int) []byte {
		b := make([]byte, n)
		r.fill(b)
		return b
	}
}

// doOldSplit makes shares with the reference model of the original release.
func (w *World) doOldSplit(op *Op) *Sharing {
	secret := w.secret(op)
	var out [][]byte
	var err error
	if isSSMS(op.API) {
		out, err = ref.EncodeSSMS(secret, op.N, op.T, draw(op.Seed))
		if err != nil {
			w.trouble("reference encoder: %v", err)
			return nil
		}
	} else {
		out = ref.EncodeShamir(secret, op.N, op.T, draw(op.Seed))
	}
	s := &Sharing{id: op.ID, api: op.API, ssms: isSSMS(op.API), n: op.N, k: op.T, secret: secret, live: out, inc: w.inc, dirty: make([]bool, len(out)), acked: map[int]bool{}}
	for i := range out {
		s.snap = append(s.snap, append([]byte(nil), out[i]...))
	}
	if w.prof.Watch {
		for i := range out {
			w.track(fmt.Sprintf("archived share %d of op %d passed as input", i, op.ID), out[i])
		}
	}
	w.st.add("op:archived sharing", 1)
	w.sh[op.ID] = s
	return s
}

func (w *World) doRefCombine(op *Op) {
	s := w.sh[op.Ref]
	if s == nil {
		return
	}
	idx := s.subset(newRng(op.Seed, 3))
	if idx == nil {
		return
	}
	var list [][]byte
	for _, i := range idx {
		list = append(list, s.snap[i])
	}
	var got []byte
	var err error
	if s.ssms {
		var d *ref.SSMS
		if d, err = ref.DecodeSSMS(list, s.n, s.k); err == nil {
			got = d.Secret
		}
	} else {
		got, err = ref.Combine(list)
	}
	w.st.add("op:combine by the original release", 1)
	if err != nil || !bytes.Equal(got, s.secret) {
		w.viol("format", "op %d: the original release cannot read %d shares of the %s sharing of op %d (n=%d k=%d, %d bytes): err=%v, %s", op.ID, len(list), s.api, s.id, s.n, s.k, len(s.secret), err, diff(got, s.secret))
	}
}

func (w *World) doGolden(op *Op) {
	gs := goldens()
	g := &gs[op.Cnt%len(gs)]
	s := &Sharing{id: op.ID, api: g.API, ssms: isSSMS(g.API), n: g.N, k: g.K, secret: g.Secret, inc: w.inc, dirty: make([]bool, len(g.Shares)), acked: map[int]bool{}}
	for _, sh := range g.Shares {
		s.live = append(s.live, append([]byte(nil), sh...))
		s.snap = append(s.snap, append([]byte(nil), sh...))
	}
	w.st.add("op:archived sharing of the original release", 1)
	w.sh[op.ID] = s
}

// ------------------------------------------------------------ parallel split

func (w *World) doParallel(op *Op) {
	secret := w.secret(op)
	in := append([]byte(nil), secret...)
	me := simrt.Cur()
	what := fmt.Sprintf("op %d: parallel split of %d bytes, n=%d k=%d", op.ID, op.L, op.N, op.T)
	out, err, _, ok := w.splitCall(op, in)
	if !ok {
		return
	}
	if err != nil {
		if simrt.EntFails == 0 {
			w.viol("incomplete", "%s failed: %v", what, err)
		}
		return
	}
	// goroutines that are still there may only wind down
	if n := w.sim.Expire(me); n > 0 {
		w.st.add("probe:parallel split returned before its goroutines had wound down", 1)
	}
	s := &Sharing{id: op.ID, api: "par", n: op.N, k: op.T, secret: secret, live: out, inc: w.inc, dirty: make([]bool, len(out)), acked: map[int]bool{}}
	if len(out) != op.N {
		w.viol("incomplete", "%s returned %d shares", what, len(out))
		return
	}
	for i := range out {
		if len(out[i]) != op.L+1 {
			w.viol("incomplete", "%s returned a share of %d bytes", what, len(out[i]))
			return
		}
		s.snap = append(s.snap, append([]byte(nil), out[i]...))
	}
	s.live = nil
	for i := range out {
		s.live = append(s.live, append([]byte(nil), out[i]...))
	}
	// from here on the shares belong to the caller, who writes to them: a late
	// write shows even if it writes the right value
	for i := range out {
		for j := range out[i] {
			out[i][j] ^= 0xA5
		}
		w.track(fmt.Sprintf("share %d, after the parallel split of op %d returned,", i, op.ID), out[i])
	}
	w.st.add("op:parallel split", 1)
	if m := ref.CheckDegree(s.snap, secret, s.k, w.positions(op.L, s.n*s.k, op.Seed)); m != "" {
		w.viol("incomplete", "%s: shares incomplete or mixed up when the call returns: %s", what, m)
	}
	w.sh[op.ID] = s
}

// -------------------------------------------------------------------- regen

func (w *World) doLose(op *Op) {
	s := w.sh[op.Ref]
	if s == nil || s.ssms {
		return
	}
	r := newRng(op.Seed, 21)
	n := s.k + r.n(len(s.live)-s.k+1)
	if r.p(0.5) {
		n = s.k
	}
	keep := r.perm(len(s.live))[:n]
	var live, snap [][]byte
	var dirty []bool
	for _, i := range keep {
		live, snap, dirty = append(live, s.live[i]), append(snap, s.snap[i]), append(dirty, s.dirty[i])
	}
	w.inject++
	w.st.add("fault:shares lost", int64(len(s.live)-n))
	s.live, s.snap, s.dirty = live, snap, dirty
}

func (w *World) doRegen(op *Op) {
	s := w.sh[op.Ref]
	if s == nil || s.ssms {
		return
	}
	L := len(s.secret)
	r := newRng(op.Seed, 22)
	idx := s.subset(r)
	if idx == nil {
		return
	}
	if op.X == "all" || op.Cnt > 8 { // interpolation is quadratic in the shares
		c := op.Cnt
		if op.X == "all" {
			c = 255
		}
		for len(idx) > s.k && c*L*len(idx)*len(idx) > 250000 {
			idx = idx[:len(idx)-1]
		}
		if c*L*s.k*s.k > 2000000 && op.X == "all" {
			w.st.add("regeneration skipped: too expensive", 1)
			return
		}
	}
	if op.X == "near" {
		idx = idx[:0]
		for _, i := range r.perm(len(s.live)) {
			if !s.dirty[i] {
				idx = append(idx, i)
			}
		}
		if L > 2 {
			return
		}
	}
	var list, plain [][]byte
	var used [256]bool
	for _, i := range idx {
		list = append(list, s.live[i])
		plain = append(plain, append([]byte(nil), s.live[i]...))
		used[s.live[i][L]] = true
	}
	// the oracle needs the given shares to be a consistent sharing
	if ref.CheckDegree(plain, s.secret, s.k, w.positions(L, len(plain)*s.k, 1)) != "" {
		w.st.add("regeneration skipped: inconsistent input", 1)
		return
	}
	cnt := op.Cnt
	if op.X == "all" {
		cnt = 255 - len(list)
	} else if op.X == "near" {
		cnt = max(0, 255-len(list)-op.Cnt)
		w.st.add("probe:regenerate until hardly a point is unused", 1)
	} else if op.X == "over" {
		cnt = 255 - len(list) + 1 + op.Cnt
	}
	over := op.X == "over" || cnt > 255-len(list)
	what := fmt.Sprintf("op %d: regenerating %d shares from %d of the %s sharing of op %d (n=%d k=%d, %d bytes)", op.ID, cnt, len(list), s.api, s.id, s.n, s.k, L)
	if op.Seed&3 == 2 {
		w.received(what, list)
	}
	list, full := roomy(list)
	before := clone(full)
	var out [][]byte
	var err error
	w.expectList(list, cnt)
	if _, ok := w.call(what, func() { out, err = shamir.Regenerate(list, cnt) }); !ok {
		return
	}
	w.st.add("op:regenerate", 1)
	if w.prof.Watch {
		if !sameHeaders(full, before) {
			w.viol("overwritten", "%s rearranged the list of shares it was given", what)
		}
		for i := range out {
			w.track(fmt.Sprintf("share %d returned by op %d (regenerate)", i, op.ID), out[i])
		}
	}
	if over {
		w.st.add("probe:regenerate beyond the unused points", 1)
		if err == nil && w.plan.Prop == "C12" {
			w.viol("regenerate", "%s: more shares than unused points, but no error", what)
		}
		return
	}
	decide := w.plan.Prop == "C12" || w.plan.Prop == "C03" || w.plan.Prop == "C17"
	if err != nil {
		if decide && simrt.EntFails == 0 {
			w.viol("regenerate", "%s failed: %v", what, err)
		}
		return
	}
	bad := func(format string, a ...any) {
		if decide {
			w.viol("regenerate", what+": "+format, a...)
		}
	}
	if len(out) != cnt {
		bad("%d shares returned", len(out))
		return
	}
	for i, sh := range out {
		if len(sh) != L+1 {
			bad("share %d has %d bytes", i, len(sh))
			return
		}
		x := sh[L]
		if x == 0 {
			bad("new share %d has evaluation point 0", i)
			return
		}
		if used[x] {
			bad("new share %d has point %d, which is in use", i, x)
			return
		}
		used[x] = true
	}
	all := append(clone(plain[:s.k]), out...)
	if m := ref.CheckDegree(all, s.secret, s.k, w.positions(L, len(all)*s.k, op.Seed)); m != "" {
		bad("not the same sharing: %s", m)
		return
	}
	// the new shares join those that exist, except where a lost share's point
	// came back
	have := map[byte]bool{}
	for _, x := range s.live {
		have[x[L]] = true
	}
	for _, sh := range out {
		if !have[sh[L]] && len(s.live) < 255 {
			s.live = append(s.live, sh)
			s.snap = append(s.snap, append([]byte(nil), sh...))
			s.dirty = append(s.dirty, false)
		}
	}
	if cnt > 0 && decide {
		// a set that mixes old and new
		m := s.k
		var mix [][]byte
		for i := 0; i < len(out) && len(mix) < (m+1)/2; i++ {
			mix = append(mix, out[len(out)-1-i])
		}
		for i := 0; len(mix) < m; i++ {
			mix = append(mix, plain[i])
		}
		got, err, ok := w.combineCall(what+", then combining a mixed set", "split", mix, 0, 0, 0, 0)
		if ok && (err != nil || !bytes.Equal(got, s.secret)) && !ref_dup(mix) {
			bad("a mix of new and old shares does not reconstruct: err=%v %s", err, diff(got, s.secret))
		}
	}
}

func ref_dup(list [][]byte) bool {
	var seen [256]bool
	for _, s := range list {
		x := s[len(s)-1]
		if seen[x] {
			return true
		}
		seen[x] = true
	}
	return false
}

// ------------------------------------------------- owners using their shares

// doAppend appends to one returned share, or writes into it: its owner may.
func (w *World) doAppend(op *Op) {
	s := w.sh[op.Ref]
	if s == nil {
		return
	}
	r := newRng(op.Seed, 31)
	i := r.n(len(s.live))
	junk := make([]byte, 1+r.n(12))
	r.fill(junk)
	w.st.add("op:append to a share", 1)
	// append writes after the share if it has spare capacity
	_ = append(s.live[i], junk...)
	if op.X == "write" {
		s.dirty[i] = true
		for _, x := range w.watch {
			if len(x.live) > 0 && &x.live[0] == &s.live[i][0] {
				x.off = true
			}
		}
		for j := range s.live[i] {
			s.live[i][j] = ^s.live[i][j]
		}
		w.track(fmt.Sprintf("share %d of op %d, rewritten by its owner,", i, s.id), s.live[i])
	}
	w.checkWatch()
}

// ------------------------------------------------------------------- damage

func (w *World) doDamage(op *Op) {
	s := w.sh[op.Ref]
	if s == nil {
		return
	}
	r := newRng(op.Seed, 41)
	var list [][]byte
	idx := r.perm(len(s.snap))
	m := r.n(len(s.snap) + 1)
	if r.p(0.6) && m < s.k {
		m = s.k
	}
	for m > s.k && m*m*len(s.secret) > 60000 {
		m--
	}
	for _, i := range idx[:m] {
		list = append(list, append([]byte(nil), s.snap[i]...))
	}
	n, k := s.n, s.k
	kinds := 1 + r.n(3)
	if r.p(0.05) {
		kinds = 0
	}
	var applied []string
	for ; kinds > 0; kinds-- {
		kind := r.n(15)
		if len(list) == 0 {
			kind = 12 + r.n(3)
		}
		var i int
		if len(list) > 0 {
			i = r.n(len(list))
		}
		name := ""
		switch kind {
		case 0, 1: // torn write
			if len(list[i]) > 0 {
				cut := r.n(len(list[i]))
				if r.p(0.5) {
					cut = min(r.n(25), cut)
				}
				list[i] = torn(r, list[i], cut)
			}
			name = "torn"
		case 2: // all torn at the same length
			cut := r.n(26)
			for j := range list {
				if len(list[j]) > cut {
					list[j] = torn(r, list[j], cut)
				}
			}
			name = "all torn"
		case 3: // bit flips
			for f := 1 + r.n(4); f > 0; f-- {
				if len(list[i]) > 0 {
					list[i][r.n(len(list[i]))] ^= 1 << uint(r.n(8))
				}
			}
			name = "bit flip"
		case 4: // duplicate delivery
			list = append(list, append([]byte(nil), list[i]...))
			name = "duplicate"
		case 5:
			list[i] = nil
			name = "nil"
		case 6:
			list[i] = []byte{}
			name = "empty"
		case 7: // foreign share
			f := make([]byte, len(list[i]))
			r.fill(f)
			list[i] = f
			name = "foreign"
		case 8: // grown record
			list[i] = append(append([]byte(nil), list[i]...), byte(r.u()))
			name = "grown"
		case 9: // last byte rewritten: point or part number
			if len(list[i]) > 0 {
				v := byte(r.pick(0, 255, n, n-1, n+1, k, r.n(256)))
				list[i][len(list[i])-1] = v
			}
			name = "tag"
		case 10: // zero page
			for j := range list[i] {
				list[i][j] = 0
			}
			name = "zeroed"
		case 11: // several lost
			list = list[:r.n(len(list)+1)]
			name = "lost"
		case 12: // wrong parameters
			n = r.pick(n, 0, -1, 1, 255, 256, n+1, n-1, -n, 1<<31, -(1 << 40))
			name = "wrong n"
		case 13:
			k = r.pick(k, 0, -1, 1, 255, 256, k+1, k-1, -k, n, 1<<31)
			name = "wrong k"
		case 14:
			if r.p(0.3) {
				list = nil
				name = "nil list"
			} else if len(list) > 0 && len(list[i]) >= 21 {
				other := list[r.n(len(list))]
				if len(other) < 21 {
					other = list[i]
				}
				list[i][20] = byte(r.pick(0, 255, int(other[20])))
				name = "metadata point"
			}
		}
		if name != "" {
			applied = append(applied, name)
			w.inject++
			w.st.add("fault:share "+name, 1)
		}
	}
	what := fmt.Sprintf("op %d (%s) on %d shares of a (n=%d k=%d) %s sharing of %d bytes, damage %v", op.ID, op.X, len(list), s.n, s.k, s.api, len(s.secret), applied)
	list, full := roomy(list)
	before := clone(full)
	var content [][]byte
	for _, x := range full {
		content = append(content, append([]byte(nil), x[:cap(x)]...))
	}
	var err error
	var ok bool
	var must string
	w.expectList(list, op.Cnt)
	switch op.X {
	case "regen":
		must = shamirMustFail(list)
		_, ok = w.call(what, func() { _, err = shamir.Regenerate(list, op.Cnt) })
	case "combine":
		must = shamirMustFail(list)
		_, ok = w.call(what, func() { _, err = shamir.Combine(list) })
	case "wsh":
		must = shamirMustFail(list)
		_, ok = w.call(what, func() { _, err = w.worker(op.Obj, op.Seed).Combine("shamir", list, n, k) })
	case "wss":
		must = ssmsMustFail(list, n, k)
		what += fmt.Sprintf(" given n=%d k=%d", n, k)
		_, ok = w.call(what, func() { _, err = w.worker(op.Obj, op.Seed).Combine("krawczyk", list, n, k) })
	default:
		must = ssmsMustFail(list, n, k)
		what += fmt.Sprintf(" given n=%d k=%d", n, k)
		_, ok = w.call(what, func() { _, err = krawczyk.Combine(list, n, k) })
	}
	if !ok {
		return
	}
	w.st.add("op:combine of damaged shares", 1)
	if err != nil {
		w.st.add("probe:damage reported as an error", 1)
	}
	if must != "" {
		w.st.add("probe:structural damage", 1)
		if err == nil {
			w.viol("damage", "%s: %s, but no error was returned", what, must)
			return
		}
	}
	if !sameHeaders(full, before) {
		w.viol("damage", "%s: the list of shares was modified", what)
		return
	}
	for i, x := range full {
		if !bytes.Equal(x[:cap(x)], content[i]) {
			w.viol("damage", "%s: input share %d (or the memory behind it) was modified", what, i)
			return
		}
	}
}

// torn cuts a share; what was lost may still lie behind it in memory.
func torn(r *rng, b []byte, cut int) []byte {
	if r.p(0.5) {
		return b[:cut]
	}
	return b[:cut:cut]
}

// roomy returns the list within a larger array, which is not the callee's.
func roomy(l [][]byte) (list, full [][]byte) {
	full = append(clone(l), []byte("not"), []byte("in the"), []byte("list"))
	if l == nil {
		return nil, full
	}
	return full[:len(l)], full
}

func shamirMustFail(l [][]byte) string {
	if len(l) < 2 {
		return "fewer than two shares"
	}
	for _, s := range l {
		if len(s) != len(l[0]) {
			return "shares of unequal length"
		}
	}
	if len(l[0]) < 2 {
		return "shares too short to be shares"
	}
	if ref_dup(l) {
		return "two shares with the same point"
	}
	return ""
}

func ssmsMustFail(in [][]byte, n, k int) string {
	if n <= 0 || k <= 0 {
		return "non-positive n or k"
	}
	var l [][]byte
	for _, s := range in {
		if s != nil {
			l = append(l, s)
		}
	}
	if len(l) < k {
		return fmt.Sprintf("%d shares with k=%d", len(l), k)
	}
	if len(l) < 2 {
		return "fewer than two shares"
	}
	var seen, part [256]bool
	for _, s := range l {
		if len(s) != len(l[0]) {
			return "shares of unequal length"
		}
		if len(s) < ref.MetaLen+3 {
			return "shares too short to be shares"
		}
		if int(s[len(s)-1]) >= n {
			return fmt.Sprintf("part number %d with n=%d", s[len(s)-1], n)
		}
		if seen[s[ref.MetaLen]] {
			return "two shares with the same point"
		}
		seen[s[ref.MetaLen]] = true
		if part[s[len(s)-1]] {
			return "two shares with the same part number"
		}
		part[s[len(s)-1]] = true
	}
	return ""
}

// ------------------------------------------------------------- bad requests

func (w *World) doBad(op *Op) {
	w.inject++
	w.st.add("fault:invalid request", 1)
	if op.X == "regen" {
		s := w.sh[op.Ref]
		if s == nil || s.ssms || len(s.snap) < 2 {
			return
		}
		cnt := -1 - op.Cnt
		var out [][]byte
		var err error
		what := fmt.Sprintf("op %d: regenerating %d shares", op.ID, cnt)
		w.expectList(s.snap[:s.k], cnt)
		if _, ok := w.call(what, func() { out, err = shamir.Regenerate(clone(s.snap[:s.k]), cnt) }); ok && w.plan.Prop == "C14" {
			if err == nil || len(out) > 0 {
				w.viol("accepted", "%s: refused requests return an error and no result, got err=%v and %d shares", what, err, len(out))
			}
		}
		return
	}
	if op.X == "alg" {
		alg := []string{"", "Shamir", "SHAMIR", "ssms", "krawczyk ", "shamir\x00", "aes", "shamirkrawczyk",
			"sham", "Krawczyk", "KRAWCZYK", "krawczyk2", " shamir", "SSMS", "shamir,krawczyk", "default"}[op.Cnt%8+8*int(op.Seed>>8&1)]
		r := newRng(op.Seed, 51)
		var out [][]byte
		var sec []byte
		var err error
		if op.Sec&1 == 0 {
			what := fmt.Sprintf("op %d: Worker.Split with algorithm %q", op.ID, alg)
			if _, ok := w.call(what, func() { out, err = w.worker(op.Obj, op.Seed).Split(alg, w.secret(op), 5, 3) }); ok && (err == nil || len(out) > 0) {
				w.viol("accepted", "%s: got err=%v and %d shares", what, err, len(out))
			}
		} else {
			s := w.sh[op.Ref]
			list := [][]byte{{1, 2, 3}, {4, 5, 6}, {7, 8, 9}}
			if s != nil && r.p(0.7) {
				list = clone(s.snap[:s.k])
			}
			what := fmt.Sprintf("op %d: Worker.Combine with algorithm %q", op.ID, alg)
			if _, ok := w.call(what, func() { sec, err = w.worker(op.Obj, op.Seed).Combine(alg, list, 5, 3) }); ok && (err == nil || len(sec) > 0) {
				w.viol("accepted", "%s: got err=%v and %d bytes", what, err, len(sec))
			}
		}
		return
	}
	var secret []byte
	if op.L > 0 {
		secret = w.secret(op)
	} else if op.Sec&1 == 0 {
		secret = []byte{}
	}
	if secret != nil && w.prof.Watch {
		secret = w.guarded(fmt.Sprintf("the secret passed to op %d (%s), a refused request,", op.ID, op.API), secret)
	}
	out, err, _, ok := w.splitCall(op, secret)
	if ok && (err == nil || len(out) > 0) {
		w.viol("accepted", "op %d: %s of %d bytes with n=%d k=%d must be refused; got err=%v and %d shares", op.ID, op.API, op.L, op.N, op.T, err, len(out))
	}
}

// ---------------------------------------------------------------- generators

func (w *World) doNewGen(op *Op) {
	b := make([]byte, op.L)
	var err error
	_, ok := w.call(fmt.Sprintf("op %d: new generator and %d bytes from it", op.ID, op.L), func() {
		switch op.X {
		case "worker":
			wk := lib_worker.NewWorker()
			sub := *op
			sub.API = "wsh"
			w.workers = append(w.workers, wk)
			sub.Obj = len(w.workers) - 1
			sub.Seed |= 1
			w.doSplit(&sub)
			b = nil
		case "rand":
			g := randomizer.NewRandomizer()
			w.rgens = append(w.rgens, g)
			_, err = g.Read(b)
		default:
			g := lib_csprng.NewCSPRNG()
			w.gens = append(w.gens, genObj{g: g})
			_, err = g.Read(b)
		}
	})
	if ok && err == nil && w.prof.Fresh && b != nil {
		w.st.add("op:new generator", 1)
		w.addStream(op, "output of a new generator", b, nil)
	}
}

func (w *World) doRandomizerRead(op *Op) {
	if len(w.rgens) == 0 {
		return
	}
	b := make([]byte, op.L)
	if _, ok := w.call("randomizer read", func() { w.rgens[op.Obj%len(w.rgens)].Read(b) }); ok && w.prof.Fresh {
		w.addStream(op, "output of a randomizer", b, nil)
	}
}

func (w *World) doUnique(op *Op) {
	n := byte(op.N)
	var out []byte
	what := fmt.Sprintf("op %d: %s(%d)", op.ID, map[string]string{"uniq": "GetUniqueBytes", "perm": "Perm", "rperm": "Randomizer.Perm"}[op.K], n)
	w.expect(int(n), 1)
	_, ok := w.call(what, func() {
		switch op.K {
		case "uniq":
			out = w.gen(op.Obj).GetUniqueBytes(n)
		case "perm":
			out = w.gen(op.Obj).Perm(n)
		case "rperm":
			if len(w.rgens) == 0 {
				w.rgens = append(w.rgens, randomizer.NewRandomizer())
			}
			out = w.rgens[op.Obj%len(w.rgens)].Perm(n)
		}
	})
	if !ok {
		return
	}
	w.st.add("op:"+op.K, 1)
	if w.plan.Prop != "C11" {
		return
	}
	if len(out) != int(n) {
		w.viol("unique", "%s returned %d bytes", what, len(out))
		return
	}
	var seen [256]bool
	for i, b := range out {
		if seen[b] {
			w.viol("unique", "%s returned %d twice (second time at index %d)", what, b, i)
			return
		}
		seen[b] = true
		if op.K != "uniq" && b >= n {
			w.viol("unique", "%s returned %d, not below %d", what, b, n)
			return
		}
	}
	// successive draws are made afresh; with 30 elements two of them coincide
	// with a probability below 2^-140
	if n >= 30 && simrt.CurEnv().AESReal {
		o := w.drawObj(op)
		for _, d := range w.draws {
			if d.obj == o && d.k == op.K && bytes.Equal(d.val, out) {
				w.viol("unique", "%s returned the same bytes as op %d before it: %x...", what, d.op, out[:16])
				return
			}
		}
		w.draws = append(w.draws, drawn{o, op.ID, op.K, append([]byte(nil), out...)})
	}
	if op.Cnt > 0 {
		w.spread(op, what)
	}
}

// a draw made earlier in this incarnation
type drawn struct {
	obj, op int
	k       string
	val     []byte
}

func (w *World) drawObj(op *Op) int {
	if op.K == "rperm" {
		return -1 - op.Obj%len(w.rgens)
	}
	return op.Obj % len(w.gens)
}

// spread makes many draws and requires that every value came up at every
// position: nothing about a draw is fixed in advance.
func (w *World) spread(op *Op, what string) {
	n := byte(op.N)
	vals := int(n)
	if op.K == "uniq" {
		vals = 255
	}
	hit := make([][256]bool, n)
	var rel relations
	for j := 0; j < op.Cnt; j++ {
		var out []byte
		if _, ok := w.call(what, func() {
			switch op.K {
			case "uniq":
				out = w.gen(op.Obj).GetUniqueBytes(n)
			case "perm":
				out = w.gen(op.Obj).Perm(n)
			case "rperm":
				out = w.rgens[op.Obj%len(w.rgens)].Perm(n)
			}
		}); !ok || len(out) != int(n) {
			return
		}
		for i, b := range out {
			hit[i][b] = true
		}
		rel.next(out)
	}
	if m := rel.judge(int(n), vals); m != "" && simrt.CurEnv().AESReal {
		w.viol("unique", "%s: in %d draws, %s", what, op.Cnt, m)
		return
	}
	w.st.add("draws in spread tests", int64(op.Cnt))
	for i := range hit {
		for v := 0; v < vals; v++ {
			if !hit[i][v] {
				w.viol("unique", "%s: in %d draws the value %d never came up at index %d", what, op.Cnt, v, i)
				return
			}
		}
	}
}

// relations between a draw and the few before it: common values, values at the
// same index, values that follow each other in both. Draws made afresh have as
// many of them as chance gives, up to a factor for draws that are not exactly
// uniform.
type relations struct {
	last [4][]byte
	n    [4][3]float64 // common, same index, same successor
	c    [4]float64    // pairs compared
}

func (r *relations) next(out []byte) {
	var has [256]bool
	var after [256]int
	for i, b := range out {
		has[b] = true
		if i > 0 {
			after[out[i-1]] = int(b) + 1
		}
	}
	for l, prev := range r.last {
		if prev == nil {
			continue
		}
		r.c[l]++
		for i, b := range prev {
			if has[b] {
				r.n[l][0]++
			}
			if out[i] == b {
				r.n[l][1]++
			}
			if i > 0 && after[prev[i-1]] == int(b)+1 {
				r.n[l][2]++
			}
		}
	}
	copy(r.last[1:], r.last[:3])
	r.last[0] = append([]byte(nil), out...)
}

func (r *relations) judge(n, vals int) string {
	for l := range r.last {
		N, v := float64(n), float64(vals)
		for i, what := range []string{"values in common with", "indices with the same value as in", "values with the same successor as in"} {
			want := r.c[l] * []float64{N * N / v, N / v, N * N / v / v}[i]
			got := r.n[l][i]
			if got > 4*want+200 || want > 1000 && got < want/3 {
				return fmt.Sprintf("there are %.0f %s the draw %d before (expected %.0f)", got, what, l+1, want)
			}
		}
	}
	return ""
}
