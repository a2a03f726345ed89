package worker

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"runtime/debug"

	lib_csprng "github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	lib_worker "github.com/fadhilkurnia/shamir/worker"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// Prof says which oracles decide a property.
type Prof struct {
	Shape, Points, Degree, Format, Reconstruct bool
	Watch                                      bool // immutability at every scheduling decision
	Fresh                                      bool // record randomness streams and compare them
	CrossInc                                   bool // ... only between incarnations
	Uniform                                    bool
	Panic                                      bool // a panic or process exit on a legal call is a violation
	Block                                      bool // so is a deadlock or a call that never ends
	Races                                      int  // see simrt.Sim.Races
}

var profs = map[string]Prof{
	"C01": {Shape: true, Reconstruct: true, Panic: true, Block: true},
	"C02": {Shape: true, Reconstruct: true, Panic: true, Block: true},
	"C03": {Shape: true, Degree: true, Reconstruct: true, Panic: true, Block: true, Races: 2},
	"C04": {Watch: true},
	"C05": {Panic: true, Block: true, Races: 2},
	"C06": {Points: true, Panic: true, Block: true},
	"C07": {Degree: true, Uniform: true, Fresh: true},
	"C08": {Fresh: true, Races: 1},
	"C09": {Fresh: true, CrossInc: true},
	"C10": {Panic: true, Block: true, Races: 1},
	"C11": {Panic: true, Block: true},
	"C12": {Panic: true, Block: true},
	"C13": {Panic: true, Block: true},
	"C14": {Shape: true, Degree: true, Reconstruct: true, Panic: true, Block: true},
	"C15": {Panic: true, Block: true, Races: 2},
	"C16": {Shape: true, Degree: true, Reconstruct: true, Fresh: true, Panic: true, Block: true, Races: 2},
	"C18": {Watch: true, Panic: true, Block: true, Races: 2},
	"C17": {Format: true, Reconstruct: true, Panic: true},
}

// Sharing is one secret and the shares that exist of it, as the test knows it.
type Sharing struct {
	id     int
	api    string
	ssms   bool
	n, k   int
	secret []byte
	live   [][]byte // slices as returned by the library
	snap   [][]byte // private copies
	dirty  []bool   // scribbled on by its owner
	inc    int
	acked  map[int]bool
}

type watched struct {
	what string
	live []byte
	snap []byte
	off  bool
}

type genObj struct {
	g     *lib_csprng.CSPRNG
	keyIV []byte
	bad   bool
	base  uint64 // position at which the recorded reads start
}

// stream is an observed piece of secret-dependent randomness. Bytes at which
// the library overwrote the random value are unknown.
type stream struct {
	inc, op int
	what    string
	val     []byte
	known   []bool // nil: all
}

// World is the state of one run.
type World struct {
	plan     *Plan
	bufs     map[string][]byte
	prof     Prof
	st       Stats
	sim      *simrt.Sim
	sh       map[int]*Sharing
	inc      int
	gens     []genObj
	advanced map[int]bool
	vecs     map[int][]byte // operands shared by the clients
	rgens    []*randomizer.Randomizer
	workers  []lib_worker.Worker
	pools    []*poolObj
	watch    []*watched
	streams  []stream
	public   []stream // tags and padding
	tags     []tagRow
	hist     []histOp
	net      *network
	stats    map[string]*[256]int
	inject   int
	variant  int
	shared   map[uint64][]byte // secrets passed to several calls
	bug      string
	nwatch   int
	prevC    map[string][]byte
	deps     map[string][]depRow
	draws    []drawn
	vclass   string
	vmsg     string
}

func (w *World) viol(class, format string, a ...any) {
	if w.vclass == "" {
		w.vclass, w.vmsg = class, fmt.Sprintf(format, a...)
	}
	simrt.Report(class, format, a...)
}

// harness trouble: ends the check with an error, never a violation.
func (w *World) trouble(format string, a ...any) {
	if w.bug == "" {
		w.bug = fmt.Sprintf(format, a...)
	}
}

// call runs library code; ok is false if it panicked.
func (w *World) call(what string, f func()) (pan string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if simrt.IsAbort(r) {
				panic(r)
			}
			if x, is := r.(simrt.ExitT); is {
				pan = "the process exited: " + x.Msg
			} else {
				pan = fmt.Sprintf("panic: %v [%s]", r, simrt.TrimStack(string(debug.Stack())))
			}
			ok = false
			w.st.add("panics", 1)
			if simrt.EntFails > 0 { // giving up without entropy is legal
				w.st.add("calls that gave up without entropy", 1)
			} else if w.prof.Panic {
				w.viol("panic", "%s: %s", what, pan)
			}
		}
	}()
	w.expect(1, 1000)
	f()
	return "", true
}

// ------------------------------------------------------------------ secrets

func (w *World) secret(op *Op) []byte {
	b := make([]byte, op.L)
	r := newRng(op.Seed, 1, uint64(w.variant))
	switch op.Sec {
	case 0:
		r.fill(b)
	case 1:
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3: // trailing zeros
		r.fill(b)
		for i := len(b) - 1 - r.n(len(b)); i < len(b); i++ {
			b[i] = 0
		}
	case 4: // leading zeros
		r.fill(b)
		for i := 0; i < 1+r.n(len(b)); i++ {
			b[i] = 0
		}
	case 5: // text
		for i := range b {
			b[i] = "attack at dawn! "[(i+int(r.s&3))%16]
		}
	case 6: // sparse
		b[r.n(len(b))] = byte(1 + r.n(255))
	case 7: // repeated byte
		v := byte(r.u())
		for i := range b {
			b[i] = v
		}
	case 8: // short period
		p := make([]byte, r.pick(1, 2, 3, 16, 32))
		r.fill(p)
		for i := range b {
			b[i] = p[i%len(p)]
		}
	}
	if w.variant > 0 && op.Sec != 0 {
		for i := range b {
			b[i] ^= 0xA5
		}
	}
	return b
}

// guarded returns a copy of b with spare capacity on both sides, so that code
// that writes past a slice it was given is noticed.
func (w *World) guarded(what string, b []byte) []byte {
	room := 16
	if len(b) <= 2000 {
		room = len(b) + 40
	}
	g := make([]byte, 8+len(b)+room)
	for i := range g {
		g[i] = 0xC3
	}
	copy(g[8:], b)
	if w.prof.Watch {
		w.track(what, g)
	}
	return g[8 : 8+len(b)]
}

// rewrite is what owners do now and then with a secret when they are done with
// it: append to it, wipe it.
func (w *World) rewrite(b []byte, seed uint64) {
	r := newRng(seed, 79)
	if len(b) == 0 || !r.p(0.2) {
		return
	}
	if r.p(0.5) {
		_ = append(b, 0xAB, 0xCD, 0xEF)
	}
	for j := range b {
		b[j] = ^b[j]
	}
	for i := len(w.watch) - 1; i >= 0; i-- { // the youngest entry that holds b is its own
		x := w.watch[i]
		if len(x.live) >= len(b) && (&x.live[0] == &b[0] || len(x.live) >= len(b)+24 && &x.live[8] == &b[0]) {
			copy(x.snap, x.live)
			break
		}
	}
	w.checkWatch()
}

// reuse returns the calling client's buffer of that name: some clients keep the
// secrets and shares of one operation after the other in the same memory.
func (w *World) reuse(name string, b []byte) []byte {
	if b == nil {
		return nil
	}
	if g := simrt.Cur(); g != nil {
		name += g.Name
	}
	if cap(w.bufs[name]) < len(b) {
		w.bufs[name] = make([]byte, len(b)+64)
	}
	g := w.bufs[name][:len(b)]
	copy(g, b)
	return g
}

// received puts the shares where some clients have them: in buffers they use
// again and again, or in the middle of larger ones.
func (w *World) received(what string, list [][]byte) {
	for i := range list {
		switch {
		case list[i] == nil:
		case !w.prof.Watch:
			list[i] = w.reuse(fmt.Sprint("share", i), list[i])
		case len(w.watch) < 400:
			list[i] = w.guarded(fmt.Sprintf("share %d of the list given to %s", i, what), list[i])
		}
	}
}

func (w *World) track(what string, b []byte) *watched {
	x := &watched{what: what, live: b, snap: append([]byte(nil), b...)}
	w.watch = append(w.watch, x)
	return x
}

func (w *World) checkWatch() {
	for _, x := range w.watch {
		if !x.off && !bytes.Equal(x.live, x.snap) {
			i := 0
			for x.live[i] == x.snap[i] {
				i++
			}
			w.viol("overwritten", "%s changed at byte %d of %d: %#02x became %#02x", x.what, i, len(x.live), x.snap[i], x.live[i])
			x.off = true
			return
		}
	}
	w.nwatch += len(w.watch)
}

// -------------------------------------------------------------------- split

func isSSMS(api string) bool { return api == "ssms" || api == "ssmsr" || api == "wss" }

// splitCall runs one split operation of the library.
func (w *World) splitCall(op *Op, secret []byte) (out [][]byte, err error, pan string, ok bool) {
	what := fmt.Sprintf("%s of %d bytes, n=%d k=%d", op.API, len(secret), op.N, op.T)
	w.expect(op.N, len(secret))
	pan, ok = w.call(what, func() {
		switch op.API {
		case "split":
			out, err = shamir.Split(secret, op.N, op.T)
		case "gen":
			out, err = shamir.SplitGeneric(secret, op.N, op.T)
		case "par":
			out, err = shamir.SplitP(secret, op.N, op.T)
		case "rnd":
			out, err = shamir.SplitWithRandomizer(secret, op.N, op.T, w.gen(op.Obj))
		case "old":
			out, err = shamir.SplitWithRandomizerOld(secret, op.N, op.T, w.gen(op.Obj))
		case "ssms":
			out, err = krawczyk.Split(secret, op.N, op.T)
		case "ssmsr":
			out, err = krawczyk.SplitWithRandomizer(secret, op.N, op.T, w.gen(op.Obj))
		case "wsh":
			out, err = w.worker(op.Obj, op.Seed).Split("shamir", secret, op.N, op.T)
		case "wss":
			out, err = w.worker(op.Obj, op.Seed).Split("krawczyk", secret, op.N, op.T)
		default:
			w.trouble("unknown api %q", op.API)
		}
	})
	return
}

func (w *World) gen(i int) *lib_csprng.CSPRNG {
	if len(w.gens) == 0 {
		w.gens = append(w.gens, genObj{g: lib_csprng.NewCSPRNG()})
	}
	return w.gens[i%len(w.gens)].g
}

// worker returns a shared worker, or a copy of it: both are legal uses.
func (w *World) worker(i int, seed uint64) *lib_worker.Worker {
	if len(w.workers) == 0 {
		w.workers = append(w.workers, lib_worker.NewWorker())
	}
	p := &w.workers[i%len(w.workers)]
	if seed&3 == 0 {
		c := *p
		return &c
	}
	return p
}

func (w *World) doSplit(op *Op) *Sharing {
	b := w.secret(op)
	var in []byte
	if op.X == "shared" { // several calls share one input slice
		key := simrt.Hash(uint64(op.L), uint64(op.Sec), op.Seed%3)
		if w.shared[key] == nil {
			w.shared[key] = w.guarded("a secret shared by several calls", b)
		}
		in = w.shared[key]
		b = append([]byte(nil), in...)
	} else if !w.prof.Watch && op.Seed&3 == 1 {
		in = w.reuse("secret", b)
	} else {
		in = w.guarded(fmt.Sprintf("the secret passed to op %d (%s)", op.ID, op.API), b)
	}
	out, err, _, ok := w.splitCall(op, in)
	if !ok {
		return nil
	}
	what := fmt.Sprintf("op %d: %s of %d bytes, n=%d k=%d", op.ID, op.API, op.L, op.N, op.T)
	if err != nil {
		if w.prof.Shape && simrt.CurEnv().EntFail == 0 {
			w.viol("shape", "%s failed: %v", what, err)
		}
		return nil
	}
	w.st.add("op:split:"+op.API, 1)
	s := &Sharing{id: op.ID, api: op.API, ssms: isSSMS(op.API), n: op.N, k: op.T, secret: b, live: out, inc: w.inc, acked: map[int]bool{}}
	s.dirty = make([]bool, len(out))
	want := op.L + 1
	if s.ssms {
		want = (op.L+op.T-1)/op.T + 22
	}
	shapeOK := len(out) == op.N
	for i := range out {
		s.snap = append(s.snap, append([]byte(nil), out[i]...))
		if len(out[i]) != want {
			shapeOK = false
		}
	}
	if !shapeOK {
		if w.prof.Shape {
			l := -1
			if len(out) > 0 {
				l = len(out[0])
			}
			w.viol("shape", "%s returned %d shares (first of %d bytes), want %d shares of %d bytes each", what, len(out), l, op.N, want)
		}
		return nil
	}
	if w.prof.Watch {
		for i := range out {
			w.track(fmt.Sprintf("share %d returned by op %d (%s)", i, op.ID, op.API), out[i])
		}
	}
	if w.prof.Points {
		w.checkPoints(what, s)
	}
	if w.prof.Degree {
		w.checkDegree(what, s, op)
	}
	if w.prof.Format {
		w.checkFormat(what, s)
	}
	if w.prof.Fresh || w.prof.Uniform {
		w.recordRandomness(op, s)
	}
	w.sh[op.ID] = s
	if op.X != "shared" {
		w.rewrite(in, op.Seed+1)
	}
	return s
}

func (w *World) checkPoints(what string, s *Sharing) {
	at := func(sh []byte) byte {
		if s.ssms {
			return sh[ref.MetaLen]
		}
		return sh[len(sh)-1]
	}
	var seen [256]int
	for i := range seen {
		seen[i] = -1
	}
	for i, sh := range s.snap {
		x := at(sh)
		if x == 0 {
			w.viol("points", "%s: share %d has evaluation point 0, it carries the shared value in clear", what, i)
			return
		}
		if seen[x] >= 0 {
			w.viol("points", "%s: shares %d and %d have the same evaluation point %d", what, seen[x], i, x)
			return
		}
		seen[x] = i
	}
	if s.ssms {
		var ids [256]bool
		for i, sh := range s.snap {
			id := int(sh[len(sh)-1])
			if id >= s.n || ids[id] {
				w.viol("points", "%s: share %d carries part number %d (repeated or not below %d)", what, i, id, s.n)
				return
			}
			ids[id] = true
		}
	}
}

func (w *World) meta(s *Sharing) [][]byte {
	m := make([][]byte, len(s.snap))
	for i, sh := range s.snap {
		m[i] = sh[:ref.MetaLen+1]
	}
	return m
}

func (w *World) positions(L, cost int, seed uint64) []int {
	// all positions when cheap, else boundaries and a sample
	if L*cost <= 400000 {
		p := make([]int, L)
		for i := range p {
			p[i] = i
		}
		return p
	}
	m := 400000/cost + 8
	r := newRng(seed, 99)
	set := map[int]bool{}
	for _, x := range []int{0, 1, L - 1, L - 2, 1023, 1024, L / 2, (L - 1) / 1024 * 1024} {
		if x >= 0 && x < L {
			set[x] = true
		}
	}
	for len(set) < m && len(set) < L {
		set[r.n(L)] = true
	}
	var p []int
	for i := 0; i < L; i++ {
		if set[i] {
			p = append(p, i)
		}
	}
	return p
}

func (w *World) checkDegree(what string, s *Sharing, op *Op) {
	if s.ssms {
		d, err := ref.DecodeSSMS(s.snap, s.n, s.k)
		if err != nil {
			w.viol("degree", "%s: the shares do not decode: %v", what, err)
			return
		}
		if !bytes.Equal(d.Secret, s.secret) {
			w.viol("degree", "%s: the shares decode to another secret (%s)", what, diff(d.Secret, s.secret))
			return
		}
		rec := make([]byte, ref.MetaLen)
		for i := range rec {
			rec[i] = d.Coefs[i][0]
		}
		if m := ref.CheckDegree(w.meta(s), rec, s.k, w.positions(ref.MetaLen, 1, 0)); m != "" {
			w.viol("degree", "%s: metadata %s", what, m)
			return
		}
		if m := ref.CheckCode(s.snap, s.n, s.k); m != "" {
			w.viol("degree", "%s: %s", what, m)
		}
		return
	}
	if m := ref.CheckDegree(s.snap, s.secret, s.k, w.positions(len(s.secret), s.n*s.k, op.Seed)); m != "" {
		w.viol("degree", "%s: %s", what, m)
	}
}

func (w *World) checkFormat(what string, s *Sharing) {
	if s.ssms {
		d, err := ref.DecodeSSMS(s.snap, s.n, s.k)
		if err == nil && !bytes.Equal(d.Secret, s.secret) {
			err = fmt.Errorf("another secret results (%s)", diff(d.Secret, s.secret))
		}
		if err != nil {
			w.viol("format", "%s: the original release cannot read these shares: %v", what, err)
			return
		}
		if s.n > s.k {
			if d, err = ref.DecodeSSMS(s.snap[s.n-s.k:], s.n, s.k); err != nil || !bytes.Equal(d.Secret, s.secret) {
				w.viol("format", "%s: the original release cannot read the last %d shares (err=%v)", what, s.k, err)
			}
		}
		return
	}
	got, err := ref.Combine(s.snap[s.n-s.k:])
	if err != nil || !bytes.Equal(got, s.secret) {
		w.viol("format", "%s: the original release cannot read these shares (err=%v, %s)", what, err, diff(got, s.secret))
	}
}

func diff(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d bytes instead of %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d of %d is %#02x instead of %#02x", i, len(want), got[i], want[i])
		}
	}
	return "equal"
}

// ------------------------------------------------------------------ combine

func clone(x [][]byte) [][]byte {
	return append([][]byte(nil), x...)
}

func sameHeaders(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) || (len(a[i]) > 0 && &a[i][0] != &b[i][0]) || (a[i] == nil) != (b[i] == nil) {
			return false
		}
	}
	return true
}

// combineCall recombines list with the scheme of api.
func (w *World) combineCall(what, api string, list [][]byte, n, k, obj int, seed uint64) (out []byte, err error, ok bool) {
	list, full := roomy(list)
	before := clone(full)
	w.expectList(list, 0)
	_, ok = w.call(what, func() {
		switch api {
		case "wsh":
			out, err = w.worker(obj, seed).Combine("shamir", list, n, k)
		case "wss":
			out, err = w.worker(obj, seed).Combine("krawczyk", list, n, k)
		case "ssms", "ssmsr":
			out, err = krawczyk.Combine(list, n, k)
		default:
			out, err = shamir.Combine(list)
		}
	})
	if w.prof.Watch && !sameHeaders(full, before) {
		w.viol("overwritten", "%s rearranged the list of shares it was given", what)
	}
	if ok && err == nil && w.prof.Watch {
		w.track("the secret returned by "+what, out)
	}
	return
}

// subset picks >= k clean shares of s in arrival order.
func (s *Sharing) subset(r *rng) []int {
	var ok []int
	for _, i := range r.perm(len(s.live)) {
		if !s.dirty[i] {
			ok = append(ok, i)
		}
	}
	if len(ok) < s.k {
		return nil
	}
	m := s.k
	switch r.n(6) {
	case 0, 1:
		m = s.k + r.n(len(ok)-s.k+1)
	case 2:
		m = len(ok)
	}
	L := len(s.secret)
	if s.ssms {
		L = ref.KeyLen + 4
	}
	most := 120000
	if r.n(24) == 0 {
		most *= 8
	}
	for m > s.k && m*m*L > most {
		m--
	}
	ok = ok[:m]
	switch r.n(8) {
	case 0: // ascending
		for i := range ok {
			for j := i; j > 0 && ok[j] < ok[j-1]; j-- {
				ok[j], ok[j-1] = ok[j-1], ok[j]
			}
		}
	case 1: // descending
		for i := range ok {
			for j := i; j > 0 && ok[j] > ok[j-1]; j-- {
				ok[j], ok[j-1] = ok[j-1], ok[j]
			}
		}
	}
	return ok
}

func (w *World) combineSubset(op *Op, s *Sharing, list [][]byte, tag string) {
	api := s.api
	if op.API != "" {
		api = op.API
	}
	if s.ssms && op.X == "nils" {
		r := newRng(op.Seed, 5)
		var l [][]byte
		for _, x := range list {
			for r.p(0.4) {
				l = append(l, nil)
			}
			l = append(l, x)
		}
		if r.p(0.4) {
			l = append(l, nil)
		}
		list = l
	}
	what := fmt.Sprintf("op %d: combining %d of the %s shares (n=%d k=%d, %d bytes, split op %d)%s", op.ID, len(list), s.api, s.n, s.k, len(s.secret), s.id, tag)
	if op.Seed&3 == 2 {
		w.received(what, list)
	}
	got, err, ok := w.combineCall(what, api, list, s.n, s.k, op.Obj, op.Seed)
	if !ok {
		return
	}
	w.st.add("op:combine", 1)
	defer w.rewrite(got, op.Seed)
	if !w.prof.Reconstruct {
		return
	}
	if err != nil {
		w.viol("reconstruct", "%s failed: %v", what, err)
	} else if !bytes.Equal(got, s.secret) {
		w.viol("reconstruct", "%s returned a wrong secret: %s", what, diff(got, s.secret))
	}
}

func (w *World) doCombine(op *Op) {
	s := w.sh[op.Ref]
	if s == nil {
		return
	}
	idx := s.subset(newRng(op.Seed, 3))
	if idx == nil {
		return
	}
	list := make([][]byte, len(idx))
	for i, j := range idx {
		list[i] = s.live[j]
	}
	w.combineSubset(op, s, list, "")
}

// -------------------------------------------------------- incarnation setup

func (w *World) boot(n int) {
	inc := &w.plan.Incs[n]
	w.inc = n
	simrt.SetEnv(inc.Env)
	simrt.Boot()
	w.gens, w.rgens, w.workers, w.pools = nil, nil, nil, nil
	w.advanced = map[int]bool{}
	w.vecs = map[int][]byte{}
	w.shared = map[uint64][]byte{}
	w.bufs = map[string][]byte{}
	w.prevC = map[string][]byte{}
	w.deps, w.draws = nil, nil
	for _, g := range inc.Gens {
		g := g
		_, ok := w.call("creating a generator", func() {
			switch {
			case g.Rand:
				w.rgens = append(w.rgens, randomizer.NewRandomizer())
			case g.Key != "":
				kiv, err := hex.DecodeString(g.Key)
				if err != nil {
					w.trouble("%v", err)
					return
				}
				o := genObj{keyIV: append([]byte(nil), kiv...)}
				o.g = lib_csprng.NewCSPRNGWithKeyIV(kiv)
				for i := range kiv { // callers wipe key material after use
					kiv[i] = 0xEE
				}
				w.gens = append(w.gens, o)
			default:
				w.gens = append(w.gens, genObj{g: lib_csprng.NewCSPRNG()})
			}
		})
		if !ok && !g.Rand {
			w.gens = append(w.gens, genObj{bad: true, g: nil})
		}
	}
	for i := 0; i < inc.Workers; i++ {
		w.call("creating a worker", func() { w.workers = append(w.workers, lib_worker.NewWorker()) })
	}
	for _, sz := range inc.Pools {
		w.pools = append(w.pools, newPoolObj(sz))
	}
}
