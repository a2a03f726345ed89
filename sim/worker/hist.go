package worker

import (
	"bytes"
	"fmt"
	"time"

	"github.com/anishathalye/porcupine"
	lib_utils "github.com/fadhilkurnia/shamir/utils"

	gobytes "bytes"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// histOp is one call of a concurrent history, stamped with global event
// sequence numbers.
type histOp struct {
	obj, thread int
	call, ret   int64
	kind        string // read, consume, get, put
	out         []byte
	id          int
	fresh       bool
	op          int
}

// ------------------------------------------------------------ generator reads

func (w *World) doRead(op *Op) {
	if len(w.gens) == 0 {
		w.gen(0)
	}
	o := w.gens[op.Obj%len(w.gens)]
	if o.bad {
		return
	}
	b := make([]byte, op.L)
	if op.X == "dirty" { // the destination holds old data
		newRng(op.Seed, 61).fill(b)
	}
	g := b
	if op.X == "window" { // a window of a larger buffer
		big := make([]byte, op.L+16)
		for i := range big {
			big[i] = 0xC3
		}
		g = big[8 : 8+op.L]
		for i := range g {
			g[i] = 0
		}
		defer func() {
			if w.plan.Prop != "C10" {
				return
			}
			for i, c := range big {
				if (i < 8 || i >= 8+op.L) && c != 0xC3 {
					w.viol("stream", "op %d: Read wrote outside its destination", op.ID)
					return
				}
			}
		}()
	}
	h := histOp{obj: op.Obj % len(w.gens), thread: simrt.Cur().ID, call: simrt.Stamp(), kind: "read", op: op.ID}
	var n int
	var err error
	if op.X == "consume" {
		h.kind = "consume"
		if _, ok := w.call("unique bytes", func() {
			if op.Cnt&1 == 0 {
				o.g.GetUniqueBytes(byte(op.N))
			} else {
				o.g.Perm(byte(op.N))
			}
		}); !ok {
			return
		}
	} else {
		w.expect(1, op.L)
		if _, ok := w.call(fmt.Sprintf("op %d: reading %d bytes", op.ID, op.L), func() { n, err = o.g.Read(g) }); !ok {
			return
		}
		w.st.add("op:read", 1)
		if err != nil || n != op.L {
			if w.plan.Prop == "C10" {
				w.viol("stream", "op %d: Read of %d bytes returned %d, %v", op.ID, op.L, n, err)
			}
			return
		}
	}
	h.ret = simrt.Stamp()
	h.out = append([]byte(nil), g...)
	w.hist = append(w.hist, h)
	if w.prof.Fresh && o.keyIV == nil && op.X != "consume" {
		w.addStream(op, "output of a generator", g, nil)
	}
}

// doAdvance moves a generator far into its keystream by large reads, which are
// compared with the reference at once; the history starts after them.
func (w *World) doAdvance(op *Op) {
	o := &w.gens[op.Obj%len(w.gens)]
	defer func() { w.advanced[op.ID] = true }()
	if o.bad || o.keyIV == nil {
		return
	}
	b := make([]byte, min(op.L, 1<<26))
	for left := op.L; left > 0; {
		g := b[:min(left, len(b))]
		var n int
		var err error
		w.expect(1, len(g)/100)
		if _, ok := w.call(fmt.Sprintf("op %d: reading %d bytes", op.ID, len(g)), func() { n, err = o.g.Read(g) }); !ok {
			return
		}
		if err != nil || n != len(g) {
			w.viol("stream", "op %d: Read of %d bytes returned %d, %v", op.ID, len(g), n, err)
			return
		}
		simrt.Atomic(func() {
			if want := ref.CTR(o.keyIV, o.base, len(g)); !bytes.Equal(want, g) {
				i := 0
				for want[i] == g[i] {
					i++
				}
				w.viol("stream", "op %d: the read of %d bytes at position %d of generator %d differs from its AES-CTR keystream at position %d", op.ID, len(g), o.base, op.Obj, o.base+uint64(i))
			}
		})
		o.base += uint64(len(g))
		left -= len(g)
		w.st.add("keystream bytes read ahead", int64(len(g)))
	}
}

// doAwait waits for the end of an advance, if the plan still has it.
func (w *World) doAwait(op *Op) {
	for _, th := range w.plan.Incs[w.inc].Threads {
		for i := range th {
			if th[i].ID == op.Ref && th[i].K == "advance" {
				simrt.Wait(0, func() bool { return w.advanced[op.Ref] })
			}
		}
	}
}

// checkStreams decides C10 for every generator with a known key.
func (w *World) checkStreams() {
	for gi, o := range w.gens {
		if o.keyIV == nil {
			continue
		}
		var hs []histOp
		total := 0
		mixed := false
		for _, h := range w.hist {
			if h.obj == gi {
				hs = append(hs, h)
				total += len(h.out)
				if h.kind == "consume" {
					mixed = true
					total += 4096
				}
			}
		}
		if len(hs) == 0 {
			continue
		}
		ks := ref.CTR(o.keyIV, o.base, total+64)
		if mixed {
			w.checkSegments(gi, ks, hs)
			continue
		}
		model := porcupine.Model{
			Init: func() any { return 0 },
			Step: func(st, in, out any) (bool, any) {
				p := st.(int)
				b := out.([]byte)
				return bytes.Equal(ks[p:p+len(b)], b), p + len(b)
			},
		}
		var ops []porcupine.Operation
		for _, h := range hs {
			ops = append(ops, porcupine.Operation{ClientId: h.thread, Input: len(h.out), Call: h.call, Output: h.out, Return: h.ret})
		}
		w.st.add("linearizability checks", 1)
		switch porcupine.CheckOperationsTimeout(model, ops, 20*time.Second) {
		case porcupine.Illegal:
			w.viol("stream", "generator %d: the %d reads of this history are not successive segments of its AES-CTR keystream in any order consistent with real time: %s", gi, len(hs), describeReads(ks, hs))
			return
		case porcupine.Unknown:
			w.st.add("linearizability checks inconclusive", 1)
		}
	}
}

// checkSegments handles histories in which other calls consume an unknown
// number of bytes: every read is a segment, segments are disjoint, and a read
// that starts after another ended lies behind it.
func (w *World) checkSegments(gi int, ks []byte, hs []histOp) {
	type seg struct {
		h      histOp
		lo, hi int
	}
	var segs []seg
	for _, h := range hs {
		if h.kind != "read" || len(h.out) < 12 {
			continue
		}
		p := bytes.Index(ks, h.out)
		if p < 0 {
			w.viol("stream", "generator %d: the %d bytes returned by op %d are not part of its AES-CTR keystream", gi, len(h.out), h.op)
			return
		}
		for _, s := range segs {
			if p < s.hi && s.lo < p+len(h.out) {
				w.viol("stream", "generator %d: op %d returned keystream bytes [%d,%d), op %d returned [%d,%d): emitted twice", gi, h.op, p, p+len(h.out), s.h.op, s.lo, s.hi)
				return
			}
			if (s.h.ret < h.call && p < s.lo) || (h.ret < s.h.call && s.lo < p) {
				w.viol("stream", "generator %d: op %d and op %d read the keystream backwards", gi, h.op, s.h.op)
				return
			}
		}
		segs = append(segs, seg{h, p, p + len(h.out)})
	}
	w.st.add("keystream segments located", int64(len(segs)))
}

func describeReads(ks []byte, hs []histOp) string {
	s := ""
	for i, h := range hs {
		if i == 8 {
			return s + "..."
		}
		p := -2
		if len(h.out) >= 8 {
			p = bytes.Index(ks, h.out)
		}
		switch {
		case p == -2:
			s += fmt.Sprintf("op %d: %d bytes; ", h.op, len(h.out))
		case p < 0:
			s += fmt.Sprintf("op %d: %d bytes not from the keystream; ", h.op, len(h.out))
		default:
			s += fmt.Sprintf("op %d: bytes [%d,%d); ", h.op, p, p+len(h.out))
		}
	}
	return s
}

// -------------------------------------------------------------------- pools

type poolObj struct {
	p    *lib_utils.BytesBufferPool
	size int
	ids  map[*gobytes.Buffer]int
	bufs []*gobytes.Buffer
	held map[int][]int // thread -> buffers
	dflt bool
}

func newPoolObj(size int) *poolObj {
	return &poolObj{p: lib_utils.NewBytesBufferPool(size), size: size, ids: map[*gobytes.Buffer]int{}, held: map[int][]int{}, dflt: size <= 0}
}

func (p *poolObj) id(b *gobytes.Buffer) (int, bool) {
	if i, ok := p.ids[b]; ok {
		return i, false
	}
	i := len(p.bufs)
	p.ids[b] = i
	p.bufs = append(p.bufs, b)
	return i, true
}

func (w *World) doPool(op *Op) {
	if len(w.pools) == 0 {
		return
	}
	pi := op.Obj % len(w.pools)
	p := w.pools[pi]
	t := simrt.Cur().ID
	h := histOp{obj: pi, thread: t, kind: op.K, op: op.ID}
	if op.K == "get" {
		h.call = simrt.Stamp()
		var b *gobytes.Buffer
		if _, ok := w.call(fmt.Sprintf("op %d: Get", op.ID), func() { b = p.p.Get() }); !ok {
			return
		}
		h.ret = simrt.Stamp()
		if b == nil {
			w.viol("pool", "op %d: Get returned no buffer", op.ID)
			return
		}
		h.id, h.fresh = p.id(b)
		for _, l := range p.held {
			for _, x := range l {
				if x == h.id {
					w.viol("pool", "op %d: Get returned a buffer that another holder has not put back", op.ID)
					return
				}
			}
		}
		b.Reset()
		b.WriteByte(byte(op.ID))
		p.held[t] = append(p.held[t], h.id)
	} else {
		var id int
		if l := p.held[t]; len(l) > 0 && op.X != "new" {
			i := int(op.Seed % uint64(len(l)))
			id = l[i]
			p.held[t] = append(append([]int{}, l[:i]...), l[i+1:]...)
		} else {
			id, _ = p.id(&gobytes.Buffer{})
		}
		h.id = id
		switch b := p.bufs[id]; op.Seed >> 40 % 4 { // buffers come back in any state
		case 0:
			b.Grow(op.L)
		case 1:
			b.Write(make([]byte, op.L))
		case 2:
			b.Reset()
			b.Write(make([]byte, op.L))
			b.Next(op.L / 2)
		}
		h.call = simrt.Stamp()
		if _, ok := w.call(fmt.Sprintf("op %d: Put", op.ID), func() { p.p.Put(p.bufs[id]) }); !ok {
			return
		}
		h.ret = simrt.Stamp()
	}
	w.st.add("op:pool "+op.K, 1)
	w.hist = append(w.hist, h)
}

type poolState struct {
	in string // sorted buffer ids, one byte each
}

// checkPools: an atomic bounded bag.
func (w *World) checkPools() {
	for pi, p := range w.pools {
		limit := p.size
		if p.dflt {
			limit = 1 // the default is positive: nothing more is promised
		}
		model := porcupine.Model{
			Init: func() any { return poolState{} },
			Step: func(st, in, out any) (bool, any) {
				s := st.(poolState)
				h := in.(histOp)
				if h.kind == "get" {
					if h.fresh {
						return len(s.in) == 0, s
					}
					i := gobytes.IndexByte([]byte(s.in), byte(h.id))
					if i < 0 {
						return false, s
					}
					return true, poolState{s.in[:i] + s.in[i+1:]}
				}
				if !p.dflt && len(s.in) >= limit {
					return true, s
				}
				i := 0
				for i < len(s.in) && s.in[i] < byte(h.id) {
					i++
				}
				return true, poolState{s.in[:i] + string([]byte{byte(h.id)}) + s.in[i:]}
			},
		}
		var ops []porcupine.Operation
		for _, h := range w.hist {
			if h.obj == pi && (h.kind == "get" || h.kind == "put") {
				ops = append(ops, porcupine.Operation{ClientId: h.thread, Input: h, Call: h.call, Output: nil, Return: h.ret})
			}
		}
		if len(ops) == 0 {
			continue
		}
		w.st.add("linearizability checks", 1)
		switch porcupine.CheckOperationsTimeout(model, ops, 20*time.Second) {
		case porcupine.Illegal:
			w.viol("pool", "pool %d (size %d): the history is not one of an atomic bounded bag: %s", pi, p.size, describePool(w.hist, pi))
			return
		case porcupine.Unknown:
			w.st.add("linearizability checks inconclusive", 1)
		}
	}
}

func describePool(hs []histOp, pi int) string {
	s := ""
	for _, h := range hs {
		if h.obj != pi {
			continue
		}
		f := ""
		if h.fresh {
			f = " (new)"
		}
		s += fmt.Sprintf("t%d %s %d%s [%d,%d]; ", h.thread, h.kind, h.id, f, h.call, h.ret)
		if len(s) > 900 {
			return s + "..."
		}
	}
	return s
}
