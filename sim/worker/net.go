package worker

import (
	"fmt"
	"time"

	"github.com/fadhilkurnia/shamir/shamir"

	"verif.local/sim/simrt"
)

// The simulated deployment: a process that deals and combines shares, and
// holders that keep one share of each secret on a disk, connected by a network
// that loses, duplicates, delays, reorders and corrupts messages.

type record struct {
	data []byte
	torn bool
}

type holder struct {
	id    int
	up    bool
	cut   bool // partitioned from the process
	epoch int
	disk  map[int]record // sharing -> durable record
	pend  map[int][]byte
}

type network struct {
	w     *World
	hs    []*holder
	rates Net
	calm  bool
	fired []Fault
	expl  map[uint64]map[string]bool
	// replies in arrival order, per gather
	inbox map[int]*inbox
}

type inbox struct {
	from   []int
	shares [][]byte
	seen   map[int]bool
}

func newNetwork(w *World) *network {
	n := &network{w: w, rates: w.plan.Net, inbox: map[int]*inbox{}}
	for i := 0; i < w.plan.Holders; i++ {
		n.hs = append(n.hs, &holder{id: i, up: true, disk: map[int]record{}, pend: map[int][]byte{}})
	}
	if w.plan.Explicit {
		n.expl = map[uint64]map[string]bool{}
		for _, f := range w.plan.Faults {
			if n.expl[f.Key] == nil {
				n.expl[f.Key] = map[string]bool{}
			}
			n.expl[f.Key][f.Kind] = true
		}
	}
	return n
}

// hit decides whether a fault strikes an event. The decision depends only on
// the plan and the identity of the event.
func (n *network) hit(key uint64, kind string, rate float64, at string) bool {
	if n.calm {
		return false
	}
	var yes bool
	if n.expl != nil {
		yes = n.expl[key][kind]
	} else if rate > 0 {
		var kh uint64
		for _, c := range []byte(kind) {
			kh = kh*131 + uint64(c)
		}
		yes = float64(simrt.Hash(n.w.plan.Seed, n.w.plan.Idx, key, kh)>>11)/(1<<53) < rate
	}
	if yes {
		n.fired = append(n.fired, Fault{key, kind, at})
		n.w.st.add("fault:"+kind, 1)
		n.w.inject++
	}
	return yes
}

func msgKey(inc, op, holder, attempt, dir int) uint64 {
	return simrt.Hash(uint64(inc), uint64(op), uint64(holder), uint64(attempt), uint64(dir), 0x6d7367)
}

func (n *network) latency(key uint64) time.Duration {
	j := n.rates.Jitter
	if j <= 0 {
		j = 200
	}
	return time.Duration(50+simrt.Hash(n.w.plan.Seed, key, 7)%uint64(j)) * time.Microsecond
}

// send delivers data through the faulty network.
func (n *network) send(key uint64, h *holder, at string, data []byte, deliver func(data []byte)) {
	n.w.st.add("messages", 1)
	if h.cut && !n.calm {
		n.w.st.add("fault:partition drop", 1)
		n.w.inject++
		return
	}
	if n.hit(key, "drop", n.rates.Drop, at) {
		return
	}
	d := n.latency(key)
	if n.hit(key, "slow", n.rates.Slow, at) {
		d *= 40
	}
	b := append([]byte(nil), data...)
	if len(b) > 0 && n.hit(key, "corrupt", n.rates.Corrupt, at) {
		b[simrt.Hash(key, 3)%uint64(len(b))] ^= byte(1 << (simrt.Hash(key, 4) % 8))
	}
	epoch := h.epoch
	_ = epoch
	n.w.sim.After(d, func() {
		if h.up && !(h.cut && !n.calm) {
			deliver(b)
		}
	})
	if n.hit(key, "dup", n.rates.Dup, at) {
		n.w.sim.After(d*3+77*time.Microsecond, func() {
			if h.up && !(h.cut && !n.calm) {
				deliver(append([]byte(nil), b...))
			}
		})
	}
}

// store: a write becomes durable after the disk's latency; a crash in between
// loses or tears it.
func (n *network) store(h *holder, slot int, data []byte, key uint64, ack func()) {
	at := fmt.Sprintf("disk of holder %d, sharing %d", h.id, slot)
	if n.hit(key, "disk full", n.rates.Full, at) {
		return
	}
	h.pend[slot] = data
	epoch := h.epoch
	n.w.sim.After(80*time.Microsecond, func() {
		if h.epoch != epoch || !h.up {
			return
		}
		if n.hit(key, "lost write", n.rates.Lost, at) {
			delete(h.pend, slot)
			return
		}
		h.disk[slot] = record{data: data}
		delete(h.pend, slot)
		ack()
	})
}

func (n *network) crash(h *holder, key uint64) {
	if !h.up {
		return
	}
	h.up = false
	h.epoch++
	n.w.inject++
	n.w.st.add("fault:holder crash", 1)
	for slot := 0; slot < 1<<12; slot++ {
		d, ok := h.pend[slot]
		if !ok {
			continue
		}
		if n.hit(simrt.Hash(key, uint64(slot)), "torn write", n.rates.Torn, fmt.Sprintf("disk of holder %d, sharing %d", h.id, slot)) {
			cut := int(simrt.Hash(key, uint64(slot), 9) % uint64(len(d)+1))
			if _, have := h.disk[slot]; !have {
				h.disk[slot] = record{data: d[:cut:cut], torn: cut < len(d)}
			}
		}
	}
	h.pend = map[int][]byte{}
}

func (w *World) holder(i int) *holder {
	if w.net == nil || len(w.net.hs) == 0 {
		return nil
	}
	return w.net.hs[i%len(w.net.hs)]
}

// netOp runs the operations of the deployment; false: not one of them.
func (w *World) netOp(op *Op) bool {
	if w.net != nil && w.net.calm && (op.K == "hcrash" || op.K == "wipe" || op.K == "cut") {
		return true // faults have stopped
	}
	switch op.K {
	case "disperse":
		w.doDisperse(op)
	case "gather":
		w.doGather(op)
	case "repair":
		w.doRepair(op)
	case "hcrash":
		if h := w.holder(op.Obj); h != nil {
			w.net.crash(h, op.Seed)
		}
	case "hstart":
		if h := w.holder(op.Obj); h != nil && !h.up {
			h.up = true
			w.st.add("fault:holder restart", 1)
		}
	case "wipe": // the disk is lost
		if h := w.holder(op.Obj); h != nil {
			w.net.crash(h, op.Seed)
			h.disk = map[int]record{}
			h.up = true
			w.st.add("fault:disk lost", 1)
			w.inject++
		}
	case "cut":
		r := newRng(op.Seed, 71)
		for _, h := range w.net.hs {
			h.cut = r.p(0.5)
		}
		w.st.add("fault:partition", 1)
		w.inject++
	case "heal":
		for _, h := range w.net.hs {
			h.cut = false
		}
		w.st.add("fault:heal", 1)
	case "calm": // faults stop; everything comes back
		for _, h := range w.net.hs {
			h.cut, h.up = false, true
		}
		w.net.calm = true
	case "noise":
		w.net.calm = false
	default:
		return false
	}
	return true
}

func (w *World) doDisperse(op *Op) {
	s := w.sh[op.Ref]
	if s == nil || w.net == nil {
		return
	}
	n := w.net
	for try := 0; try < 3; try++ {
		pending := 0
		for i := range s.live {
			if i >= len(n.hs) || s.acked[i] {
				continue
			}
			pending++
			i, h := i, n.hs[i]
			key := msgKey(w.inc, op.ID, i, try, 0)
			at := fmt.Sprintf("share %d of sharing %d to holder %d, attempt %d", i, s.id, i, try)
			n.send(key, h, at, s.live[i], func(d []byte) {
				n.store(h, s.id, d, key, func() {
					n.send(msgKey(w.inc, op.ID, i, try, 1), h, "ack of "+at, nil, func([]byte) { s.acked[i] = true })
				})
			})
		}
		if pending == 0 {
			break
		}
		simrt.Wait(4*time.Millisecond, func() bool {
			for i := range s.live {
				if i < len(n.hs) && !s.acked[i] {
					return false
				}
			}
			return true
		})
	}
	w.st.add("op:disperse", 1)
}

// gather asks the holders for their shares until enough distinct ones arrived.
func (w *World) gather(op *Op, s *Sharing, want int) *inbox {
	n := w.net
	in := &inbox{seen: map[int]bool{}}
	tries := 3
	if n.calm {
		tries = 6
	}
	for try := 0; try < tries && len(in.from) < want; try++ {
		for i, h := range n.hs {
			if in.seen[i] {
				continue
			}
			i, h := i, h
			at := fmt.Sprintf("request for sharing %d to holder %d, gather op %d attempt %d", s.id, i, op.ID, try)
			n.send(msgKey(w.inc, op.ID, i, try, 2), h, at, nil, func([]byte) {
				rec, ok := h.disk[s.id]
				if !ok || (rec.torn && !w.plan.Raw) { // the holder's checksum rejects torn records
					return
				}
				n.send(msgKey(w.inc, op.ID, i, try, 3), h, "reply to "+at, rec.data, func(d []byte) {
					if in.seen[i] && !w.plan.Raw { // duplicate delivery
						return
					}
					in.seen[i] = true
					in.from = append(in.from, i)
					in.shares = append(in.shares, d)
				})
			})
		}
		simrt.Wait(5*time.Millisecond, func() bool { return len(in.from) >= want })
	}
	return in
}

func (w *World) durable(s *Sharing) int {
	c := 0
	for _, h := range w.net.hs {
		if r, ok := h.disk[s.id]; ok && !r.torn {
			c++
		}
	}
	return c
}

func (w *World) epochs() (n int) {
	for _, h := range w.net.hs {
		n += h.epoch
	}
	return n
}

func (w *World) doGather(op *Op) {
	s := w.sh[op.Ref]
	if s == nil || w.net == nil {
		return
	}
	want := s.k
	r := newRng(op.Seed, 72)
	if r.p(0.4) {
		want = s.k + r.n(s.n-s.k+1)
	}
	if have := w.durable(s); want > have && have >= s.k {
		want = have
	}
	calm, have, epochs := w.net.calm, w.durable(s), w.epochs()
	in := w.gather(op, s, want)
	if len(in.shares) < s.k {
		w.st.add("probe:gather met too few shares", 1)
		if calm && have >= s.k && epochs == w.epochs() && !w.plan.Raw {
			w.trouble("run %d: gather op %d got %d of %d shares although the network is calm and %d are durable", w.plan.Idx, op.ID, len(in.shares), s.k, w.durable(s))
		}
		return
	}
	order := "in order of arrival"
	for i := 1; i < len(in.from); i++ {
		if in.from[i] < in.from[i-1] {
			w.st.add("probe:shares arrived out of order", 1)
			break
		}
	}
	w.st.add("op:gather", 1)
	list := in.shares
	if len(list) > want {
		list = list[:want]
	}
	for len(list) > s.k && len(list)*len(list)*len(s.secret) > 120000 {
		list = list[:len(list)-1]
	}
	w.combineSubset(op, s, clone(list), fmt.Sprintf(", from holders %v %s", in.from[:len(list)], order))
}

// doRepair regenerates the shares of holders that lost theirs.
func (w *World) doRepair(op *Op) {
	s := w.sh[op.Ref]
	if s == nil || w.net == nil || s.ssms {
		return
	}
	in := w.gather(op, s, s.k)
	if len(in.shares) < s.k {
		return
	}
	var missing []*holder
	for _, h := range w.net.hs {
		if _, ok := h.disk[s.id]; !ok && h.id < s.n {
			missing = append(missing, h)
		}
	}
	if len(missing) == 0 {
		return
	}
	var out [][]byte
	var err error
	what := fmt.Sprintf("op %d: repairing %d holders of sharing %d (n=%d k=%d) from holders %v", op.ID, len(missing), s.id, s.n, s.k, in.from[:s.k])
	w.expectList(in.shares[:s.k], len(missing))
	if _, ok := w.call(what, func() { out, err = shamir.Regenerate(clone(in.shares[:s.k]), len(missing)) }); !ok {
		return
	}
	w.st.add("op:repair", 1)
	if err != nil || len(out) != len(missing) {
		if simrt.EntFails == 0 && (w.plan.Prop == "C12" || w.plan.Prop == "C17") {
			w.viol("regenerate", "%s: %d shares, err=%v", what, len(out), err)
		}
		return
	}
	// a new point may coincide with that of a holder that was not consulted;
	// such a share is useless and is not stored
	inUse := map[byte]bool{}
	for _, h := range w.net.hs {
		if r, ok := h.disk[s.id]; ok && len(r.data) > 0 {
			inUse[r.data[len(r.data)-1]] = true
		}
	}
	for _, x := range in.shares {
		inUse[x[len(x)-1]] = true
	}
	for i, h := range missing {
		x := out[i][len(out[i])-1]
		if inUse[x] {
			continue
		}
		inUse[x] = true
		i, h := i, h
		key := msgKey(w.inc, op.ID, h.id, 0, 4)
		w.net.send(key, h, fmt.Sprintf("regenerated share to holder %d", h.id), out[i], func(d []byte) {
			w.net.store(h, s.id, d, key, func() {})
		})
	}
	simrt.Wait(6*time.Millisecond, func() bool { return false })
}
