package worker

import (
	"encoding/hex"

	"verif.local/sim/simrt"
)

// Generate derives the complete plan of run idx of a property from the seed.
func Generate(prop string, seed, idx uint64, tier string) *Plan {
	var pk uint64
	for _, c := range []byte(prop) {
		pk = pk*131 + uint64(c)
	}
	g := &genr{rng: newRng(seed, pk, idx, 0x706c616e), p: &Plan{Prop: prop, Seed: seed, Idx: idx}, thorough: tier == "thorough"}
	if r := marathons[prop]; r > 0 && g.n(r) == 0 {
		g.marathon(prop)
		if g.n(5) == 0 {
			g.clockSteps()
		}
		return g.p
	}
	switch prop {
	case "C01":
		g.shamirRuns()
	case "C02":
		g.ssmsRuns()
	case "C03":
		g.concurrent()
	case "C04":
		g.immutable()
	case "C05":
		g.parallel()
	case "C06":
		g.points()
	case "C07":
		g.secrecy()
	case "C08":
		g.fresh()
	case "C09":
		g.restart()
	case "C10":
		g.stream()
	case "C11":
		g.unique()
	case "C12":
		g.regen()
	case "C13":
		g.damage()
	case "C14":
		g.refused()
	case "C15":
		g.pool()
	case "C16":
		g.workers()
	case "C17":
		g.archive()
	case "C18":
		g.vectors()
	}
	if g.n(12) == 0 {
		g.clockSteps()
	}
	switch prop { // the entropy source fails now and then, in the middle of anything
	case "C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C12", "C14", "C16":
		if g.n(14) == 0 {
			f := []float64{0.02, 0.1, 0.3, 0.6}[g.n(4)]
			for i := range g.p.Incs {
				g.p.Incs[i].Env.EntFail = f
			}
		}
	}
	return g.p
}

type genr struct {
	*rng
	p        *Plan
	id       int
	thorough bool
}

var shamirAPIs = []string{"split", "gen", "par", "rnd", "old", "wsh"}
var ssmsAPIs = []string{"ssms", "ssmsr", "wss"}

func (g *genr) op(k string) Op {
	g.id++
	return Op{ID: g.id, K: k, Seed: g.u()}
}

func (g *genr) env() simrt.Env {
	e := simrt.Env{Start: int64(g.u() % 4e18), NumCPU: g.pick(1, 1, 2, 4, 8), Tape: g.u(), Inc: g.u(), CPU: g.str("", "", "noavx2", "nossse3", "nosse2", "noavx512")}
	switch g.n(6) {
	case 0:
		e.Coarse = 1e6
	case 1:
		e.Frozen = true
	case 2:
		e.Coarse = 1e9
	}
	return e
}

func (g *genr) sched() simrt.SchedConf {
	c := simrt.SchedConf{Seed: g.u()}
	x := g.n(20)
	switch {
	case x < 2:
		c.Policy = "seq"
	case x < 11:
		c.Policy = "random"
		c.Gap = g.pick(1, 2, 3, 5, 10, 30, 100, 400)
	case x < 15:
		c.Policy = "pct"
		c.Depth = 1 + g.n(6)
		c.Est = int64(50) << uint(g.n(12))
	case x < 17:
		c.Policy = "rare"
		c.Rare = 0.2 + 0.6*g.f()
	default:
		c.Policy = "stall"
		c.Gap = g.pick(1, 3, 10, 50, 200)
	}
	return c
}

func (g *genr) inc() *Inc {
	g.p.Incs = append(g.p.Incs, Inc{Env: g.env(), Sched: g.sched()})
	return &g.p.Incs[len(g.p.Incs)-1]
}

// objects creates the generators and workers clients share.
func (g *genr) objects(inc *Inc) {
	for i := 1 + g.n(3); i > 0; i-- {
		if g.p2() {
			inc.Gens = append(inc.Gens, Gen{Key: g.key()})
		} else {
			inc.Gens = append(inc.Gens, Gen{})
		}
	}
	inc.Workers = 1 + g.n(3)
}

func (g *genr) p2() bool { return g.n(2) == 0 }

func (g *genr) key() string {
	b := make([]byte, 32)
	g.fill(b)
	if g.n(8) == 0 { // a counter about to overflow
		for i := 16 + g.n(16); i < 32; i++ {
			b[i] = 0xff
		}
	}
	return hex.EncodeToString(b)
}

func (g *genr) nk(max int) (n, k int) {
	switch g.n(10) {
	case 0:
		n = 2
	case 1, 2:
		n = g.rng.rng(2, 6)
	case 3, 4:
		n = g.rng.rng(2, 12)
	case 5:
		n = g.pick(19, 20, 21)
	case 6:
		n = g.rng.rng(2, 40)
	case 7:
		n = g.pick(16, 32, 64, 128, 127, 129)
	case 8:
		n = g.rng.rng(2, 255)
	case 9:
		n = g.pick(255, 254, 253, 200)
	}
	if n > max {
		n = 2 + n%(max-1)
	}
	switch g.n(7) {
	case 0, 1:
		k = 2
	case 2:
		k = n
	case 3:
		k = n - 1
	case 4:
		k = (n + 1) / 2
	default:
		k = g.rng.rng(2, n)
	}
	if k < 2 {
		k = 2
	}
	return
}

var lens = []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537}

// length picks a secret length up to max, boundary lengths often.
func (g *genr) length(max int) int {
	if max < 1 {
		max = 1
	}
	for {
		var l int
		switch g.n(5) {
		case 0, 1:
			l = lens[g.n(len(lens))]
		case 2:
			l = 1 + g.n(40)
		case 3:
			l = 1 + g.n(300)
		case 4:
			l = 1 + g.n(max)
		}
		if l <= max {
			return l
		}
		if g.n(4) == 0 {
			return 1 + g.n(max)
		}
	}
}

// split makes a split operation whose cost stays near budget interpolation
// steps.
func (g *genr) split(apis []string, maxN, budget int) Op {
	o := g.op("split")
	o.API = apis[g.n(len(apis))]
	o.Obj = g.n(4)
	g.size(&o, maxN, budget)
	return o
}

func (g *genr) size(o *Op, maxN, budget int) {
	o.N, o.T = g.nk(maxN)
	if isSSMS(o.API) {
		for o.T*o.T*20 > budget*4 {
			o.T = 2 + o.T/2
		}
		max := budget * 2
		if max > 70000 {
			max = 70000
		}
		o.L = g.length(max)
		if g.n(4) == 0 { // multiples of k: the code words fill exactly
			o.L = o.T * (1 + g.n(20))
			if g.n(3) == 0 {
				o.L += g.n(3) - 1
			}
		}
	} else {
		for o.N*o.T > budget {
			o.N = 2 + o.N/2
			if o.T > o.N {
				o.T = o.N
			}
		}
		max := budget / (o.T * o.T)
		if o.API == "gen" || o.API == "par" {
			if m := budget / (o.N * o.T); m < max {
				max = m
			}
		}
		o.L = g.length(max)
	}
	if o.L < 1 {
		o.L = 1
	}
	o.Sec = g.pick(0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8)
}

func (g *genr) ref(k string, of Op) Op {
	o := g.op(k)
	o.Ref = of.ID
	o.Obj = g.n(4)
	return o
}

func (g *genr) combine(of Op) Op {
	o := g.ref("combine", of)
	if isSSMS(of.API) && g.n(3) == 0 {
		o.X = "nils"
	}
	return o
}

// clockSteps: time passes, or the clock is set, in the middle of anything.
func (g *genr) clockSteps() {
	for c := 1 + g.n(4); c > 0; c-- {
		inc := &g.p.Incs[g.n(len(g.p.Incs))]
		if len(inc.Threads) == 0 {
			continue
		}
		o := g.op("clock")
		o.D = int64(g.pick(1, 5, 30, 61, 301, 3601, 7200, 86401, 90000, 700000, 35000000)) * 1e9
		if g.n(4) == 0 {
			o.D = -o.D
		}
		t := g.n(len(inc.Threads))
		i := g.n(len(inc.Threads[t]) + 1)
		th := append([]Op{}, inc.Threads[t][:i]...)
		inc.Threads[t] = append(append(th, o), inc.Threads[t][i:]...)
	}
}

func (g *genr) sleep() Op {
	o := g.op("sleep")
	o.D = int64(1+g.n(4000)) * 1000
	return o
}

// ---------------------------------------------------------------- C01, C02

func (g *genr) shamirRuns() {
	if g.n(160) == 0 {
		g.limits(shamirAPIs)
		return
	}
	if g.n(150) == 0 {
		g.longRun(shamirAPIs)
		return
	}
	if g.n(5) < 2 {
		g.deployment(shamirAPIs, 30000)
		return
	}
	g.histories(shamirAPIs, g.pick(3000, 20000, 60000))
}

func (g *genr) ssmsRuns() {
	if g.n(120) == 0 {
		g.limits(ssmsAPIs)
		return
	}
	if g.n(150) == 0 {
		g.longRun(ssmsAPIs)
		return
	}
	if g.n(5) < 2 {
		g.deployment(ssmsAPIs, 20000)
		return
	}
	g.histories(ssmsAPIs, g.pick(2000, 20000, 60000))
}

// ------------------------------------------------------- long histories

// marathons: one plan in so many is a long history.
var marathons = map[string]int{"C01": 300, "C02": 250, "C03": 300, "C04": 400, "C05": 150, "C06": 200, "C08": 300, "C09": 300, "C10": 400,
	"C12": 300, "C13": 250, "C14": 200, "C15": 1000, "C16": 250, "C17": 400, "C18": 500}

// marathon: hundreds of small operations in one process, so that counters of
// eight bits wrap, stocks run out and what is leaked each time is used up.
func (g *genr) marathon(prop string) {
	g.p.Mode = "long history"
	inc := g.inc()
	g.objects(inc)
	switch g.n(4) {
	case 0:
		inc.Sched = simrt.SchedConf{Policy: "seq", Seed: g.u()}
	case 1:
		inc.Sched = simrt.SchedConf{Policy: "random", Seed: g.u(), Gap: g.pick(30, 100, 400)}
	}
	nt := g.pick(1, 1, 2, 3)
	total := g.pick(300, 300, 600, 1100)
	apis := allAPIs
	switch prop {
	case "C01":
		apis = shamirAPIs
	case "C02":
		apis = ssmsAPIs
	case "C05":
		apis = []string{"par"}
		nt = g.pick(1, 1, 2)
		total = g.pick(300, 300, 600)
	case "C06", "C08", "C09", "C10", "C16", "C18":
		inc.Env.AESReal = true
		if prop == "C16" {
			apis = []string{"wsh", "wss"}
		}
		if prop == "C10" {
			inc.Gens = []Gen{{Key: g.key()}, {Key: g.key()}}
		}
		if prop == "C08" || prop == "C09" {
			inc.Gens = []Gen{{}, {}}
		}
	case "C15":
		inc.Pools = []int{g.pick(1, 2, 3, 16, 64)}
		nt, total = 1, 600
	case "C04":
		total = 150
	}
	if g.p2() { // the same operation all the time
		apis = []string{apis[g.n(len(apis))]}
	}
	var focusBad *Op
	if g.p2() {
		b := g.badOp(nil)
		b.API = apis[g.n(len(apis))]
		focusBad = &b
	}
	n, k, L := g.pick(3, 3, 4, 5), g.pick(2, 2, 3), g.pick(16, 16, 17, 24, 33)
	same := g.p2()
	sameSecret := prop != "C08" && prop != "C09" && g.n(4) == 0
	var seed uint64 = g.u()
	small := func() Op {
		o := g.op("split")
		o.API, o.N, o.T, o.L, o.Obj = apis[g.n(len(apis))], n, k, L, 0
		if !same {
			o.N = 3 + g.n(4)
			o.T = 2 + g.n(2)
			o.L = 12 + g.n(30)
			o.Obj = g.n(4)
		}
		if sameSecret {
			o.Seed = seed
		}
		return o
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		var last []Op
		for j := total / nt; j > 0; j-- {
			switch prop {
			case "C05":
				o := small()
				o.K = "psplit"
				if j%100 == 0 {
					o.L = g.pick(1024, 1025, 2049, 3000)
				}
				ops = append(ops, o)
			case "C08", "C09":
				o := small()
				switch g.n(12) {
				case 0:
					o = g.op("newgen")
					o.X, o.L = g.str("", "worker", "rand"), 16
					if o.X == "worker" {
						o.N, o.T = 3, 2
					}
				case 1:
					o = g.op("read")
					o.Obj, o.L = g.n(4), g.pick(16, 32, 40)
				}
				ops = append(ops, o)
			case "C10":
				o := g.op("read")
				o.Obj, o.L = g.n(2), g.pick(1, 7, 16, 16, 17, 32, 64)
				o.X = g.str("", "dirty")
				ops = append(ops, o)
			case "C12":
				if len(ops) == 0 {
					o := small()
					for isSSMS(o.API) {
						o.API = shamirAPIs[g.n(len(shamirAPIs))]
					}
					o.N, o.T, o.L = 4, 2, 1+g.n(8)
					last = []Op{o}
					ops = append(ops, o)
				}
				r := g.ref("regen", last[0])
				r.Cnt = g.pick(1, 1, 2)
				ops = append(ops, g.ref("lose", last[0]), r)
				if g.n(10) == 0 {
					ops = append(ops, g.combine(last[0]))
				}
			case "C13":
				if len(last) == 0 || g.n(30) == 0 {
					o := small()
					o.API = g.str("split", "ssms")
					o.K = "oldsplit"
					last = append(last, o)
					ops = append(ops, o)
				}
				o := g.ref("damage", last[g.n(len(last))])
				o.X = g.str("combine", "regen", "wsh", "ssms", "wss")
				o.Cnt = g.pick(0, 1, 2, 3)
				ops = append(ops, o)
			case "C14":
				o := g.badOp(nil)
				if focusBad != nil {
					o = *focusBad
					g.id++
					o.ID = g.id
				}
				ops = append(ops, o)
				if j == 1 || g.n(100) == 0 {
					for _, a := range allAPIs {
						s := small()
						s.API = a
						ops = append(ops, s, g.combine(s))
					}
				}
			case "C15":
				o := g.op(g.str("get", "put"))
				if o.K == "put" {
					o.L = g.pick(0, 1, 64, 1024)
					o.X = g.str("", "new")
				}
				ops = append(ops, o)
			case "C17":
				o := g.op("golden")
				o.Cnt, o.API = g.n(1<<20), "?"
				if g.p2() {
					o = small()
				}
				ops = append(ops, o, g.combine(o))
			case "C18":
				o := g.op("vec")
				o.X = g.str("mul", "add", "add itself", "scalar")
				o.L = g.pick(16, 17, 64, 33, 100)
				if o.X == "add" {
					o.T = g.n(4)
				}
				ops = append(ops, o)
			default:
				o := small()
				ops = append(ops, o)
				if g.n(3) == 0 {
					ops = append(ops, g.combine(o))
				}
				if prop == "C03" && !isSSMS(o.API) && g.n(10) == 0 {
					r := g.ref("regen", o)
					r.Cnt = 1
					ops = append(ops, r)
				}
				if prop == "C04" && g.n(4) == 0 {
					ops = append(ops, g.ref("append", o))
				}
			}
		}
		inc.Threads = append(inc.Threads, ops)
	}
	if prop == "C09" { // and again after a restart at the same instant
		j := *inc
		j.Env.Inc = g.u()
		g.p.Incs = append(g.p.Incs, j)
	}
}

// limits: as many shares and as high a threshold as there can be.
func (g *genr) limits(apis []string) {
	g.p.Mode = "largest n and k"
	inc := g.inc()
	g.objects(inc)
	inc.Threads = append(inc.Threads, nil)
	s := g.limit(apis)
	inc.Threads[0] = append(inc.Threads[0], s, g.combine(s))
	if g.n(3) == 0 {
		t := g.split(apis, 6, 1000)
		inc.Threads = append(inc.Threads, []Op{t, g.combine(t)})
	}
}

func (g *genr) limit(apis []string) Op {
	o := g.op("split")
	o.API = apis[g.n(len(apis))]
	o.Obj = g.n(4)
	o.N = g.pick(255, 255, 255, 254, 250)
	o.T = g.pick(255, 255, 254, 253, 200)
	o.T = min(o.T, o.N)
	o.L = g.pick(1, 2, 3, 5, 8)
	if isSSMS(o.API) {
		o.L = g.pick(1, 16, 254, 255, 256, 509, 510, 511, 5000) + g.n(3)
	}
	o.Sec = g.pick(0, 0, 1, 3, 7)
	return o
}

func (g *genr) longRun(apis []string) {
	g.p.Mode = "long secrets"
	inc := g.inc()
	g.objects(inc)
	s := g.long(apis)
	inc.Threads = append(inc.Threads, []Op{s, g.combine(s), g.combine(s)})
	if g.n(3) == 0 {
		t := g.split(apis, 6, 1000)
		inc.Threads = append(inc.Threads, []Op{t, g.combine(t)})
	}
}

// long returns a split of a secret beyond the sizes counters of 16 and 24 bits
// reach; the plan holds little else.
func (g *genr) long(apis []string) Op {
	o := g.op("split")
	o.API = apis[g.n(len(apis))]
	o.Obj = g.n(4)
	o.N, o.T = g.pick(2, 3, 3, 4), 2
	if o.N > 2 && g.n(3) == 0 {
		o.T = 3
	}
	o.L = g.pick(16384, 20000, 32767, 32768, 40000, 49151, 65535, 65536, 65537, 66000, 70000, 100000, 131072, 131073, 200000) + g.n(3)
	if isSSMS(o.API) {
		o.L = g.pick(65536, 70000, 131073, 262144, 300000, 1<<20, 1<<22, 1<<24-1, 1<<24, 1<<24+1, 1<<24+70000) + g.n(3)
	}
	o.Sec = g.pick(0, 0, 1, 5, 8)
	return o
}

// histories: clients in one or two incarnations split and recombine, sizes
// growing and shrinking so that recycled buffers differ from what is needed.
func (g *genr) histories(apis []string, budget int) {
	g.p.Mode = "histories"
	n := 1 + g.n(2)
	var all []Op
	for i := 0; i < n; i++ {
		inc := g.inc()
		g.objects(inc)
		nt := g.pick(1, 1, 2, 3)
		for t := 0; t < nt; t++ {
			var ops []Op
			for j := 1 + g.n(4); j > 0; j-- {
				s := g.split(apis, 255, budget)
				ops = append(ops, s)
				all = append(all, s)
				for c := 1 + g.n(3); c > 0; c-- {
					ops = append(ops, g.combine(s))
				}
				if g.n(4) == 0 {
					ops = append(ops, g.combine(all[g.n(len(all))]))
				}
			}
			inc.Threads = append(inc.Threads, ops)
		}
		if i+1 < n && g.n(3) == 0 {
			inc.CrashAt = int64(20) << uint(g.n(14))
		}
		if i > 0 { // whoever combines later may run on other hardware
			var ops []Op
			for _, s := range all {
				if g.n(2) == 0 {
					ops = append(ops, g.combine(s))
				}
			}
			inc.Threads = append(inc.Threads, ops)
		}
	}
}

// deployment: dealer, network, holders with disks, combiner.
func (g *genr) deployment(apis []string, budget int) {
	g.p.Mode = "deployment"
	p := g.p
	p.Holders = 0
	p.Net = Net{Jitter: int64(g.pick(100, 500, 3000))}
	f := func(x *float64, hi float64) {
		if g.p2() {
			*x = hi * g.f()
		}
	}
	f(&p.Net.Drop, 0.25)
	f(&p.Net.Dup, 0.3)
	f(&p.Net.Slow, 0.2)
	f(&p.Net.Torn, 0.9)
	f(&p.Net.Lost, 0.1)
	f(&p.Net.Full, 0.08)
	inc := g.inc()
	g.objects(inc)
	var all []Op
	for t := 1 + g.n(2); t > 0; t-- {
		var ops []Op
		for j := 1 + g.n(2); j > 0; j-- {
			s := g.split(apis, g.pick(5, 9, 16, 30), budget)
			if s.N > p.Holders {
				p.Holders = s.N
			}
			all = append(all, s)
			ops = append(ops, s, g.ref("disperse", s))
			if g.n(3) == 0 {
				ops = append(ops, g.ref("gather", s))
			}
		}
		inc.Threads = append(inc.Threads, ops)
	}
	inc.Threads = append(inc.Threads, g.nemesis(false))
	if g.n(3) == 0 {
		inc.CrashAt = int64(100) << uint(g.n(14))
	}
	inc2 := g.inc()
	g.objects(inc2)
	var ops []Op
	for _, s := range all {
		o := g.ref("gather", s)
		if isSSMS(s.API) && g.n(3) == 0 {
			o.X = "nils"
		}
		ops = append(ops, o)
	}
	ops = append(ops, g.op("calm"))
	for _, i := range g.perm(len(all)) {
		ops = append(ops, g.ref("gather", all[i]))
	}
	inc2.Threads = append(inc2.Threads, ops)
	if g.p2() {
		inc2.Threads = append(inc2.Threads, g.nemesis(false))
	}
}

func (g *genr) nemesis(wipe bool) []Op {
	var ops []Op
	for j := g.n(8); j > 0; j-- {
		ops = append(ops, g.sleep())
		o := g.op(g.str("hcrash", "hcrash", "hstart", "cut", "heal", "hstart"))
		if wipe && g.n(4) == 0 {
			o.K = "wipe"
		}
		o.Obj = g.n(64)
		ops = append(ops, o)
		if o.K == "hcrash" && g.p2() {
			r := g.op("hstart")
			r.Obj = o.Obj
			ops = append(ops, g.sleep(), r)
		}
	}
	return ops
}

// ------------------------------------------------------------------- C03

var allAPIs = []string{"split", "split", "gen", "par", "rnd", "rnd", "old", "wsh", "ssms", "ssmsr", "wss"}

func (g *genr) mixedThreads(inc *Inc, budget, maxN int, extra func(all []Op) []Op) {
	var pre, all []Op
	// sharings that exist before the concurrent phase
	for j := g.n(3); j > 0; j-- {
		s := g.split(allAPIs, maxN, budget)
		s.K = "oldsplit"
		pre = append(pre, s)
		all = append(all, s)
	}
	nt := 2 + g.n(4)
	focus := ""
	if g.n(3) == 0 { // all threads in the same operation
		focus = allAPIs[g.n(len(allAPIs))]
	}
	var same *Op
	if g.n(4) == 0 { // identical parameters everywhere
		s := g.split(allAPIs, maxN, budget)
		same = &s
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		if t == 0 {
			ops = append(ops, pre...)
		}
		for j := 1 + g.n(4); j > 0; j-- {
			switch x := g.n(10); {
			case x < 6 || len(all) == 0:
				s := g.split(allAPIs, maxN, budget)
				if same != nil {
					s.N, s.T, s.L, s.API = same.N, same.T, same.L, same.API
				} else if focus != "" {
					s.API = focus
					g.size(&s, maxN, budget)
				}
				if g.n(4) == 0 {
					s.X = "shared"
				}
				ops = append(ops, s)
				all = append(all, s)
				if g.p2() {
					ops = append(ops, g.combine(s))
				}
			case x < 8:
				ops = append(ops, g.combine(all[g.n(len(all))]))
			case x < 9:
				o := g.ref("regen", all[g.n(len(all))])
				o.Cnt = g.pick(0, 1, 2, 5)
				ops = append(ops, o)
			default:
				if extra != nil {
					ops = append(ops, extra(all)...)
				}
			}
		}
		inc.Threads = append(inc.Threads, ops)
	}
	if extra != nil {
		inc.Threads = append(inc.Threads, extra(all))
	}
}

func (g *genr) concurrent() {
	g.p.Mode = "concurrent"
	inc := g.inc()
	g.objects(inc)
	if inc.Sched.Policy == "seq" && g.n(3) > 0 {
		inc.Sched.Policy, inc.Sched.Gap = "random", 4
	}
	if g.n(40) == 0 {
		g.concurrentLong(inc)
		return
	}
	g.mixedThreads(inc, g.pick(200, 1500, 6000), g.pick(6, 20, 60, 255), nil)
}

// concurrentLong: the same with secrets long enough for code that treats them
// differently (in portions, in parallel, with other buffers).
func (g *genr) concurrentLong(inc *Inc) {
	g.p.Mode = "concurrent, long secrets"
	nt := 2 + g.n(2)
	L := g.pick(2048, 2500, 4096, 4097, 5000, 8192, 9000, 16384, 20000)
	if g.n(4) == 0 {
		L = g.pick(32768, 65536, 70000)
	}
	focus := ""
	if g.p2() {
		focus = allAPIs[g.n(len(allAPIs))]
	}
	var all []Op
	for t := 0; t < nt; t++ {
		var ops []Op
		for j := 1 + g.n(2); j > 0; j-- {
			s := g.op("split")
			s.API = allAPIs[g.n(len(allAPIs))]
			if focus != "" {
				s.API = focus
			}
			if (s.API == "gen" || s.API == "par") && L > 10000 {
				s.API = g.str("split", "rnd")
			}
			s.T = g.pick(2, 2, 3)
			s.N = s.T + g.n(3)
			s.L = L + g.pick(0, 0, g.n(50))
			if L <= 5000 && g.n(3) == 0 {
				s.N = g.pick(40, 65, 80)
			}
			s.Obj = g.n(4)
			if g.n(3) == 0 {
				s.K = "oldsplit"
			}
			ops = append(ops, s)
			all = append(all, s)
			if g.n(3) > 0 {
				ops = append(ops, g.combine(all[g.n(len(all))]))
			}
			if L <= 5000 && g.n(4) == 0 {
				o := g.ref("regen", all[g.n(len(all))])
				o.Cnt = 1
				ops = append(ops, o)
			}
		}
		inc.Threads = append(inc.Threads, ops)
	}
}

// ------------------------------------------------------------------- C04

func (g *genr) immutable() {
	g.p.Mode = "immutable"
	inc := g.inc()
	g.objects(inc)
	extra := func(all []Op) []Op {
		var ops []Op
		for j := 1 + g.n(3); j > 0; j-- {
			if len(all) == 0 {
				break
			}
			s := all[g.n(len(all))]
			o := g.ref("append", s)
			switch g.n(4) {
			case 0:
				o.X = "write"
			case 1:
				o = g.badOp(&s)
			}
			ops = append(ops, o)
		}
		return ops
	}
	if g.n(3) == 0 {
		// one client, appending right after each operation
		var ops []Op
		var all []Op
		for j := 2 + g.n(4); j > 0; j-- {
			s := g.split(allAPIs, g.pick(6, 20, 60), g.pick(100, 1000, 4000))
			all = append(all, s)
			ops = append(ops, s)
			ops = append(ops, extra(all)...)
			ops = append(ops, g.combine(all[g.n(len(all))]))
			if g.n(3) == 0 {
				o := g.ref("regen", s)
				o.Cnt = 1 + g.n(4)
				ops = append(ops, o)
				ops = append(ops, g.ref("append", s))
			}
		}
		inc.Threads = append(inc.Threads, ops)
		return
	}
	g.mixedThreads(inc, g.pick(200, 1500, 4000), g.pick(5, 12, 30), extra)
}

// ------------------------------------------------------------------- C05

func (g *genr) parallel() {
	g.p.Mode = "parallel"
	inc := g.inc()
	if g.n(200) == 0 {
		o := g.long([]string{"par"})
		o.K = "psplit"
		inc.Threads = append(inc.Threads, []Op{o})
		return
	}
	for t := g.pick(1, 1, 1, 2, 3); t > 0; t-- {
		var ops []Op
		for j := 1 + g.n(2); j > 0; j-- {
			o := g.op("psplit")
			o.API = "par"
			o.N, o.T = g.nk(g.pick(3, 4, 6, 12))
			base := g.pick(0, 1024, 1024, 2048, 2048, 3072, 4096, 5120)
			o.L = base + g.pick(0, 1, -1, 2, 17, g.n(1024), g.n(1024))
			if o.L < 1 {
				o.L = 1 + g.n(40)
			}
			for o.N*o.T*o.L > 60000 && o.N > 2 {
				o.N--
				if o.T > o.N {
					o.T = o.N
				}
			}
			o.Sec = g.pick(0, 0, 1, 2, 3, 7)
			ops = append(ops, o)
		}
		inc.Threads = append(inc.Threads, ops)
	}
}

// ------------------------------------------------------------------- C06

func (g *genr) points() {
	g.p.Mode = "points"
	inc := g.inc()
	g.objects(inc)
	if g.n(6) > 0 {
		inc.Env.Biased = []float64{0.02, 0.1, 0.3, 0.6, 0.9}[g.n(5)]
	} else {
		inc.Env.AESReal = true
	}
	for t := 1 + g.n(2); t > 0; t-- {
		var ops []Op
		for j := 2 + g.n(6); j > 0; j-- {
			s := g.split([]string{"rnd", "rnd", "rnd", "old", "split", "gen", "par", "wsh", "wss", "ssmsr", "ssms"}, 255, 3000)
			s.L = 1 + g.n(12)
			switch g.n(5) {
			case 0, 1:
				s.N = 2 + g.n(18)
			case 2:
				s.N = g.pick(19, 20, 21, 254, 255)
			}
			if s.T > s.N {
				s.T = s.N
			}
			if s.T*s.N > 2000 || (isSSMS(s.API) && s.T > 20) {
				s.T = 2 + g.n(3)
				if s.T > s.N {
					s.T = s.N
				}
			}
			if g.n(5) == 0 {
				o := g.op(g.str("uniq", "perm"))
				o.N = g.n(256)
				o.Obj = g.n(4)
				ops = append(ops, o)
			}
			ops = append(ops, s)
		}
		inc.Threads = append(inc.Threads, ops)
	}
}

// ------------------------------------------------------------------- C07

func (g *genr) secrecy() {
	inc := g.inc()
	inc.Env.AESReal = true
	g.objects(inc)
	if g.n(60) == 0 {
		g.p.Mode = "seed width"
		inc.Gens = []Gen{{}}
		inc.Sched = simrt.SchedConf{Policy: "seq", Seed: 1}
		var ops []Op
		for j := g.n(3); j >= 0; j-- {
			o := g.op("split")
			o.API, o.N, o.T, o.L = g.str("split", "gen", "par", "rnd", "old", "wsh", "ssms", "ssmsr", "wss"), 3, g.pick(2, 2, 3), 16+g.n(20)
			o.Seed |= 1
			ops = append(ops, o)
		}
		inc.Threads = append(inc.Threads, ops)
		return
	}
	if g.n(60) == 0 {
		g.p.Mode = "tags"
		o := g.op("split")
		o.API = g.str("split", "gen", "par", "rnd", "rnd", "old", "wsh", "ssms", "ssmsr", "wss")
		o.T = 2 + g.n(3)
		o.N = o.T + g.n(7-o.T)
		o.L = 1 + g.n(4)
		o.Sec = g.pick(0, 0, 1, 2)
		o.Obj = g.n(3)
		c := o.L * (o.T - 1)
		if isSSMS(o.API) {
			c = 16 + 4*(o.T-1)
		}
		var ops []Op
		for j := 16*(2*o.N+4+c) + spare + 4; j > 0; j-- {
			ops = append(ops, o)
			g.id++
			o.ID, o.Seed = g.id, g.u()
		}
		inc.Threads = append(inc.Threads, ops)
		return
	}
	if g.n(16) == 0 {
		g.p.Mode = "independence"
		g.independence(inc)
		return
	}
	switch g.n(8) {
	case 0, 1, 2: // distribution of coefficients over a history
		g.p.Mode = "distribution"
		nt := g.pick(1, 1, 2, 3)
		apis := []string{"split", "gen", "par", "rnd", "old", "wsh", "ssms", "ssmsr", "wss"}
		api := apis[g.n(len(apis))]
		n, k := g.nk(g.pick(4, 8, 20))
		L := g.pick(1, 7, 16, 33, 64, 100, 1025)
		if g.n(20) == 0 { // weaknesses that begin at some distance
			L = g.pick(2049, 4100, 5000, 8200, 16400)
			n, k = g.pick(3, 4, 5), g.pick(2, 2, 3)
		}
		if k > 6 && L > 100 {
			L = 64
		}
		per := L * (k - 1)
		if isSSMS(api) {
			per = 20 * (k - 1)
		}
		total := 2700/per + 1
		if total > 150 {
			total = 150
		}
		if g.n(20) == 0 { // enough to notice a value that never occurs
			n, k = g.pick(2, 3, 4), 2
			if n > 2 && g.p2() {
				k = 3
			}
			L = g.pick(512, 1025, 1300)
			total = 13500/L + 1
			if isSSMS(api) {
				L, total = 1+g.n(30), 13500/20+1
			}
		}
		if api == "gen" || api == "par" {
			for n > k && n*k*L*total > 400000 {
				n--
			}
		}
		sec := g.pick(0, 1, 1, 2, 7)
		for t := 0; t < nt; t++ {
			var ops []Op
			for j := total/nt + 1; j > 0; j-- {
				o := g.op("split")
				o.API, o.N, o.T, o.L, o.Sec, o.Obj = api, n, k, L, sec, g.n(3)
				ops = append(ops, o)
				if g.n(6) == 0 { // other sizes leave other data in recycled buffers
					d := g.split(allAPIs, 8, 400)
					d.Sec = g.pick(1, 2, 7, 5)
					ops = append(ops, d)
				}
			}
			inc.Threads = append(inc.Threads, ops)
		}
	case 3, 4: // adversary with k-1 shares
		g.p.Mode = "eavesdropper"
		for t := 1 + g.n(3); t > 0; t-- {
			var ops []Op
			for j := 1 + g.n(4); j > 0; j-- {
				s := g.split(allAPIs, g.pick(5, 12, 30), 6000)
				if s.L < 16 {
					s.L = 16 + g.n(50)
				}
				s.Sec = g.pick(0, 0, 0, 5, 1, 2, 3)
				ops = append(ops, s)
				for e := 1 + g.n(2); e > 0; e-- {
					ops = append(ops, g.ref("eaves", s))
				}
			}
			inc.Threads = append(inc.Threads, ops)
		}
	case 5, 6: // same randomness, other secrets
		g.p.Mode = "twin"
		inc.Sched = simrt.SchedConf{Policy: "seq", Seed: 1}
		var ops []Op
		for j := 2 + g.n(6); j > 0; j-- {
			s := g.split(allAPIs, g.pick(4, 12, 24, 60), 3000)
			ops = append(ops, s)
			if g.n(3) == 0 {
				ops = append(ops, g.ref("combine", s))
			}
			if g.n(3) == 0 {
				o := g.ref("regen", s)
				o.Cnt = 1
				ops = append(ops, o)
			}
		}
		inc.Threads = append(inc.Threads, ops)
	case 7: // the entropy source fails now and then
		g.p.Mode = "entropy failure"
		inc.Env.EntFail = []float64{0.1, 0.3, 0.6}[g.n(3)]
		api := g.str("split", "gen", "par", "ssms", "split", "gen", "ssms", "rnd")
		n, k := g.nk(6)
		L := g.pick(16, 33, 64)
		per := L * (k - 1)
		if isSSMS(api) {
			per = 20 * (k - 1)
		}
		var ops []Op
		for j := 5500/per + 2; j > 0; j-- {
			o := g.op("split")
			o.API, o.N, o.T, o.L, o.Sec = api, n, k, L, g.pick(1, 2)
			ops = append(ops, o)
			if len(ops) > 250 {
				break
			}
		}
		inc.Threads = append(inc.Threads, ops)
	}
}

// independence: polynomials of a high degree, enough of them to notice any
// affine relation between their coefficients.
func (g *genr) independence(inc *Inc) {
	o := g.op("split")
	o.API = g.str("split", "gen", "par", "rnd", "old", "wsh", "ssms", "ssmsr", "wss")
	o.T = 10 + g.n(60)
	if g.n(12) == 0 {
		o.T = g.pick(100, 128, 129, 130, 200, 255)
	}
	o.N = min(255, o.T+g.n(4))
	o.Sec = g.pick(0, 0, 1, 2, 7)
	rows := 8*(o.T-1) + 9 + spare
	if o.T < 60 && g.p2() {
		rows += 8*o.T + 8
	}
	if g.n(6) == 0 { // relations that begin at some distance
		o.T = 2 + g.n(8)
		o.N = o.T + g.n(2)
		rows = g.pick(4096, 8192, 16384) + 300 + g.n(100)
	}
	splits := 1
	if isSSMS(o.API) {
		if o.T > 70 {
			o.T = 70
			o.N = 70 + g.n(3)
		}
		o.L = 1 + g.n(3*o.T)
		splits = rows/20 + 2 // 16 bytes of key, 4 of length
	} else {
		if o.API == "gen" || o.API == "par" {
			for o.T > 130 {
				o.T, o.N, rows = o.T/2, o.N/2+1, rows/2+spare
			}
		}
		o.L = rows + 1 + g.n(40)
	}
	o.Obj = g.n(4)
	var ops []Op
	for ; splits > 0 && len(ops) < 250; splits-- {
		ops = append(ops, o)
		g.id++
		o.ID, o.Seed = g.id, g.u()
	}
	inc.Threads = append(inc.Threads, ops)
}

// ------------------------------------------------------------------- C08

func (g *genr) freshOps(n int) []Op {
	var ops []Op
	k, L := 2+g.n(3), g.pick(12, 16, 20, 24, 33, 64, 100)
	for ; n > 0; n-- {
		switch g.n(10) {
		case 0, 1, 2, 3, 4, 5:
			s := g.split(allAPIs, 8, 2000)
			if g.n(3) > 0 {
				s.T, s.L = k, L
			}
			if s.N < s.T {
				s.N = s.T
			}
			if s.N == 2 {
				s.N = 3
			}
			for s.L*(s.T-1) < 12 && !isSSMS(s.API) {
				s.L += 7
			}
			s.Sec = g.pick(0, 0, 1, 2)
			ops = append(ops, s)
		case 6:
			o := g.op("read")
			o.Obj, o.L = g.n(4), g.pick(12, 16, 17, 32, 40, 64, 100, 100, 1000, 5000)
			if g.n(40) == 0 {
				o.L = g.pick(20000, 40000, 70000)
			}
			ops = append(ops, o)
		case 7:
			o := g.op("newgen")
			o.X = g.str("", "", "worker", "rand")
			o.L = g.pick(16, 32, 48)
			if o.X == "worker" {
				o.N, o.T, o.L = 3, k, L
				for o.N < o.T {
					o.N++
				}
			}
			ops = append(ops, o)
		case 8:
			o := g.op(g.str("uniq", "perm", "rread", "clock"))
			o.Obj, o.N, o.L = g.n(4), g.n(256), 16+g.n(20)
			o.D = -int64(g.u() % 5e9)
			ops = append(ops, o)
		case 9:
			ops = append(ops, g.badOp(nil))
		}
	}
	return ops
}

func (g *genr) fresh() {
	g.p.Mode = "one process"
	inc := g.inc()
	inc.Env.AESReal = true
	for i := g.n(3); i >= 0; i-- {
		inc.Gens = append(inc.Gens, Gen{})
	}
	if g.p2() {
		inc.Gens = append(inc.Gens, Gen{Rand: true})
	}
	inc.Workers = 1 + g.n(3)
	if g.n(8) == 0 { // a secret long enough to wrap a fixed-size stock of randomness
		inc.Threads = append(inc.Threads, []Op{g.freshLong()})
		for t := g.n(2); t > 0; t-- {
			inc.Threads = append(inc.Threads, g.freshOps(1+g.n(3)))
		}
		return
	}
	for t := 1 + g.n(3); t > 0; t-- {
		inc.Threads = append(inc.Threads, g.freshOps(2+g.n(5)))
	}
}

func (g *genr) freshLong() Op {
	o := g.op("split")
	o.API = g.str(allAPIs...)
	o.Obj = g.n(4)
	if isSSMS(o.API) { // k-1 coefficients for each byte of the key
		o.T = 2 + g.n(50)
		o.N = min(255, o.T+g.n(3))
		o.L = 1 + g.n(400)
		return o
	}
	o.T = 2 + g.n(3)
	if g.n(4) == 0 {
		o.T = 2 + g.n(40)
	}
	o.N = o.T + 1
	bytes := 1 + g.pick(1024, 2048, 4096, 8192, 16384, 32768, 65536)
	o.L = bytes/(o.T-1) + 1 + g.n(40)
	for o.L*o.T*o.T > 300000 {
		o.L /= 2
	}
	o.Sec = g.pick(0, 0, 1)
	return o
}

// ------------------------------------------------------------------- C09

func (g *genr) restart() {
	g.p.Mode = "restart"
	g.inc()
	inc := g.p.Incs[0]
	inc.Env.AESReal = true
	for i := g.n(2); i >= 0; i-- {
		inc.Gens = append(inc.Gens, Gen{})
	}
	if g.n(3) == 0 {
		inc.Gens = append(inc.Gens, Gen{Rand: true})
	}
	inc.Workers = 1
	for t := g.pick(1, 1, 2); t > 0; t-- {
		inc.Threads = append(inc.Threads, g.freshOps(1+g.n(4)))
	}
	if g.n(3) == 0 {
		inc.CrashAt = int64(50) << uint(g.n(10))
	}
	// the next incarnation starts at a clock reading the first one already had
	g.p.Incs = []Inc{inc}
	for n := 1 + g.n(2); n > 0; n-- {
		j := inc
		j.Env.Inc = g.u()
		switch g.n(4) {
		case 0: // same instant, same work
		case 1:
			j.Env.Frozen, j.Env.Coarse = true, 0
		case 2:
			j.CrashAt = 0
			j.Sched = g.sched()
		case 3: // same instant, other work
			j.CrashAt = 0
			j.Threads = nil
			for t := g.pick(1, 2); t > 0; t-- {
				j.Threads = append(j.Threads, g.freshOps(1+g.n(4)))
			}
		}
		g.p.Incs = append(g.p.Incs, j)
	}
}

// ------------------------------------------------------------------- C10

func (g *genr) stream() {
	inc := g.inc()
	inc.Env.AESReal = true
	for i := g.pick(1, 1, 2); i > 0; i-- {
		inc.Gens = append(inc.Gens, Gen{Key: g.key()})
	}
	mixed := g.n(4) == 0
	g.p.Mode = "reads"
	if mixed {
		g.p.Mode = "reads and draws"
	}
	far := 0
	switch { // the reads start far into the keystream
	case g.p.Idx == 0 || g.thorough && g.p.Idx%400000 == 1:
		far = 1 << 32
	case g.p.Idx == 1:
		far = 1 << 31
	case g.n(2000) == 0:
		far = 1 << 24
	case g.n(100) == 0:
		far = 1 << 16
	}
	big := far == 0 && g.n(60) == 0 // reads code may want to do in portions
	left := 26
	if big {
		left = 7
		mixed, g.p.Mode = false, "big reads"
	}
	adv := Op{}
	for t := g.pick(1, 2, 2, 3, 4); t > 0; t-- {
		var ops []Op
		if far > 0 {
			mixed, g.p.Mode = false, "reads far into the keystream"
			o := g.op("await")
			if adv.ID == 0 {
				adv = g.op("advance")
				adv.L = far - g.n(300)
				o = adv
			}
			o.Ref = adv.ID
			ops = append(ops, o)
		}
		for j := 1 + g.n(7); j > 0 && left > 0; j-- {
			left--
			o := g.op("read")
			o.Obj = g.n(2)
			switch g.n(4) {
			case 0:
				o.L = g.n(20)
			case 1:
				o.L = g.pick(1, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 256, 512)
			case 2:
				o.L = g.n(300)
			case 3:
				o.L = g.pick(0, 1, 2, 3, 4096, 1000)
			}
			if big && g.n(3) > 0 {
				o.L = g.pick(4096, 8192, 16384, 32768, 65536, 65536, 131072, 200000) + g.pick(0, 0, 1, -1, 17, g.n(5000))
			}
			o.X = g.str("", "", "dirty", "dirty", "window")
			if mixed {
				o.L += 12
				if g.n(4) == 0 {
					o.X, o.N, o.Cnt = "consume", g.n(256), g.n(2)
				}
			}
			ops = append(ops, o)
		}
		inc.Threads = append(inc.Threads, ops)
	}
}

// ------------------------------------------------------------------- C11

func (g *genr) unique() {
	if g.n(300) == 0 {
		g.spread()
		return
	}
	g.p.Mode = "draws"
	inc := g.inc()
	for i := 1 + g.n(2); i > 0; i-- {
		inc.Gens = append(inc.Gens, Gen{Key: g.key()})
	}
	inc.Gens = append(inc.Gens, Gen{Rand: true}, Gen{Rand: true})
	switch g.n(5) {
	case 0:
		inc.Env.AESReal = true
	default:
		inc.Env.Biased = []float64{0.02, 0.1, 0.3, 0.6, 0.9}[g.n(5)]
	}
	tiny := g.n(8) == 0 // cheap, so many of them
	for t := g.pick(1, 1, 2, 3); t > 0; t-- {
		var ops []Op
		cnt := 3 + g.n(12)
		if tiny {
			cnt = 40
		}
		for j := cnt; j > 0; j-- {
			o := g.op(g.str("uniq", "uniq", "perm", "perm", "rperm"))
			o.Obj = g.n(4)
			switch g.n(4) {
			case 0:
				o.N = g.pick(0, 1, 2, 2, 2, 3, 4, 5)
			case 1:
				o.N = g.pick(18, 19, 20, 21, 253, 254, 255)
			default:
				o.N = g.n(256)
			}
			if tiny {
				o.N = g.pick(1, 2, 2, 2, 3, 4, 6)
			}
			ops = append(ops, o)
			if g.n(4) == 0 {
				r := g.op("read")
				r.Obj, r.L = g.n(4), g.n(40)
				ops = append(ops, r)
			}
		}
		inc.Threads = append(inc.Threads, ops)
	}
}

// spread asks one generator for so many draws that every value has to come up
// at every position: a cell stays empty with a probability below e^-50.
func (g *genr) spread() {
	g.p.Mode = "spread of draws"
	inc := g.inc()
	inc.Gens = append(inc.Gens, Gen{Key: g.key()}, Gen{Rand: true})
	inc.Env.AESReal = true
	inc.Sched = simrt.SchedConf{Policy: "seq", Seed: g.u()}
	var ops []Op
	for j := 1 + g.n(2); j > 0; j-- {
		o := g.op(g.str("uniq", "perm", "perm", "rperm", "rperm"))
		switch o.K {
		case "uniq":
			o.N, o.Cnt = g.pick(1, 2, 3, 5, 19, 20), 16000
		default:
			o.N, o.Cnt = g.pick(2, 2, 3, 4, 5, 6, 7, 8, 10, 16), 2000
		}
		ops = append(ops, o)
	}
	inc.Threads = append(inc.Threads, ops)
}

// ------------------------------------------------------------------- C12

func (g *genr) regen() {
	if g.n(4) == 0 {
		g.p.Mode = "repair"
		g.repairDeployment()
		return
	}
	if g.n(200) == 0 {
		g.p.Mode = "largest n and k"
		inc := g.inc()
		g.objects(inc)
		s := g.limit([]string{"split", "gen", "par", "rnd", "old", "wsh"})
		s.L = g.pick(1, 2)
		r := g.ref("regen", s)
		r.Cnt = g.pick(1, 1, 2, 5)
		inc.Threads = append(inc.Threads, []Op{s, r, g.ref("regen", s), g.combine(s)})
		return
	}
	g.p.Mode = "generations"
	inc := g.inc()
	g.objects(inc)
	if g.n(3) > 0 {
		inc.Env.Biased = []float64{0.05, 0.3, 0.6, 0.9}[g.n(4)]
	}
	for t := g.pick(1, 1, 2, 3); t > 0; t-- {
		var ops []Op
		for j := 1 + g.n(2); j > 0; j-- {
			s := g.split([]string{"split", "gen", "par", "rnd", "old", "wsh"}, g.pick(6, 12, 40, 255), g.pick(200, 2000, 8000))
			if g.n(2) == 0 {
				s.K = "oldsplit"
			}
			first := len(ops)
			ops = append(ops, s)
			for gen := 1 + g.n(4); gen > 0; gen-- {
				if g.n(3) > 0 {
					ops = append(ops, g.ref("lose", s))
				}
				o := g.ref("regen", s)
				o.Cnt = g.pick(0, 1, 1, 2, 3, 5, 10, 40)
				if s.T*s.T*s.L*o.Cnt > 20000 {
					o.Cnt = 1
				}
				if s.L <= 4 && s.T <= 5 {
					switch g.n(6) {
					case 0:
						o.X = "all"
					case 1:
						o.X = "over"
						o.Cnt = g.pick(0, 1, 100)
					case 2:
						o.Cnt = g.n(200)
						if o.Cnt > 254-s.N {
							o.Cnt = 254 - s.N
						}
						if o.Cnt < 0 {
							o.Cnt = 0
						}
					}
				}
				if o.X == "" && o.Cnt+s.N+40 > 255 {
					o.Cnt = 0
				}
				if gen == 1 && s.N > 60 && g.n(4) == 0 { // few unused points are left
					s.L, s.T = 1, g.pick(2, 3, 5)
					ops[first].L, ops[first].T = s.L, s.T
					o.X, o.Cnt = "near", g.n(3)
				}
				ops = append(ops, o, g.combine(s))
			}
		}
		inc.Threads = append(inc.Threads, ops)
	}
}

func (g *genr) repairDeployment() {
	p := g.p
	p.Net = Net{Jitter: int64(g.pick(100, 500, 3000))}
	if g.p2() {
		p.Net.Drop = 0.2 * g.f()
	}
	if g.p2() {
		p.Net.Dup = 0.3 * g.f()
	}
	if g.p2() {
		p.Net.Torn = 0.8 * g.f()
	}
	inc := g.inc()
	g.objects(inc)
	if g.p2() {
		inc.Env.Biased = []float64{0.1, 0.5, 0.9}[g.n(3)]
	}
	s := g.split([]string{"split", "gen", "par", "rnd", "old", "wsh"}, g.pick(4, 8, 14), 3000)
	p.Holders = s.N
	ops := []Op{s, g.ref("disperse", s)}
	for gen := 1 + g.n(5); gen > 0; gen-- {
		for j := 1 + g.n(3); j > 0; j-- {
			o := g.op("wipe")
			o.Obj = g.n(64)
			ops = append(ops, o)
		}
		ops = append(ops, g.ref("repair", s))
		if g.p2() {
			ops = append(ops, g.ref("gather", s))
		}
	}
	ops = append(ops, g.op("calm"), g.ref("repair", s), g.ref("gather", s))
	inc.Threads = append(inc.Threads, ops)
	if g.p2() {
		inc.Threads = append(inc.Threads, g.nemesis(true))
	}
}

// ------------------------------------------------------------------- C13

func (g *genr) damage() {
	if g.n(5) == 0 {
		// torn, corrupted and duplicated records reach the combiner unchecked
		g.p.Mode = "unchecked deployment"
		g.deployment([]string{"split", "rnd", "ssms", "ssmsr", "wsh", "wss"}, 3000)
		g.p.Raw = true
		g.p.Net.Corrupt = 0.4 * g.f()
		g.p.Net.Torn = 0.5 + 0.5*g.f()
		g.p.Net.Dup = 0.4 * g.f()
		return
	}
	g.p.Mode = "damage"
	inc := g.inc()
	g.objects(inc)
	for t := g.pick(1, 1, 2, 3); t > 0; t-- {
		var ops []Op
		for j := 1 + g.n(3); j > 0; j-- {
			s := g.split([]string{"split", "ssms", "ssms"}, g.pick(4, 8, 20, 255), g.pick(100, 1000, 4000))
			s.K = "oldsplit"
			ops = append(ops, s)
			for d := 2 + g.n(8); d > 0; d-- {
				o := g.ref("damage", s)
				if s.API == "split" {
					o.X = g.str("combine", "combine", "regen", "wsh", "ssms")
				} else {
					o.X = g.str("ssms", "ssms", "ssms", "wss", "combine", "regen")
				}
				o.Cnt = g.pick(0, 1, 2, 3)
				ops = append(ops, o)
			}
		}
		inc.Threads = append(inc.Threads, ops)
	}
}

// ------------------------------------------------------------------- C14

func (g *genr) badOp(s *Op) Op {
	o := g.op("bad")
	o.API = allAPIs[g.n(len(allAPIs))]
	o.Obj = g.n(4)
	o.Sec = g.n(8)
	o.L = g.pick(1, 16, 50, 200, 0)
	switch g.n(9) {
	case 0: // n < k
		o.N = 2 + g.n(100)
		o.T = o.N + 1 + g.n(30)
	case 1: // n > 255
		o.N = 256 + g.n(3)*g.n(1000)
		o.T = 2 + g.n(250)
	case 2: // k < 2
		o.N = 1 + g.n(255)
		o.T = g.pick(1, 0, -1, -5)
	case 3: // both beyond
		o.N, o.T = 256+g.n(300), 256
		if o.T > o.N {
			o.T = o.N
		}
	case 4: // empty secret
		o.N, o.T = g.nk(60)
		o.L = 0
	case 5: // negative
		o.N = -g.n(300)
		o.T = -g.n(300)
	case 6:
		o.N, o.T = g.pick(0, 1, 2), g.pick(0, 1)
	case 7:
		if s != nil {
			o.X = "regen"
			o.Ref = s.ID
			o.Cnt = g.pick(0, 1, 254, 1<<30)
		} else {
			o.N, o.T = 1<<31, 1<<30
		}
	case 8:
		o.X = "alg"
		o.Cnt = g.n(8)
		o.L = 1 + g.n(40)
		if s != nil {
			o.Ref = s.ID
		}
	}
	if o.T >= 2 && o.N >= o.T && o.N <= 255 && o.L > 0 && o.X == "" {
		o.L = 0
	}
	return o
}

func (g *genr) refused() {
	g.p.Mode = "refusals"
	inc := g.inc()
	g.objects(inc)
	extra := func(all []Op) []Op {
		var ops []Op
		for j := 1 + g.n(5); j > 0; j-- {
			var s *Op
			if len(all) > 0 {
				s = &all[g.n(len(all))]
			}
			b := g.badOp(s)
			ops = append(ops, b)
			if g.n(4) == 0 { // the client insists
				g.id++
				b.ID = g.id
				ops = append(ops, b)
			}
		}
		return ops
	}
	g.mixedThreads(inc, g.pick(200, 1500), g.pick(5, 12, 30), extra)
	for t := range inc.Threads {
		if g.p2() {
			inc.Threads[t] = append(inc.Threads[t], extra(nil)...)
		}
	}
	// work after the refusals
	for t := range inc.Threads {
		if g.n(3) == 0 {
			s := g.split(allAPIs, 12, 800)
			inc.Threads[t] = append(inc.Threads[t], s, g.combine(s))
		}
	}
}

// ------------------------------------------------------------------- C15

func (g *genr) pool() {
	g.p.Mode = "pool"
	inc := g.inc()
	if g.n(6) == 0 {
		g.p.Mode = "default size"
		inc.Pools = []int{g.pick(0, -1, -5, -1024)}
		var ops []Op
		for j := 2 + g.n(10); j > 0; j-- {
			// never more than one buffer in the pool: only positivity is promised
			a := g.op("put")
			a.L = g.pick(0, 0, 1, 64, 1024, 5000, 70000)
			ops = append(ops, a, g.op("get"))
		}
		if g.p2() {
			ops = append([]Op{g.op("get")}, ops...)
		}
		inc.Threads = append(inc.Threads, ops)
		return
	}
	for i := g.pick(1, 1, 2); i > 0; i-- {
		inc.Pools = append(inc.Pools, g.pick(1, 1, 2, 3, 5, 16))
	}
	left := 36
	for t := g.pick(1, 2, 2, 3, 4); t > 0; t-- {
		var ops []Op
		bias := g.f()
		for j := 2 + g.n(12); j > 0 && left > 0; j-- {
			left--
			o := g.op("get")
			if g.f() < bias {
				o.K = "put"
				if g.n(3) == 0 {
					o.X = "new"
				}
				o.L = g.pick(0, 0, 1, 64, 1024, 5000, 70000)
			}
			o.Obj = g.n(2)
			ops = append(ops, o)
		}
		inc.Threads = append(inc.Threads, ops)
	}
}

// ------------------------------------------------------------------- C16

func (g *genr) workers() {
	if g.n(250) == 0 {
		g.limits([]string{"wsh", "wss"})
		return
	}
	g.p.Mode = "workers"
	inc := g.inc()
	inc.Env.AESReal = true
	g.objects(inc)
	inc.Gens = []Gen{{}}
	inc.Workers = 1 + g.n(4)
	var all []Op
	for t := g.pick(1, 2, 3); t > 0; t-- {
		var ops []Op
		for j := 1 + g.n(4); j > 0; j-- {
			api := g.str("wsh", "wss", "wsh", "wss", "split", "rnd", "ssms", "ssmsr")
			s := g.split([]string{api}, g.pick(5, 12, 30, 255), g.pick(500, 3000, 10000))
			if s.L*(s.T-1) < 12 {
				s.L += 12
			}
			ops = append(ops, s)
			all = append(all, s)
			for c := 1 + g.n(2); c > 0; c-- {
				o := g.combine(all[g.n(len(all))])
				for _, x := range all {
					if x.ID == o.Ref {
						// split and combine through different doors
						if isSSMS(x.API) {
							o.API = g.str("wss", "wss", "ssms")
						} else {
							o.API = g.str("wsh", "wsh", "split")
						}
					}
				}
				ops = append(ops, o)
			}
			if g.n(3) == 0 {
				b := g.op("bad")
				b.X, b.Cnt, b.L, b.Sec, b.Obj, b.Ref = "alg", g.n(8), 1+g.n(30), g.n(4), g.n(4), s.ID
				ops = append(ops, b)
			}
		}
		inc.Threads = append(inc.Threads, ops)
	}
}

// ------------------------------------------------------------------- C17

func (g *genr) archive() {
	g.p.Mode = "archive"
	inc := g.inc()
	g.objects(inc)
	if g.n(300) == 0 {
		s := g.limit(allAPIs)
		if g.n(3) == 0 {
			s = g.limit([]string{"ssms", "split"})
			s.K = "oldsplit"
		}
		inc.Threads = append(inc.Threads, []Op{s, g.combine(s), g.ref("refcombine", s)})
		return
	}
	if g.n(150) == 0 {
		s := g.long(allAPIs)
		if g.p2() {
			s = g.long([]string{"ssms", "split"})
			s.K = "oldsplit"
		}
		inc.Threads = append(inc.Threads, []Op{s, g.combine(s), g.ref("refcombine", s)})
		return
	}
	var all []Op
	for t := g.pick(1, 1, 2); t > 0; t-- {
		var ops []Op
		for j := 1 + g.n(3); j > 0; j-- {
			var s Op
			switch g.n(4) {
			case 0: // literal archive of the original release
				s = g.op("golden")
				s.Cnt = g.n(1 << 20)
				s.API = "?"
			case 1: // what the original release would have written
				s = g.split([]string{"split", "ssms", "ssms"}, g.pick(6, 20, 60), 4000)
				s.K = "oldsplit"
			default:
				s = g.split(allAPIs, g.pick(6, 20, 60, 255), g.pick(1000, 6000))
			}
			ops = append(ops, s)
			all = append(all, s)
			if g.n(3) == 0 {
				o := g.ref("regen", s)
				o.Cnt = g.pick(1, 2, 3)
				ops = append(ops, o)
			}
			if g.p2() {
				ops = append(ops, g.combine(s))
			}
			ops = append(ops, g.ref("refcombine", s))
		}
		inc.Threads = append(inc.Threads, ops)
	}
	if g.n(4) == 0 {
		inc.CrashAt = int64(50) << uint(g.n(12))
	}
	// after the upgrade or restart
	inc2 := g.inc()
	g.objects(inc2)
	var ops []Op
	for _, i := range g.perm(len(all)) {
		s := all[i]
		if g.n(3) == 0 {
			o := g.ref("regen", s)
			o.Cnt = 1
			ops = append(ops, o)
		}
		ops = append(ops, g.combine(s))
		if g.p2() {
			ops = append(ops, g.ref("refcombine", s))
		}
	}
	inc2.Threads = append(inc2.Threads, ops)
}

// ------------------------------------------------------------------- C18

func (g *genr) vectors() {
	g.p.Mode = "vectors"
	common := g.vlen()                        // lengths several clients use
	for i := g.pick(1, 1, 2, 3); i > 0; i-- { // the same work on machines of different kinds
		inc := g.inc()
		for t := g.pick(1, 2, 2, 3, 4); t > 0; t-- {
			var ops []Op
			for j := 1 + g.n(6); j > 0; j-- {
				o := g.op("vec")
				o.X = g.str("mul", "mul", "add", "add shared", "add itself", "horner", "scalar")
				o.L = g.vlen()
				if g.n(3) == 0 {
					o.L = common
				}
				switch o.X {
				case "scalar":
					o.L = 1 + g.n(40)
				case "mul":
					o.Cnt = g.pick(0, 0, 0, 1)
				default:
					o.Cnt = g.pick(0, 0, 0, 1, 2)
					o.T = g.n(4)
				}
				ops = append(ops, o)
			}
			inc.Threads = append(inc.Threads, ops)
		}
		if i > 1 && g.n(3) == 0 {
			inc.CrashAt = 1 + int64(g.n(400))
		}
	}
}

func (g *genr) vlen() int {
	switch g.n(8) {
	case 0:
		return g.n(20)
	case 1, 2:
		return g.pick(0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 97, 111, 112, 113, 127, 128, 129, 143, 144, 159, 160, 191, 192, 193, 255, 256, 257, 511, 512, 513)
	case 3, 4:
		return g.n(130)
	case 5, 6:
		return g.n(700)
	}
	if g.n(30) == 0 {
		return g.n(70000)
	}
	return g.n(4200)
}
