package worker

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"

	"verif.local/sim/simrt"
)

// A run counts as not terminating after baseSteps steps plus what its calls are
// expected to cost at most (expect), up to moreSteps.
const baseSteps, moreSteps = 300_000_000, 16_000_000_000

func stepLimit(p *Plan) int64 {
	if p.Limit > 0 {
		return p.Limit
	}
	return baseSteps
}

// expect raises the step limit by far more than a call for shares shares of
// length bytes costs: code that does the same at a higher cost, even a higher
// order of it, must not be mistaken for a loop without end.
func (w *World) expect(shares, length int) {
	if w.sim == nil || w.plan.Limit > 0 {
		return
	}
	n := float64(min(max(shares, 1), 255))
	cost := float64(max(length, 1)) * (12*n*n*n + 64*n*n + 1000)
	w.sim.Limit = min(w.sim.Limit+int64(min(cost, moreSteps)), baseSteps+moreSteps)
}

// expectList is expect for a call with a list of shares that makes more of them.
func (w *World) expectList(list [][]byte, more int) {
	long := 0
	for _, x := range list {
		long = max(long, len(x))
	}
	w.expect(len(list)+min(max(more, 0), 255), long)
}

// Exec executes a plan. It is a function of the plan and the code under test.
func Exec(t *testing.T, p *Plan, st Stats) *Outcome {
	o := exec1(t, p, st, 0)
	if o.Class == "" && o.Bug == "" && p.Mode == "twin" {
		// the same run with other secrets: randomness must not follow content
		o2 := exec1(t, p, st, 1)
		st.add("twin runs", 1)
		m := sameStreams(o.streams, o2.streams)
		if m == "" {
			m = sameStreams(o.public, o2.public)
		}
		if m != "" {
			o.Class, o.Msg = "content-dependent", m
		}
		if o.Class == "" && o2.Class != "" {
			o.Class, o.Msg = o2.Class, o2.Msg
		}
	}
	if o.Class == "" && o.Bug == "" && p.Mode == "seed width" {
		if m := seedWidth(t, p, st, o); m != "" {
			o.Class, o.Msg = "predictable", m
		}
	}
	return &o.Outcome
}

// seedWidth repeats a run, each time with one other byte of entropy, and counts
// on how many bytes of entropy the random values of the last operation depend.
// Values that follow from fewer than 16 of them can be found by trying.
func seedWidth(t *testing.T, p *Plan, st Stats, base *outcome) string {
	const need, most = 16, 6000
	n := simrt.EntropyPos()
	last := 0
	for _, s := range base.streams {
		last = max(last, s.op)
	}
	var at []int
	for i, s := range base.streams {
		if s.op == last && len(s.val) >= need {
			at = append(at, i)
		}
	}
	if len(at) == 0 || n > most {
		st.add("seed width not judged", 1)
		return ""
	}
	count := make([]int, len(at))
	pos := make([]uint64, 0, n)
	for i := uint64(1); i <= n && i <= 64; i++ {
		pos = append(pos, i)
	}
	for i := n; i > 64; i-- {
		pos = append(pos, i)
	}
	for _, f := range pos {
		q := *p
		q.Incs = append([]Inc{}, p.Incs...)
		q.Incs[0].Env.Flip = f
		o := exec1(t, &q, Stats{}, 0)
		if o.Class != "" || o.Bug != "" || len(o.streams) != len(base.streams) {
			st.add("seed width not judged", 1)
			return ""
		}
		done := true
		for j, i := range at {
			x, y := base.streams[i], o.streams[i]
			for c := range x.val {
				if c >= len(y.val) || (x.known == nil || x.known[c]) && x.val[c] != y.val[c] {
					count[j]++
					break
				}
			}
			done = done && count[j] >= need
		}
		if done {
			st.add("seed widths judged", 1)
			return ""
		}
	}
	for j, i := range at {
		if count[j] < need {
			return fmt.Sprintf("%s depend on %d of the %d bytes of entropy the process has drawn; 2^%d attempts find them", base.streams[i].what, count[j], n, 8*count[j])
		}
	}
	return ""
}

type outcome struct {
	Outcome
	streams, public []stream
}

func sameStreams(a, b []stream) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d random values drawn with one set of secrets, %d with another", len(a), len(b))
	}
	for i := range a {
		x, y := a[i], b[i]
		for p := range x.val {
			if p < len(y.val) && (x.known == nil || x.known[p]) && x.val[p] != y.val[p] {
				return fmt.Sprintf("%s depend on the content of a secret: with the same random source, value %d is %#02x for one set of secrets and %#02x for another", x.what, p, x.val[p], y.val[p])
			}
		}
	}
	return ""
}

// exec1 runs all incarnations of a plan.
func exec1(t *testing.T, p *Plan, st Stats, variant int) *outcome {
	w := &World{plan: p, prof: profs[p.Prop], st: st, sh: map[int]*Sharing{}, stats: map[string]*[256]int{}, variant: variant}
	o := &outcome{}
	w.net = newNetwork(w)
	for i := range p.Incs {
		res := runInc(t, w, i)
		o.Steps += res.Steps
		o.SimTime += int64(res.SimTime)
		o.Preempt += res.Preempts
		o.Switch += res.Switches
		o.Threads += res.Threads
		o.Hash = simrt.Hash(o.Hash, res.Hash, uint64(len(w.streams)), uint64(w.inject))
		o.Traces = append(o.Traces, res.Trace)
		if res.Crashed {
			o.Crashed++
			st.add("fault:process crash", 1)
			w.inject++
		}
		if simrt.EntFails > 0 {
			st.add("fault:entropy source failed", int64(simrt.EntFails))
			w.inject += int(simrt.EntFails)
		}
		if simrt.BiasHits > 0 {
			st.add("fault:extreme random byte", int64(simrt.BiasHits))
			w.inject++
			simrt.BiasHits = 0
		}
		if w.vclass == "" && res.Fail != nil {
			c := res.Fail.Class
			switch {
			case (c == "panic" || c == "process-exit") && simrt.EntFails > 0:
				st.add("runs cut short by a failing entropy source", 1)
				i = len(p.Incs)
			case (c == "panic" || c == "process-exit") && w.prof.Panic,
				(c == "deadlock" || c == "no-progress") && w.prof.Block:
				w.vclass, w.vmsg = c, res.Fail.Msg
			case c == "panic" || c == "process-exit" || c == "deadlock" || c == "no-progress":
				st.add("runs cut short by a failure outside this property", 1)
				i = len(p.Incs)
			default:
				w.vclass, w.vmsg = c, res.Fail.Msg
			}
			if c == "panic" && strings.Contains(res.Fail.Msg, "[]") && w.vclass != "" {
				// no frame of the code under test: the harness itself failed
				w.bug = res.Fail.Msg
				w.vclass = ""
			}
		}
		if w.vclass != "" || w.bug != "" || i >= len(p.Incs) {
			break
		}
		if w.plan.Prop == "C10" {
			w.checkStreams()
		}
		if w.plan.Prop == "C15" {
			w.checkPools()
		}
		w.hist = nil
		w.checkWatch()
		w.watch = nil
		if w.vclass != "" {
			break
		}
	}
	if w.vclass == "" && w.bug == "" {
		if w.prof.Fresh {
			m, comps := overlap(w.streams, w.prof.CrossInc)
			st.add("randomness comparisons", comps)
			if m != "" {
				w.vclass, w.vmsg = "reuse", m
			}
		}
		if w.prof.Uniform {
			w.checkUniform()
			w.checkDepend()
			w.checkTags()
		}
	}
	st.add("watch checks", int64(w.nwatch))
	o.Class, o.Msg, o.Bug = w.vclass, w.vmsg, w.bug
	o.Fired = w.net.fired
	o.Inject = w.inject
	o.streams, o.public = w.streams, w.public
	return o
}

func runInc(t *testing.T, w *World, i int) (res simrt.Result) {
	p := w.plan
	inc := &p.Incs[i]
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if !strings.Contains(s, "deadlock") {
				panic(r)
			}
			// goroutines of an abandoned run stay blocked in their bubble
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		w.boot(i)
		s := simrt.New(inc.Sched, stepLimit(p))
		s.CrashAt = inc.CrashAt
		s.Races = w.prof.Races
		w.sim = s
		if w.vclass != "" {
			res.Fail = &simrt.Failure{Class: w.vclass, Msg: w.vmsg}
			return
		}
		if w.prof.Watch || p.Prop == "C05" {
			s.OnSwitch = w.checkWatch
		}
		for ti := range inc.Threads {
			ops := inc.Threads[ti]
			s.Spawn(fmt.Sprintf("client%d", ti), func() {
				for j := range ops {
					w.do(&ops[j])
				}
			})
		}
		res = s.Run()
		if s.Uses > 0 {
			w.st.add("uses of unsynchronised objects", s.Uses)
		}
	})
	return
}
