// Package simrt is the run-time of the deterministic simulator: a
// cooperative scheduler that decides every interleaving of the instrumented
// code, a discrete-event clock, and the entropy tape. Instrumented repository
// code calls Y before every statement, Wrap at every go statement, and
// Recv/Send/Me/Post around channel operations. When no simulation is active
// all of them are no-ops.
package simrt

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing/synctest"
	"time"
)

// ---------------------------------------------------------------- goroutines

type gState uint8

const (
	gReady gState = iota
	gRunning
	gWaiting // parked with a predicate
	gNative  // blocked inside a native channel operation
	gDone
)

// G is one simulated thread.
type G struct {
	ID       int
	Name     string
	Lib      bool // started by the library, not by the harness
	wake     chan struct{}
	state    gState
	waitFn   func() bool
	until    time.Duration // deadline of a wait, 0 = none
	n        int64         // yield points passed
	chunk    int64         // budget handed out at the last dispatch
	more     int64         // what remains of it to hand out
	prio     float64
	stalled  int
	ri       int   // next replay entry
	EntFails int   // entropy failures this thread met
	grace    int64 // yield points it may still pass, 0 = no bound
	Owner    *G    // nearest harness thread that (transitively) started this one
}

// Switch is one scheduling decision: thread G, having passed N yield points,
// was descheduled (or blocked, or finished) and thread To ran next.
type Switch struct {
	G  int   `json:"g"`
	N  int64 `json:"n"`
	To int   `json:"to"`
	B  bool  `json:"b,omitempty"` // the thread blocked or finished (not a preemption)
}

// Failure is a violation found while a run proceeds.
type Failure struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func (f *Failure) Error() string { return f.Class + ": " + f.Msg }

type abortT struct{}

// SchedConf selects the schedule policy of one run.
type SchedConf struct {
	Policy string   `json:"policy"` // seq, random, pct, rare, stall, replay
	Gap    int      `json:"gap,omitempty"`
	Depth  int      `json:"depth,omitempty"`
	Est    int64    `json:"est,omitempty"`
	Rare   float64  `json:"rare,omitempty"`
	Seed   uint64   `json:"seed,omitempty"`
	Every  int64    `json:"every,omitempty"` // a scheduling decision at least every so many steps
	Replay []Switch `json:"replay,omitempty"`
}

type event struct {
	at  time.Duration
	seq uint64
	run func()
}

// Sim is one simulated execution.
type Sim struct {
	conf        SchedConf
	rng         *rand.Rand
	gs          []*G
	now         time.Duration
	seq         uint64
	evs         []event
	Limit       int64
	Steps       int64
	Fail        *Failure
	Trace       []Switch
	replay      map[int][]Switch
	points      []int64 // pct change points
	nextID      int
	evtLog      uint64 // running hash of scheduling events
	SwitchCount int
	started     bool
	stop        bool  // unwinding: a failure or a crash
	CrashAt     int64 // kill the process at this step (0 = never)
	Crashed     bool
	OnSwitch    func() // invariant evaluated at every scheduling decision
	Preempts    int
	rounds      int
	stamp       int64
	nextBeat    int64
	Races       int // 0: unsynchronised use of objects is not looked for, 1: of sources of randomness only, 2: of all
	Uses        int64
	open        map[uintptr][]window
}

// The simulator is single-threaded by construction: exactly one simulated
// thread runs at a time, and the scheduler only looks at state when all
// others are durably blocked.
var (
	sim       *Sim
	active    bool
	cur       *G
	budget    int64 = 1 << 62
	rareOn    bool
	inHarness int
)

const maxSites = 1 << 14

var siteCnt [maxSites]uint32

// SiteTotal counts how often each yield point was passed in this process.
var SiteTotal [maxSites]uint64

// NSites is the number of yield points of the instrumented code.
var NSites int

func init() {
	budget = 1 << 62
}

// Y is a yield point.
func Y(site int) {
	if !active {
		return
	}
	budget--
	c := siteCnt[site] + 1
	siteCnt[site] = c
	if budget > 0 && !(rareOn && c&(c-1) == 0) {
		return
	}
	slow(c)
}

func slow(c uint32) {
	g := cur
	s := sim
	if g == nil || s == nil {
		return
	}
	if s.stop {
		panic(abortT{})
	}
	if budget > 0 { // rare-site trigger
		if s.rng.Float64() >= s.conf.Rare {
			return
		}
	}
	s.account(g)
	if budget <= 0 && g.more > 0 {
		g.refill(g.more)
		if s.stop {
			panic(abortT{})
		}
		return
	}
	if g.grace > 0 && g.n >= g.grace {
		s.fail("outlives", fmt.Sprintf("thread %s keeps working after the call that started it returned", g.Name))
		panic(abortT{})
	}
	if s.Steps >= s.Limit {
		s.fail("no-progress", fmt.Sprintf("thread %s still running after %d steps of this run (step limit): it does not terminate", g.Name, s.Steps))
		panic(abortT{})
	}
	if s.CrashAt > 0 && s.Steps >= s.CrashAt {
		s.Crashed, s.stop = true, true
		panic(abortT{})
	}
	if inHarness > 0 {
		budget = g.grant(s)
		return
	}
	g.state = gReady
	<-g.wake
	if s.stop {
		panic(abortT{})
	}
}

func (s *Sim) account(g *G) {
	used := g.chunk - budget
	g.n += used
	s.Steps += used
	g.chunk = budget
}

func (s *Sim) fail(class, msg string) {
	if s.Fail == nil {
		s.Fail = &Failure{class, msg}
	}
	s.stop = true
}

// Fatal reports a violation from harness code and unwinds the thread.
func Fatal(class, format string, a ...any) {
	if sim != nil {
		sim.fail(class, fmt.Sprintf(format, a...))
	}
	panic(abortT{})
}

// Report reports a violation without unwinding.
func Report(class, format string, a ...any) {
	if sim != nil {
		sim.fail(class, fmt.Sprintf(format, a...))
	}
}

// Atomic runs f without preemption (harness bookkeeping).
func Atomic(f func()) {
	inHarness++
	defer func() { inHarness-- }()
	f()
}

// Now is the simulated clock.
func Now() time.Duration {
	if sim == nil {
		return 0
	}
	return sim.now
}

// CurSim returns the running simulation.
func CurSim() *Sim { return sim }

// Cur returns the running simulated thread.
func Cur() *G { return cur }

// After schedules a discrete event.
func (s *Sim) After(d time.Duration, f func()) {
	s.seq++
	e := event{s.now + d, s.seq, f}
	i := sort.Search(len(s.evs), func(i int) bool {
		return s.evs[i].at > e.at || (s.evs[i].at == e.at && s.evs[i].seq > e.seq)
	})
	s.evs = append(s.evs, event{})
	copy(s.evs[i+1:], s.evs[i:])
	s.evs[i] = e
}

// Wait parks the current thread until pred holds or the deadline d (relative,
// 0 = none) passes; it reports whether pred held.
func Wait(d time.Duration, pred func() bool) bool {
	g, s := cur, sim
	if pred() {
		return true
	}
	s.account(g)
	g.waitFn = pred
	g.until = 0
	if d > 0 {
		g.until = s.now + d
		s.After(d, func() {})
	}
	g.state = gWaiting
	<-g.wake
	if s.stop {
		panic(abortT{})
	}
	g.waitFn = nil
	return pred()
}

// Yield is an explicit preemption point for harness code.
func Yield() {
	if !active || cur == nil {
		return
	}
	budget--
	if budget <= 0 {
		slow(0)
	}
}

// Spawn starts a harness thread.
func (s *Sim) Spawn(name string, f func()) *G {
	g := s.newG(name)
	go func() {
		defer s.exit(g)
		<-g.wake
		if s.stop {
			panic(abortT{})
		}
		f()
	}()
	return g
}

func (s *Sim) newG(name string) *G {
	g := &G{ID: s.nextID, Name: name, wake: make(chan struct{}), state: gReady}
	g.prio = s.rng.Float64()
	s.nextID++
	s.gs = append(s.gs, g)
	return g
}

// TrimStack reduces a panic stack to the frames of the code under test.
func TrimStack(st string) string {
	var out []string
	lines := strings.Split(st, "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i+1], "/repo/") && strings.HasPrefix(lines[i+1], "\t") {
			l := strings.TrimSpace(lines[i+1])
			if j := strings.Index(l, " +0x"); j >= 0 {
				l = l[:j]
			}
			out = append(out, l)
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

func (s *Sim) exit(g *G) {
	if r := recover(); r != nil {
		if _, ok := r.(abortT); !ok {
			if x, ok := r.(ExitT); ok {
				s.fail("process-exit", fmt.Sprintf("thread %s ended the process: %s", g.Name, x.Msg))
			} else {
				s.fail("panic", fmt.Sprintf("panic in thread %s: %v [%s]", g.Name, r, TrimStack(string(debug.Stack()))))
			}
		}
	}
	if cur == g && g.state == gRunning {
		s.account(g)
	}
	g.state = gDone
}

// ExitT is what os.Exit and log.Fatal become.
type ExitT struct{ Msg string }

// ------------------------------------------------------------ instrumentation

// NewG registers a goroutine about to be started by instrumented code.
func NewG(site int) int {
	if !active || cur == nil {
		return -1
	}
	o := cur.Owner
	if o == nil {
		o = cur
	}
	g := sim.newG(fmt.Sprintf("%s/go%d", o.Name, sim.nextID))
	g.Lib = true
	g.Owner = o
	return g.ID
}

// enter waits for the first dispatch of a thread started by the code under
// test; a nil result means the simulation does not control it.
func enter(id int) (*Sim, *G) {
	if id < 0 {
		return nil, nil
	}
	s := sim
	g := s.gs[id]
	<-g.wake
	return s, g
}

// Go starts f as a simulated thread owned by the current one.
func Go(f func()) {
	id := NewG(0)
	go func() {
		if s, g := enter(id); g != nil {
			defer s.exit(g)
		}
		aborting()
		f()
	}()
}

func aborting() {
	if sim != nil && sim.stop && active {
		panic(abortT{})
	}
}

// Me returns the running thread; Post(me) re-synchronises with the scheduler
// after a native operation that may have blocked.
func Me() *G {
	if !active {
		return nil
	}
	return cur
}

func Post(me *G) {
	if me == nil || !active {
		return
	}
	if cur == me && me.state == gRunning {
		return
	}
	me.state = gReady
	<-me.wake
	if sim.stop {
		panic(abortT{})
	}
}

func Recv[T any](ch <-chan T) T {
	me := Me()
	v := <-ch
	Post(me)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	me := Me()
	v, ok := <-ch
	Post(me)
	return v, ok
}

func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		me := Me()
		ch <- v
		Post(me)
	}
}

// ------------------------------------------------------------- scheduler loop

func (g *G) grant(s *Sim) int64 {
	left := s.Limit - s.Steps
	if left < 1 {
		left = 1
	}
	b := left
	switch s.conf.Policy {
	case "replay":
		es := s.replay[g.ID]
		for g.ri < len(es) && es[g.ri].N < g.n {
			g.ri++
		}
		for i := g.ri; i < len(es); i++ {
			if !es[i].B {
				if d := es[i].N - g.n; d > 0 && d < b {
					b = d
				}
				break
			}
		}
	case "random":
		b = min64(b, geom(s.rng, s.gap()))
	case "pct":
		for len(s.points) > 0 && s.points[0] <= s.Steps {
			s.points = s.points[1:]
		}
		if len(s.points) > 0 {
			b = min64(b, s.points[0]-s.Steps)
		}
	case "stall":
		b = min64(b, geom(s.rng, s.gap()))
	}
	if s.conf.Every > 0 {
		b = min64(b, s.conf.Every)
	}
	if s.CrashAt > 0 {
		b = min64(b, s.CrashAt-s.Steps)
	}
	if g.grace > 0 {
		b = min64(b, g.grace-g.n)
	}
	if b < 1 {
		b = 1
	}
	g.refill(b)
	return g.chunk
}

// beat bounds the number of steps between two signs of life.
const beat = 100_000_000

// Beat is called now and then in long runs; if it reports false the run is given up.
var Beat func(steps int64) bool

// refill gives a thread b steps, in portions.
func (g *G) refill(b int64) {
	g.chunk = min64(b, beat)
	g.more = b - g.chunk
	budget = g.chunk
	if s := sim; s.Steps >= s.nextBeat && Beat != nil {
		s.nextBeat = s.Steps + beat
		if !Beat(s.Steps) {
			s.stop = true // as if it had ended
		}
	}
}

// gap is the mean distance of preemptions; it grows in long runs so that their
// cost stays bounded.
func (s *Sim) gap() int { return s.conf.Gap << min(uint(s.rounds/2500), 20) }

// IsAbort reports whether a recovered value is the simulator unwinding.
func IsAbort(r any) bool { _, ok := r.(abortT); return ok }

// Stamp returns the next global event sequence number.
func Stamp() int64 {
	if sim == nil {
		return 0
	}
	sim.stamp++
	return sim.stamp
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func geom(r *rand.Rand, mean int) int64 {
	if mean <= 1 {
		return 1
	}
	n := int64(1)
	// exponential approximation of a geometric distribution
	n += int64(r.ExpFloat64() * float64(mean-1))
	return n
}

// Result of a simulation.
type Result struct {
	Fail     *Failure
	Steps    int64
	SimTime  time.Duration
	Switches int
	Threads  int
	Hash     uint64
	Trace    []Switch
	Crashed  bool
	Preempts int
}

// New prepares a simulation. Must be called inside a synctest bubble.
func New(conf SchedConf, limit int64) *Sim {
	s := &Sim{conf: conf, Limit: limit, nextBeat: beat}
	s.rng = rand.New(rand.NewPCG(conf.Seed, 0x5c4ed))
	if conf.Policy == "pct" {
		est := conf.Est
		if est < 10 {
			est = 10
		}
		for i := 0; i < conf.Depth; i++ {
			s.points = append(s.points, 1+s.rng.Int64N(est))
		}
		sort.Slice(s.points, func(i, j int) bool { return s.points[i] < s.points[j] })
	}
	if conf.Policy == "replay" {
		s.replay = map[int][]Switch{}
		for _, e := range conf.Replay {
			s.replay[e.G] = append(s.replay[e.G], e)
		}
	}
	clear(siteCnt[:])
	sim = s
	cur = nil
	inHarness = 0
	return s
}

// Run drives the simulation to completion. setup spawns the initial threads.
func (s *Sim) Run() Result {
	rareOn = s.conf.Policy == "rare" || (s.conf.Policy != "replay" && s.conf.Rare > 0)
	budget = 1
	active = true
	s.started = true
	idle := 0
	var lastRun *G
	for {
		synctest.Wait()
		if cur != nil {
			if cur.state == gRunning {
				s.account(cur)
				cur.state = gNative
			}
			lastRun = cur
			cur = nil
		}
		if s.stop {
			break
		}
		// due events
		active = false
		for len(s.evs) > 0 && s.evs[0].at <= s.now {
			e := s.evs[0]
			s.evs = s.evs[1:]
			e.run()
			s.mix(uint64(e.seq)<<1 | 1)
		}
		if s.OnSwitch != nil {
			s.OnSwitch()
		}
		active = true
		if s.stop {
			break
		}
		ready := s.ready()
		if len(ready) == 0 {
			if s.allDone() {
				break
			}
			if len(s.evs) > 0 {
				s.now = s.evs[0].at
				continue
			}
			// maybe threads sleep on native timers: let the bubble clock run
			idle++
			if idle < 40 {
				d := time.Millisecond << uint(idle)
				time.Sleep(d)
				s.now += d
				continue
			}
			s.fail("deadlock", "no thread can run: "+s.describe())
			break
		}
		idle = 0
		g := s.choose(lastRun, ready)
		if lastRun != g {
			s.SwitchCount++
			if lastRun != nil {
				if lastRun.state == gReady {
					s.Preempts++
				}
				s.Trace = append(s.Trace, Switch{lastRun.ID, lastRun.n, g.ID, lastRun.state != gReady})
				s.mix(uint64(lastRun.ID)<<40 ^ uint64(lastRun.n)<<8 ^ uint64(g.ID))
			} else {
				s.Trace = append(s.Trace, Switch{-1, 0, g.ID, true})
				s.mix(uint64(g.ID))
			}
		}
		s.rounds++
		s.now += time.Microsecond
		cur = g
		g.state = gRunning
		budget = g.grant(s)
		g.wake <- struct{}{}
	}
	res := Result{Fail: s.Fail, Steps: s.Steps, SimTime: s.now, Switches: s.SwitchCount, Threads: len(s.gs), Hash: s.evtLog, Trace: s.Trace, Crashed: s.Crashed, Preempts: s.Preempts}
	if s.stop {
		// unwind everything that can be unwound
		for range 3 {
			for _, g := range s.gs {
				if g.state == gReady || g.state == gWaiting {
					cur = g
					g.state = gRunning
					g.chunk = 1 << 40
					budget = 1 << 40
					active = true
					g.wake <- struct{}{}
					synctest.Wait()
					active = true
				}
			}
			synctest.Wait()
		}
	}
	active = false
	cur = nil
	sim = nil
	for i := 0; i < NSites; i++ {
		SiteTotal[i] += uint64(siteCnt[i])
	}
	budget = 1 << 62
	runtime.KeepAlive(s)
	return res
}

func (s *Sim) mix(x uint64) {
	h := s.evtLog ^ x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	s.evtLog = h
}

// Note folds harness observations into the event hash.
func (s *Sim) Note(x uint64) { s.mix(x) }

func (s *Sim) allDone() bool {
	for _, g := range s.gs {
		if g.state != gDone {
			return false
		}
	}
	return true
}

// expireGrace is how many yield points a goroutine may pass after the call it
// works for has returned: enough to leave the function that signalled the
// completion, not enough to do any work.
const expireGrace = 40

// Expire is called when the call of owner that started goroutines has
// returned: those that have not finished yet may only wind down. It returns
// their number.
func (s *Sim) Expire(owner *G) int {
	n := 0
	for _, g := range s.gs {
		if g.Lib && g.state != gDone && g.Owner == owner && g.grace == 0 {
			g.grace = g.n + expireGrace
			n++
		}
	}
	return n
}

func (s *Sim) describe() string {
	var out []string
	for _, g := range s.gs {
		if g.state != gDone {
			st := "waiting"
			if g.state == gNative {
				st = "blocked on a channel"
			}
			out = append(out, g.Name+" "+st)
		}
	}
	return strings.Join(out, ", ")
}

func (s *Sim) ready() []*G {
	var out []*G
	for _, g := range s.gs {
		switch g.state {
		case gReady:
			out = append(out, g)
		case gWaiting:
			if (g.until > 0 && s.now >= g.until) || g.waitFn() {
				out = append(out, g)
			}
		}
	}
	return out
}

func contains(gs []*G, g *G) bool {
	for _, x := range gs {
		if x == g {
			return true
		}
	}
	return false
}

func (s *Sim) choose(last *G, ready []*G) *G {
	if s.conf.Policy == "replay" {
		if last == nil {
			for _, e := range s.replay[-1] {
				for _, g := range ready {
					if g.ID == e.To {
						return g
					}
				}
			}
		} else {
			es := s.replay[last.ID]
			blocked := last.state != gReady
			for i := last.ri; i < len(es); i++ {
				if es[i].N > last.n {
					break
				}
				if es[i].N == last.n && es[i].B == blocked {
					last.ri = i + 1
					for _, g := range ready {
						if g.ID == es[i].To {
							return g
						}
					}
					break
				}
			}
			if !blocked && contains(ready, last) {
				return last
			}
		}
		return ready[0]
	}
	if len(ready) == 1 {
		return ready[0]
	}
	switch s.conf.Policy {
	case "seq":
		if last != nil && contains(ready, last) {
			return last
		}
		return ready[0]
	case "pct":
		if last != nil && last.state == gReady && len(s.points) > 0 && s.points[0] <= s.Steps {
			last.prio = -s.rng.Float64() - float64(s.SwitchCount)
			s.points = s.points[1:]
		}
		best := ready[0]
		for _, g := range ready {
			if g.prio > best.prio {
				best = g
			}
		}
		return best
	case "stall":
		// one thread may be stalled for many scheduling rounds
		for _, g := range ready {
			if g.stalled == 0 && s.rng.IntN(8) == 0 {
				g.stalled = 1 + s.rng.IntN(60)
			}
		}
		var ok []*G
		for _, g := range ready {
			if g.stalled > 0 {
				g.stalled--
				continue
			}
			ok = append(ok, g)
		}
		if len(ok) == 0 {
			ok = ready
		}
		return ok[s.rng.IntN(len(ok))]
	}
	return ready[s.rng.IntN(len(ready))]
}
