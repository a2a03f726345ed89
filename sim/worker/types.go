// Package worker executes simulated runs: plan generation, the simulated
// deployment around the library, oracles, and minimisation.
package worker

import (
	"verif.local/sim/simrt"
)

// Op is one operation of a client thread. Everything that happens in it is a
// function of its fields, so that removing other operations does not change it.
type Op struct {
	ID   int    `json:"id"`
	K    string `json:"k"`
	API  string `json:"api,omitempty"`
	L    int    `json:"l,omitempty"`
	N    int    `json:"n,omitempty"`
	T    int    `json:"t,omitempty"`
	Sec  int    `json:"sec,omitempty"`
	Ref  int    `json:"ref,omitempty"`
	Cnt  int    `json:"cnt,omitempty"`
	Obj  int    `json:"obj,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
	D    int64  `json:"d,omitempty"`
	X    string `json:"x,omitempty"`
}

// Inc is one incarnation of the process under test.
type Inc struct {
	Env     simrt.Env       `json:"env"`
	Sched   simrt.SchedConf `json:"sched"`
	CrashAt int64           `json:"crash_at,omitempty"`
	Gens    []Gen           `json:"gens,omitempty"`
	Workers int             `json:"workers,omitempty"`
	Pools   []int           `json:"pools,omitempty"`
	Threads [][]Op          `json:"threads"`
}

// Gen describes a generator created before the threads start.
type Gen struct {
	Key  string `json:"key,omitempty"` // hex key+IV, empty: NewCSPRNG
	Rand bool   `json:"rand,omitempty"`
}

// Net holds the fault rates of the simulated network and disks.
type Net struct {
	Drop    float64 `json:"drop,omitempty"`
	Dup     float64 `json:"dup,omitempty"`
	Slow    float64 `json:"slow,omitempty"`
	Corrupt float64 `json:"corrupt,omitempty"`
	Torn    float64 `json:"torn,omitempty"`
	Lost    float64 `json:"lost,omitempty"` // writes lost before becoming durable
	Full    float64 `json:"full,omitempty"` // disk full: write refused
	Jitter  int64   `json:"jitter,omitempty"`
}

// Fault is one injected fault, identified by the event it hits.
type Fault struct {
	Key  uint64 `json:"key"`
	Kind string `json:"kind"`
	At   string `json:"at,omitempty"`
}

// Plan is one simulated run.
type Plan struct {
	Prop     string  `json:"property"`
	Seed     uint64  `json:"seed"`
	Idx      uint64  `json:"run"`
	Mode     string  `json:"mode"`
	Incs     []Inc   `json:"incarnations"`
	Net      Net     `json:"net"`
	Holders  int     `json:"holders,omitempty"`
	Raw      bool    `json:"raw,omitempty"` // holders keep records without a checksum
	Explicit bool    `json:"explicit,omitempty"`
	Faults   []Fault `json:"faults,omitempty"`
	Limit    int64   `json:"limit"`
}

// Outcome of a run.
type Outcome struct {
	Class   string
	Msg     string
	Hash    uint64
	Traces  [][]simrt.Switch
	Fired   []Fault
	Steps   int64
	SimTime int64
	Preempt int
	Switch  int
	Threads int
	Crashed int
	Inject  int // faults injected, of any kind
	Bug     string
}

type rng struct{ s uint64 }

func newRng(xs ...uint64) *rng { return &rng{simrt.Hash(xs...)} }
func (r *rng) u() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}
func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u() % uint64(n))
}
func (r *rng) rng(a, b int) int        { return a + r.n(b-a+1) }
func (r *rng) f() float64              { return float64(r.u()>>11) / (1 << 53) }
func (r *rng) p(x float64) bool        { return r.f() < x }
func (r *rng) pick(xs ...int) int      { return xs[r.n(len(xs))] }
func (r *rng) str(xs ...string) string { return xs[r.n(len(xs))] }
func (r *rng) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.n(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
func (r *rng) fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.u()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

// Stats are measured counters of a worker.
type Stats map[string]int64

func (s Stats) add(k string, n int64) { s[k] += n }
