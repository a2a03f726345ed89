package worker

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"verif.local/sim/simrt"
)

func clonePlan(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	var q Plan
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	return &q
}

// opsIn counts the operations of a plan.
func opsIn(p *Plan) int {
	n := 0
	for i := range p.Incs {
		for _, t := range p.Incs[i].Threads {
			n += len(t)
		}
	}
	return n
}

func keepOps(p *Plan, keep func(*Op) bool) *Plan {
	q := clonePlan(p)
	for i := range q.Incs {
		for t := range q.Incs[i].Threads {
			var ops []Op
			for _, o := range q.Incs[i].Threads[t] {
				if keep(&o) {
					ops = append(ops, o)
				}
			}
			q.Incs[i].Threads[t] = ops
		}
	}
	return q
}

func failingOp(msg string) int {
	i := strings.Index(msg, "op ")
	if i < 0 {
		return 0
	}
	n := 0
	fmt.Sscanf(msg[i:], "op %d", &n)
	return n
}

// suppressed decides whether a failure found while checking a property about
// interference is present without the interference, and so belongs to another
// property.
func suppressed(t *testing.T, p *Plan, o *Outcome) string {
	switch p.Prop {
	case "C03":
		// every operation alone, in a process of its own
		base := clonePlan(p)
		need := map[int]int{} // op -> the op it refers to
		var ids []int
		for i := range p.Incs {
			for _, ops := range p.Incs[i].Threads {
				for _, op := range ops {
					need[op.ID] = op.Ref
					ids = append(ids, op.ID)
				}
			}
		}
		for i := range base.Incs {
			base.Incs[i].Sched = simrt.SchedConf{Policy: "seq", Seed: 1}
		}
		if f := failingOp(o.Msg); f > 0 {
			ids = []int{f}
		}
		for _, id := range ids {
			q := keepOps(base, func(x *Op) bool { return x.ID == id || x.ID == need[id] })
			if r := Exec(t, q, Stats{}); r.Class == o.Class {
				return "the operation fails the same way when it runs alone"
			}
		}
	case "C14":
		if o.Class == "accepted" {
			return ""
		}
		bad := map[int]bool{}
		for i := range p.Incs {
			for _, ops := range p.Incs[i].Threads {
				for _, op := range ops {
					if op.K == "bad" {
						bad[op.ID] = true
					}
				}
			}
		}
		if f := failingOp(o.Msg); f > 0 && bad[f] {
			return ""
		}
		q := keepOps(p, func(x *Op) bool { return x.K != "bad" })
		if r := Exec(t, q, Stats{}); r.Class == o.Class {
			return "the run fails the same way without the refused requests"
		}
	}
	return ""
}

type mini struct {
	t        *testing.T
	class    string
	deadline time.Time
	tries    int
	salt     uint64
	steps    int64 // of the last failing execution
}

func (m *mini) late() bool { return time.Now().After(m.deadline) }

func (m *mini) fails(p *Plan) *Outcome {
	m.tries++
	o := Exec(m.t, p, Stats{})
	if o.Class == m.class && o.Bug == "" && suppressed(m.t, p, o) == "" {
		m.steps = o.Steps
		return o
	}
	return nil
}

// every: a transient violation shows only if a decision falls into it, so the
// schedules of small plans are given one at each step.
func every(p *Plan, steps int64) int64 {
	if profs[p.Prop].Watch && steps < 400000 {
		return 1
	}
	return 0
}

// calm looks for a schedule with fewer preemptions.
func (m *mini) calm(cur **Plan) {
	o := m.fails(*cur)
	if o == nil || o.Preempt == 0 {
		return
	}
	best, steps := o.Preempt, o.Steps
	for k := 0; k < 30 && best > 0 && !m.late(); k++ {
		q := clonePlan(*cur)
		m.salt++
		for i := range q.Incs {
			c := simrt.SchedConf{Seed: simrt.Hash(m.salt, uint64(i)), Policy: "pct", Depth: (k - 1) / 6, Est: steps}
			if k == 0 {
				c = simrt.SchedConf{Policy: "seq", Seed: 1}
			} else if k%6 == 5 {
				c = simrt.SchedConf{Seed: c.Seed, Policy: "random", Gap: int(steps/8) + 2}
			}
			c.Every = every(q, steps)
			q.Incs[i].Sched = c
		}
		if o := m.fails(q); o != nil && o.Preempt < best {
			best = o.Preempt
			*cur = pin(q, o)
		}
	}
}

// pin makes every decision of an execution explicit.
func pin(p *Plan, o *Outcome) *Plan {
	q := clonePlan(p)
	q.Explicit = true
	q.Faults = append([]Fault{}, o.Fired...)
	q.Net.Drop, q.Net.Dup, q.Net.Slow, q.Net.Corrupt, q.Net.Torn, q.Net.Lost, q.Net.Full = 0, 0, 0, 0, 0, 0, 0
	for i := range q.Incs {
		if i < len(o.Traces) {
			q.Incs[i].Sched = simrt.SchedConf{Policy: "replay", Replay: o.Traces[i], Seed: p.Incs[i].Sched.Seed, Every: every(p, o.Steps)}
		}
	}
	return q
}

// attempt tries a reduced plan under its own schedule, sequentially, and under
// a few other seeded schedules; the result is pinned.
func (m *mini) attempt(p *Plan) *Plan {
	if o := m.fails(p); o != nil {
		return pin(p, o)
	}
	multi := profs[p.Prop].Watch
	for i := range p.Incs {
		if len(p.Incs[i].Threads) > 1 || p.Prop == "C05" || len(p.Incs[i].Sched.Replay) > 0 {
			multi = true
		}
	}
	if !multi {
		return nil
	}
	for k := 0; k < 12 && !m.late(); k++ {
		q := clonePlan(p)
		m.salt++
		for i := range q.Incs {
			c := simrt.SchedConf{Seed: simrt.Hash(m.salt, uint64(i)), Policy: "random", Gap: []int{2, 4, 8, 16, 40, 120}[k%6]}
			if k == 0 {
				c = simrt.SchedConf{Policy: "seq", Seed: 1}
			}
			if k >= 9 {
				c.Policy, c.Depth, c.Est = "pct", 1+k%3, 400
			}
			c.Every = every(p, m.steps)
			q.Incs[i].Sched = c
		}
		if o := m.fails(q); o != nil {
			return pin(q, o)
		}
	}
	return nil
}

// ddmin over n items; try(keep) returns a plan or nil.
func (m *mini) ddmin(n int, try func(drop map[int]bool) bool) {
	alive := make([]int, n)
	for i := range alive {
		alive[i] = i
	}
	chunk := (n + 1) / 2
	dropped := map[int]bool{}
	for chunk >= 1 && len(alive) > 0 && !m.late() {
		progress := false
		for at := 0; at < len(alive) && !m.late(); {
			end := min(at+chunk, len(alive))
			d := map[int]bool{}
			for k := range dropped {
				d[k] = true
			}
			for _, x := range alive[at:end] {
				d[x] = true
			}
			if try(d) {
				dropped = d
				alive = append(append([]int{}, alive[:at]...), alive[end:]...)
				progress = true
			} else {
				at = end
			}
		}
		if chunk == 1 && !progress {
			break
		}
		if chunk > 1 {
			chunk /= 2
		} else if !progress {
			break
		}
	}
}

func minimise(t *testing.T, j *Job) *ReplayFile {
	var p *Plan
	if j.Plan != "" {
		b, _ := readPlan(j.Plan)
		p = b
	} else {
		p = Generate(j.Prop, j.Seed, j.Idx, j.Tier)
	}
	orig := clonePlan(p)
	o := Exec(t, p, Stats{})
	rf := &ReplayFile{Property: j.Prop, Seed: j.Seed, Run: j.Idx, Plan: orig, Violation: o.Class, Message: o.Msg, Hash: fmt.Sprintf("%016x", o.Hash)}
	if o.Class == "" {
		rf.Minimised = "the failure did not recur"
		return rf
	}
	m := &mini{t: t, class: o.Class, deadline: time.Now().Add(time.Duration(j.MaxS * float64(time.Second)))}
	before := fmt.Sprintf("%d operations, %d faults, %d preemptions", opsIn(p), len(o.Fired), o.Preempt)
	cur := pin(p, o)
	if o.Class != "no-progress" && m.fails(cur) == nil { // keep the seeded form
		cur = orig
	}
	if full := cur.Limit; o.Class == "no-progress" { // candidates are judged by a lower limit, the result by the full one
		cur.Limit = 300_000_000
		if m.fails(cur) != nil {
			m.reduce(&cur)
		}
		cur.Limit = full
	} else {
		m.reduce(&cur)
	}
	final := Exec(t, cur, Stats{})
	if final.Class != o.Class {
		cur, final = orig, Exec(t, orig, Stats{})
	}
	rf.Plan = cur
	rf.Violation, rf.Message, rf.Hash = final.Class, final.Msg, fmt.Sprintf("%016x", final.Hash)
	rf.Minimised = fmt.Sprintf("from %s to %d operations, %d faults, %d preemptions in %d executions", before, opsIn(cur), len(cur.Faults), final.Preempt, m.tries)
	rf.Trace = traceText(cur, final)
	return rf
}

func (m *mini) reduce(cur **Plan) {
	take := func(q *Plan) bool {
		if q == nil {
			return false
		}
		*cur = q
		return true
	}
	m.calm(cur)
	// whole threads, then operations
	for pass := 0; pass < 2 && !m.late(); pass++ {
		var ids []int
		if pass == 0 {
			base := clonePlan(*cur)
			n := 0
			for i := range base.Incs {
				n += len(base.Incs[i].Threads)
			}
			m.ddmin(n, func(drop map[int]bool) bool {
				q := clonePlan(*cur)
				c := 0
				for i := range q.Incs {
					for t := range q.Incs[i].Threads {
						if drop[c] {
							q.Incs[i].Threads[t] = nil
						}
						c++
					}
				}
				return take(m.attempt(q))
			})
			continue
		}
		for i := range (*cur).Incs {
			for _, ops := range (*cur).Incs[i].Threads {
				for _, o := range ops {
					ids = append(ids, o.ID)
				}
			}
		}
		m.ddmin(len(ids), func(drop map[int]bool) bool {
			dead := map[int]bool{}
			for k := range drop {
				dead[ids[k]] = true
			}
			return take(m.attempt(keepOps(*cur, func(o *Op) bool { return !dead[o.ID] })))
		})
	}
	// machines and arguments
	edit := func(f func(q *Plan) bool) {
		if m.late() {
			return
		}
		q := clonePlan(*cur)
		if f(q) {
			take(m.attempt(q))
		}
	}
	for len((*cur).Incs) > 1 && !m.late() { // empty incarnations at the end
		last := len((*cur).Incs) - 1
		empty := true
		for _, ops := range (*cur).Incs[last].Threads {
			empty = empty && len(ops) == 0
		}
		if !empty {
			break
		}
		n := len((*cur).Incs)
		edit(func(q *Plan) bool { q.Incs = q.Incs[:last]; return true })
		if len((*cur).Incs) == n {
			break
		}
	}
	for i := range (*cur).Incs {
		i := i
		edit(func(q *Plan) bool { c := q.Incs[i].CrashAt; q.Incs[i].CrashAt = 0; return c != 0 })
		edit(func(q *Plan) bool { c := q.Incs[i].Env.CPU; q.Incs[i].Env.CPU = ""; return c != "" })
		edit(func(q *Plan) bool { c := q.Incs[i].Env.Biased; q.Incs[i].Env.Biased = 0; return c != 0 })
		edit(func(q *Plan) bool { c := q.Incs[i].Env.EntFail; q.Incs[i].Env.EntFail = 0; return c != 0 })
		edit(func(q *Plan) bool { c := q.Incs[i].Env.NumCPU; q.Incs[i].Env.NumCPU = 1; return c != 1 })
		edit(func(q *Plan) bool {
			e := &q.Incs[i].Env
			c := e.Frozen || e.Coarse != 0
			e.Frozen, e.Coarse = false, 0
			return c
		})
		edit(func(q *Plan) bool {
			var ts [][]Op
			for _, ops := range q.Incs[i].Threads {
				if len(ops) > 0 {
					ts = append(ts, ops)
				}
			}
			c := len(ts) < len(q.Incs[i].Threads)
			q.Incs[i].Threads = ts
			return c
		})
		for t := range (*cur).Incs[i].Threads {
			if t >= len((*cur).Incs[i].Threads) {
				break
			}
			for k := range (*cur).Incs[i].Threads[t] {
				at := func(q *Plan) *Op { return &q.Incs[i].Threads[t][k] }
				for round := 0; round < 12 && !m.late(); round++ {
					before := *at(*cur)
					edit(func(q *Plan) bool { o := at(q); o.L /= 2; return o.L >= 1 })
					edit(func(q *Plan) bool {
						o := at(q)
						if o.K == "uniq" || o.K == "perm" || o.K == "rperm" {
							o.N /= 2
							return o.N > 0
						}
						if o.N <= 2 || o.K == "bad" {
							return false
						}
						o.N = max(2, o.N/2)
						if o.T > o.N {
							o.T = o.N
						}
						return true
					})
					edit(func(q *Plan) bool {
						o := at(q)
						if o.T <= 2 || o.K == "bad" {
							return false
						}
						o.T = max(2, o.T/2)
						return true
					})
					edit(func(q *Plan) bool { o := at(q); o.Cnt /= 2; return o.Cnt >= 1 && o.K == "regen" })
					if before == *at(*cur) {
						break
					}
				}
				edit(func(q *Plan) bool { o := at(q); o.L--; return o.L >= 1 && o.L < 64 })
				edit(func(q *Plan) bool { o := at(q); o.N--; return o.N >= 2 && o.N >= o.T && o.K != "bad" })
				edit(func(q *Plan) bool { o := at(q); c := o.Sec; o.Sec = 0; return c != 0 && o.K != "bad" })
			}
		}
	}
	// faults
	fs := append([]Fault{}, (*cur).Faults...)
	m.ddmin(len(fs), func(drop map[int]bool) bool {
		q := clonePlan(*cur)
		q.Faults = nil
		for i, f := range fs {
			if !drop[i] {
				q.Faults = append(q.Faults, f)
			}
		}
		q.Explicit = true
		if o := m.fails(q); o != nil {
			return take(pin(q, o))
		}
		return false
	})
	// preemptions
	m.calm(cur)
	for i := range (*cur).Incs {
		base := append([]simrt.Switch{}, (*cur).Incs[i].Sched.Replay...)
		var pre []int
		for k, s := range base {
			if !s.B {
				pre = append(pre, k)
			}
		}
		if (*cur).Incs[i].Sched.Policy != "replay" || len(pre) > 4000 {
			continue
		}
		m.ddmin(len(pre), func(drop map[int]bool) bool {
			dead := map[int]bool{}
			for k := range drop {
				dead[pre[k]] = true
			}
			q := clonePlan(*cur)
			q.Incs[i].Sched.Replay = nil
			for k, s := range base {
				if !dead[k] {
					q.Incs[i].Sched.Replay = append(q.Incs[i].Sched.Replay, s)
				}
			}
			if m.fails(q) != nil {
				return take(q)
			}
			return false
		})
		// canonical trace of what actually happened
		if o := m.fails(*cur); o != nil {
			q := pin(*cur, o)
			if m.fails(q) != nil {
				*cur = q
			}
		}
	}
}

func traceText(p *Plan, o *Outcome) []string {
	var out []string
	for i := range p.Incs {
		inc := &p.Incs[i]
		out = append(out, fmt.Sprintf("incarnation %d: %d cpus, cpu features %q, clock start %d%s%s", i, inc.Env.NumCPU, inc.Env.CPU, inc.Env.Start, map[bool]string{true: ", frozen clock"}[inc.Env.Frozen], map[bool]string{true: fmt.Sprintf(", killed at step %d", inc.CrashAt)}[inc.CrashAt > 0]))
		for t, ops := range inc.Threads {
			for k := range ops {
				out = append(out, fmt.Sprintf("  client%d: %s", t, opString(&ops[k])))
			}
		}
		if i < len(o.Traces) {
			for k, s := range o.Traces[i] {
				if s.G < 0 {
					out = append(out, fmt.Sprintf("  thread %d starts", s.To))
					continue
				}
				if k == 200 {
					out = append(out, "  ...")
					break
				}
				why := "preempted"
				if s.B {
					why = "blocked or finished"
				}
				out = append(out, fmt.Sprintf("  thread %d %s after %d steps -> thread %d", s.G, why, s.N, s.To))
			}
		}
	}
	for _, f := range o.Fired {
		out = append(out, "fault: "+f.Kind+" at "+f.At)
	}
	return append(out, "violation: "+o.Class+": "+o.Msg)
}
