package worker

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"verif.local/sim/simrt"
)

// Job is what the driver asks a worker process to do.
type Job struct {
	Mode   string `json:"mode"` // run, min, replay
	Prop   string `json:"prop"`
	Seed   uint64 `json:"seed"`
	Tier   string `json:"tier"`
	Shard  uint64 `json:"shard"`
	Shards uint64 `json:"shards"`
	From   uint64 `json:"from"`
	Runs   uint64 `json:"runs"`
	Skip   []uint64
	MaxS   float64 `json:"max_s"`
	Stop   string  `json:"stop"`
	Status string  `json:"status"`
	Out    string  `json:"out"`
	Idx    uint64  `json:"idx"`
	Plan   string  `json:"plan"`
	Known  []string
	Hashes bool
	Sites  int
	Names  []string
}

// RunOut is what a worker process measured.
type RunOut struct {
	Runs       int64
	Steps      int64
	MaxSteps   int64
	MaxIdx     uint64
	SimTime    int64
	Preempts   int64
	Switches   int64
	Threads    int64
	Faulty     int64
	Stats      Stats
	Modes      map[string]int64
	Policies   map[string]int64
	Cases      []uint64
	Schedules  []uint64
	Fail       *Found
	Suppressed map[string]int64
	KnownHits  map[string]int64
	Samples    []string
	Trouble    []string
	Repeated   int64
	Unrepeat   int64
	LastIdx    uint64
	TimedOut   bool
	Wall       float64
	Sites      []uint64
	All        map[uint64]string `json:",omitempty"`
}

// Found is a violation.
type Found struct {
	Idx   uint64
	Class string
	Msg   string
	Hash  uint64
	Key   string
}

// ReplayFile reproduces one violation.
type ReplayFile struct {
	Property  string   `json:"property"`
	Violation string   `json:"violation"`
	Message   string   `json:"message"`
	Hash      string   `json:"event_hash"`
	Seed      uint64   `json:"seed"`
	Run       uint64   `json:"run"`
	Tags      string   `json:"build_tags,omitempty"`
	Minimised string   `json:"minimised"`
	Trace     []string `json:"trace"`
	Plan      *Plan    `json:"plan"`
}

func TestWorker(t *testing.T) {
	path := os.Getenv("VSIM_JOB")
	if path == "" {
		t.Skip("no job")
	}
	lim := syscall.Rlimit{Cur: 5 << 30, Max: 5 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var j Job
	if err := json.Unmarshal(b, &j); err != nil {
		t.Fatal(err)
	}
	simrt.NSites = j.Sites
	simrt.Sites = j.Names
	write := func(v any) {
		b, err := json.MarshalIndent(v, "", " ")
		if err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(j.Out+".tmp", b, 0o644); err != nil {
			t.Fatal(err)
		}
		if err := os.Rename(j.Out+".tmp", j.Out); err != nil {
			t.Fatal(err)
		}
	}
	life := int64(0)
	simrt.Beat = func(int64) bool {
		life++
		os.WriteFile(j.Status, []byte(fmt.Sprintf("%d %d\n", j.Idx, life)), 0o644)
		return true
	}
	switch j.Mode {
	case "run":
		write(runShard(t, &j))
	case "min":
		write(minimise(t, &j))
	case "plan":
		p := Generate(j.Prop, j.Seed, j.Idx, j.Tier)
		write(&ReplayFile{Property: j.Prop, Seed: j.Seed, Run: j.Idx, Plan: p, Minimised: "no"})
	case "golden":
		write(makeGolden(t))
	case "replay":
		b, err := os.ReadFile(j.Plan)
		if err != nil {
			t.Fatal(err)
		}
		var rf ReplayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			t.Fatal(err)
		}
		o := Exec(t, rf.Plan, Stats{})
		write(&Found{Idx: rf.Plan.Idx, Class: o.Class, Msg: o.Msg, Hash: o.Hash, Key: o.Bug})
	default:
		t.Fatalf("mode %q", j.Mode)
	}
}

// planHash identifies the work and the environment of a run.
func planHash(p *Plan) uint64 {
	h := simrt.Hash(uint64(len(p.Incs)))
	for i := range p.Incs {
		inc := &p.Incs[i]
		h = simrt.Hash(h, uint64(len(inc.Threads)), uint64(inc.Env.NumCPU), uint64(inc.CrashAt))
		for _, ops := range inc.Threads {
			h = simrt.Hash(h, uint64(len(ops)))
			for j := range ops {
				o := &ops[j]
				h = simrt.Hash(h, str64(o.K), str64(o.API), str64(o.X), uint64(o.L), uint64(o.N), uint64(o.T), uint64(o.Sec), uint64(o.Ref), uint64(o.Cnt), uint64(o.Obj))
			}
		}
	}
	return h
}

func str64(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func runShard(t *testing.T, j *Job) *RunOut {
	start := time.Now()
	out := &RunOut{Stats: Stats{}, Modes: map[string]int64{}, Policies: map[string]int64{}, Suppressed: map[string]int64{}, KnownHits: map[string]int64{}}
	if j.Hashes {
		out.All = map[uint64]string{}
	}
	sf, err := os.OpenFile(j.Status, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	defer sf.Close()
	at := uint64(0)
	skip := map[uint64]bool{}
	for _, x := range j.Skip {
		skip[x] = true
	}
	givenUp := false
	stopped := func(idx uint64) bool {
		if b, err := os.ReadFile(j.Stop); err == nil {
			if v, err := strconv.ParseUint(strings.TrimSpace(string(b)), 10, 64); err == nil && v < idx {
				return true
			}
		}
		return false
	}
	simrt.Beat = func(n int64) bool {
		sf.WriteAt([]byte(fmt.Sprintf("%d %-20d\n", at, n)), 0)
		givenUp = givenUp || stopped(at)
		return !givenUp
	}
	cases, scheds := map[uint64]bool{}, map[uint64]bool{}
	for idx := j.Shard; idx < j.Runs; idx += j.Shards {
		if idx < j.From || skip[idx] {
			continue
		}
		if time.Since(start).Seconds() > j.MaxS {
			out.TimedOut = true
			break
		}
		if out.Runs%16 == 0 {
			if stopped(idx) {
				break
			}
		}
		at = idx
		sf.WriteAt([]byte(fmt.Sprintf("%-40d\n", idx)), 0)
		p := Generate(j.Prop, j.Seed, idx, j.Tier)
		o := Exec(t, p, out.Stats)
		if givenUp {
			break
		}
		out.LastIdx = idx
		out.Runs++
		out.Steps += o.Steps
		if o.Steps > out.MaxSteps {
			out.MaxSteps, out.MaxIdx = o.Steps, idx
		}
		out.SimTime += o.SimTime
		out.Preempts += int64(o.Preempt)
		out.Switches += int64(o.Switch)
		out.Threads += int64(o.Threads)
		out.Modes[p.Mode]++
		for i := range p.Incs {
			out.Policies[p.Incs[i].Sched.Policy]++
		}
		if o.Inject > 0 {
			out.Faulty++
		}
		var fh uint64
		for _, f := range o.Fired {
			fh = simrt.Hash(fh, f.Key, str64(f.Kind))
		}
		if o.Inject > 0 || o.Preempt > 0 {
			cases[simrt.Hash(o.Hash, fh, planHash(p))] = true
			scheds[o.Hash] = true
			if j.Shard == 0 && len(out.Samples) < 3 && o.Preempt > 1 && (len(out.Samples) > 0 || out.Runs > 2) {
				out.Samples = append(out.Samples, describe(p, o))
			}
		}
		if j.Hashes {
			out.All[idx] = fmt.Sprintf("%x %s %s %d", o.Hash, o.Class, o.Msg, o.Steps)
		}
		if o.Bug != "" {
			out.Trouble = append(out.Trouble, fmt.Sprintf("run %d: %s", idx, o.Bug))
			if len(out.Trouble) > 3 {
				break
			}
			continue
		}
		if o.Class == "" && out.Runs%101 == 7 { // the same seed is the same execution
			o2 := Exec(t, Generate(j.Prop, j.Seed, idx, j.Tier), Stats{})
			out.Repeated++
			if o2.Hash != o.Hash || o2.Class != o.Class || o2.Steps != o.Steps {
				out.Unrepeat++
			}
		}
		if o.Class != "" {
			if why := suppressed(t, p, o); why != "" {
				out.Suppressed[why]++
				continue
			}
			key := violationKey(o)
			if isKnown(j.Known, key) {
				out.KnownHits[key]++
				continue
			}
			out.Fail = &Found{Idx: idx, Class: o.Class, Msg: o.Msg, Hash: o.Hash, Key: key}
			break
		}
	}
	for h := range cases {
		out.Cases = append(out.Cases, h)
	}
	for h := range scheds {
		out.Schedules = append(out.Schedules, h)
	}
	out.Sites = simrt.SiteTotal[:j.Sites]
	out.Wall = time.Since(start).Seconds()
	return out
}

// violationKey identifies what fails, independent of the run it was seen in.
func violationKey(o *Outcome) string {
	m := o.Msg
	if i := strings.LastIndex(m, "["); i >= 0 && o.Class == "panic" { // the panicking call site
		return o.Class + " " + m[i:]
	}
	var b strings.Builder
	for _, c := range m {
		if c >= '0' && c <= '9' {
			c = '#'
		}
		s := b.String()
		if c == '#' && strings.HasSuffix(s, "#") {
			continue
		}
		b.WriteRune(c)
	}
	return o.Class + " " + b.String()
}

func isKnown(known []string, key string) bool {
	for _, k := range known {
		if k == key {
			return true
		}
	}
	return false
}

func describe(p *Plan, o *Outcome) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "run %d, mode %s", p.Idx, p.Mode)
	if p.Holders > 0 {
		fmt.Fprintf(&sb, ", %d holders", p.Holders)
	}
	for i := range p.Incs {
		inc := &p.Incs[i]
		fmt.Fprintf(&sb, "; incarnation %d [policy %s gap %d depth %d, %d cpus %s", i, inc.Sched.Policy, inc.Sched.Gap, inc.Sched.Depth, inc.Env.NumCPU, inc.Env.CPU)
		if inc.CrashAt > 0 {
			fmt.Fprintf(&sb, ", killed at step %d", inc.CrashAt)
		}
		sb.WriteString("]:")
		for ti, ops := range inc.Threads {
			fmt.Fprintf(&sb, " client%d{", ti)
			for k := range ops {
				if k > 0 {
					sb.WriteString(" ")
				}
				if k == 6 {
					sb.WriteString("...")
					break
				}
				sb.WriteString(opString(&ops[k]))
			}
			sb.WriteString("}")
		}
	}
	fmt.Fprintf(&sb, " -> %d steps, %.3f ms simulated, %d preemptions", o.Steps, float64(o.SimTime)/1e6, o.Preempt)
	if len(o.Traces) > 0 {
		sb.WriteString(", first switches:")
		for i, s := range o.Traces[0] {
			if i == 8 {
				break
			}
			fmt.Fprintf(&sb, " g%d@%d>g%d", s.G, s.N, s.To)
		}
	}
	if len(o.Fired) > 0 {
		kinds := map[string]int{}
		for _, f := range o.Fired {
			kinds[f.Kind]++
		}
		var ks []string
		for k, n := range kinds {
			ks = append(ks, fmt.Sprintf("%s x%d", k, n))
		}
		sort.Strings(ks)
		sb.WriteString(", faults: " + strings.Join(ks, ", "))
	}
	return sb.String()
}

func opString(o *Op) string {
	s := o.K
	if o.API != "" {
		s += ":" + o.API
	}
	if o.X != "" {
		s += ":" + o.X
	}
	s += fmt.Sprintf("#%d", o.ID)
	switch o.K {
	case "split", "psplit", "oldsplit", "bad":
		s += fmt.Sprintf("(n=%d,k=%d,%dB)", o.N, o.T, o.L)
	case "combine", "refcombine", "eaves", "append", "damage", "gather", "disperse", "lose", "repair":
		s += fmt.Sprintf("(of #%d)", o.Ref)
	case "regen":
		s += fmt.Sprintf("(of #%d,%d)", o.Ref, o.Cnt)
	case "read", "newgen", "rread", "advance":
		s += fmt.Sprintf("(g%d,%dB)", o.Obj, o.L)
	case "uniq", "perm", "rperm":
		s += fmt.Sprintf("(g%d,%d)", o.Obj, o.N)
	case "get", "put":
		s += fmt.Sprintf("(pool%d)", o.Obj)
	case "sleep", "clock":
		s += fmt.Sprintf("(%v)", time.Duration(o.D))
	case "hcrash", "hstart", "wipe":
		s += fmt.Sprintf("(h%d)", o.Obj)
	}
	return s
}
