// Command vsim is the driver of the deterministic simulator: it instruments
// and builds the code under test, runs seeded simulations in worker processes,
// minimises and confirms what they find, and writes the evidence.
//
//	vsim check <property> <quick|thorough>
//	vsim replay <file>
//	vsim hashes <property> <runs> <shards>
//	vsim setup
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	verifDir = envOr("VERIF_DIR", "/verif")
	repoDir  = envOr("VERIF_REPO", "/repo")
	workDir  string
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	code := 2
	defer func() { os.Exit(code) }()
	var err error
	workDir, err = os.MkdirTemp("", "vsim-")
	if err != nil {
		fmt.Println("vsim:", err)
		return
	}
	defer os.RemoveAll(workDir)
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Println("usage: vsim check <property> <tier> | replay <file> | setup")
		return
	}
	switch args[0] {
	case "setup":
		if _, err := build(""); err != nil {
			fmt.Println(err)
			return
		}
		code = 0
	case "check":
		tier := "quick"
		if len(args) > 2 {
			tier = args[2]
		} else if t := os.Getenv("VERIF_TIER"); t != "" {
			tier = t
		}
		code = check(args[1], tier)
	case "replay":
		code = replay(args[1])
	case "hashes":
		runs, _ := strconv.ParseUint(args[2], 10, 64)
		shards, _ := strconv.ParseUint(args[3], 10, 64)
		code = hashes(args[1], runs, shards)
	case "golden":
		code = golden(args[1])
	default:
		fmt.Println("unknown command", args[0])
	}
}

// ---------------------------------------------------------------------- build

type built struct {
	bin   string
	tags  string
	sites []siteInfo
	warn  []string
	pkgs  []string
}

func build(tags string) (*built, error) {
	dir := filepath.Join(workDir, "build-"+tags)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	in, err := instrument(repoDir, dir, tags)
	if err != nil {
		return nil, fmt.Errorf("instrumenting: %v", err)
	}
	j, _ := json.Marshal(map[string]any{"Replace": in.Overlay})
	ov := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ov, j, 0o644); err != nil {
		return nil, err
	}
	sim := filepath.Join(verifDir, "sim")
	mod, err := os.ReadFile(filepath.Join(sim, "go.mod"))
	if err != nil {
		return nil, err
	}
	mf := filepath.Join(dir, "go.mod")
	mod = bytes.Replace(mod, []byte("=> /repo"), []byte("=> "+repoDir), 1)
	sum, err := os.ReadFile(filepath.Join(sim, "go.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(mf, mod, 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "worker.test")
	args := []string{"test", "-c", "-overlay", ov, "-modfile", mf, "-o", bin, "-vet=off"}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	args = append(args, "./worker")
	cmd := exec.Command("go", args...)
	cmd.Dir = sim
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("building the instrumented code: %v\n%s", err, out)
	}
	return &built{bin, tags, in.Sites, in.Warn, in.Pkgs}, nil
}

// --------------------------------------------------------------------- workers

type job struct {
	Mode   string   `json:"mode"`
	Prop   string   `json:"prop"`
	Seed   uint64   `json:"seed"`
	Tier   string   `json:"tier"`
	Shard  uint64   `json:"shard"`
	Shards uint64   `json:"shards"`
	From   uint64   `json:"from"`
	Runs   uint64   `json:"runs"`
	Skip   []uint64 `json:"Skip"`
	MaxS   float64  `json:"max_s"`
	Stop   string   `json:"stop"`
	Status string   `json:"status"`
	Out    string   `json:"out"`
	Idx    uint64   `json:"idx"`
	Plan   string   `json:"plan"`
	Known  []string
	Hashes bool
	Sites  int
	Names  []string
}

type found struct {
	Idx   uint64
	Class string
	Msg   string
	Hash  uint64
	Key   string
}

type runOut struct {
	Runs, Steps, SimTime, Preempts, Switches, Threads, Faulty int64
	Stats, Modes, Policies, Suppressed, KnownHits             map[string]int64
	Cases, Schedules                                          []uint64
	Fail                                                      *found
	Samples, Trouble                                          []string
	Repeated, Unrepeat                                        int64
	LastIdx, MaxIdx                                           uint64
	MaxSteps                                                  int64
	TimedOut                                                  bool
	Wall                                                      float64
	Sites                                                     []uint64
	All                                                       map[uint64]string
}

type crash struct {
	idx    uint64
	hung   bool // gave no sign of life
	slow   bool // was still at work when its time was up
	stderr string
}

var jobSeq int
var jobMu sync.Mutex

// runJob runs one worker process; hang is the longest time without progress.
func runJob(b *built, j job, res any, hang, total time.Duration) *crash {
	jobMu.Lock()
	jobSeq++
	n := jobSeq
	jobMu.Unlock()
	base := filepath.Join(workDir, fmt.Sprintf("job%d", n))
	j.Out, j.Status = base+".out", base+".status"
	j.Sites = len(b.sites)
	for _, x := range b.sites {
		j.Names = append(j.Names, x.Pos)
	}
	js, _ := json.Marshal(j)
	os.WriteFile(base+".json", js, 0o644)
	cmd := exec.Command(b.bin, "-test.run", "^TestWorker$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VSIM_JOB="+base+".json", "GOMAXPROCS=1", "GODEBUG=", "GOGC=150", "GOTRACEBACK=all")
	cmd.Dir = workDir
	ef, _ := os.Create(base + ".err")
	defer ef.Close()
	cmd.Stderr = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return &crash{stderr: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, lastAt, start := "", time.Now(), time.Now()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	status := func() string { s, _ := os.ReadFile(j.Status); return strings.TrimSpace(string(s)) }
	idx := func() uint64 { v, _ := strconv.ParseUint(strings.Fields(status() + " 0")[0], 10, 64); return v }
	for {
		select {
		case <-done:
			o, err := os.ReadFile(j.Out)
			if err == nil {
				dec := json.NewDecoder(bytes.NewReader(o))
				dec.UseNumber()
				if dec.Decode(res) == nil {
					return nil
				}
			}
			eb, _ := os.ReadFile(base + ".err")
			if len(eb) > 20000 {
				eb = append(eb[:10000], eb[len(eb)-10000:]...)
			}
			return &crash{idx: idx(), stderr: string(eb)}
		case <-tick.C:
			if s := status(); s != last {
				last, lastAt = s, time.Now()
			}
			if h := time.Since(lastAt) > hang; h || time.Since(start) > total {
				cmd.Process.Kill()
				<-done
				return &crash{idx: idx(), hung: h, slow: !h}
			}
		}
	}
}

func seed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func mapAdd(dst, src map[string]int64) {
	for k, v := range src {
		dst[k] += v
	}
}

// --------------------------------------------------------------- known findings

type finding struct{ key, what string }

// knownFindings reads /verif/known-findings.txt. "fixed:" lines are a record
// only; "finding:" lines carry the key of a violation that is reported as
// KNOWN-FINDING instead of failing the check.
func knownFindings(prop string) []finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+prop+" key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " what=")
		if k, err := strconv.Unquote(key); err == nil {
			key = k
		}
		out = append(out, finding{key, what})
	}
	return out
}

// ----------------------------------------------------------------------- check

func check(prop, tier string) int {
	start := time.Now()
	cfg, ok := configs[prop]
	if !ok {
		fmt.Printf("vsim: no check for property %s\n", prop)
		return 2
	}
	b, err := build(cfg.tags)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	bins := []*built{b}
	builds := []string{"amd64 with assembly"}
	if cfg.noasm {
		nb, err := build(strings.TrimPrefix(cfg.tags+",noasm", ","))
		if err != nil {
			fmt.Println(err)
			return 2
		}
		bins = append(bins, nb)
		builds = append(builds, "noasm")
		// the arm64 code is not what runs on this machine: if it cannot be
		// simulated, the rest still is
		ab, err := build(strings.TrimPrefix(cfg.tags+","+armTag, ","))
		if err != nil {
			fmt.Println("note: the arm64 variant is not simulated:", head(err.Error(), 3))
		} else {
			bins = append(bins, ab)
			builds = append(builds, "arm64 Go files, assembly interpreted")
		}
	}
	buildS := time.Since(start).Seconds()
	runs, maxS := cfg.quick, 150.0
	if tier == "thorough" {
		runs, maxS = cfg.thorough, 660.0
	}
	if v, err := strconv.ParseUint(os.Getenv("VERIF_RUNS"), 10, 64); err == nil {
		runs = v
	}
	sd := seed()
	shards := uint64(min(8, max(1, runtime.NumCPU())))
	shards = 8 // the partition is part of the schedule of the check, not of the machine
	known := knownFindings(prop)
	var keys []string
	for _, k := range known {
		keys = append(keys, k.key)
	}
	stop := filepath.Join(workDir, "stop")
	var mu sync.Mutex
	outs := make([][]*runOut, shards)
	own := make([]bool, shards) // ran the build whose yield points are reported

	var fails []shardFail
	var crashes []string
	noteFail := func(f shardFail) {
		mu.Lock()
		defer mu.Unlock()
		fails = append(fails, f)
		best := f.idx
		for _, x := range fails {
			best = min(best, x.idx)
		}
		os.WriteFile(stop+".tmp", []byte(fmt.Sprint(best)), 0o644)
		os.Rename(stop+".tmp", stop)
	}
	var wg sync.WaitGroup
	deadline := time.Now().Add(time.Duration(maxS * float64(time.Second)))
	for s := uint64(0); s < shards; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			bb := b
			if len(bins) > 1 && (s == shards-1 || prop == "C18" && s%4 == 1) {
				bb = bins[1]
			}
			if len(bins) > 2 && (s == shards-2 || prop == "C18" && s%4 == 3) {
				bb = bins[2]
			}
			own[s] = bb == b
			from := uint64(0)
			var skip []uint64
			for attempt := 0; attempt < 6; attempt++ {
				left := time.Until(deadline).Seconds()
				if left < 1 && attempt > 0 {
					return
				}
				var o runOut
				c := runJob(bb, job{Mode: "run", Prop: prop, Seed: sd, Tier: tier, Shard: s, Shards: shards, From: from, Runs: runs, Skip: skip, MaxS: left, Stop: stop, Known: keys}, &o, 60*time.Second, time.Duration((left+90)*float64(time.Second)))
				if c == nil {
					mu.Lock()
					outs[s] = append(outs[s], &o)
					mu.Unlock()
					if o.Fail != nil {
						noteFail(shardFail{o.Fail.Idx, bb, o.Fail, nil})
					}
					return
				}
				if c.slow { // its time is over
					mu.Lock()
					crashes = append(crashes, fmt.Sprintf("run %d: still at work at the end of the time", c.idx))
					mu.Unlock()
					return
				}
				// the process died: does that run alone do it again?
				var one runOut
				c2 := runJob(bb, job{Mode: "run", Prop: prop, Seed: sd, Tier: tier, Shard: c.idx, Shards: 1, From: c.idx, Runs: c.idx + 1, MaxS: 60, Stop: stop + "-none", Known: keys}, &one, 60*time.Second, 240*time.Second)
				mu.Lock()
				crashes = append(crashes, fmt.Sprintf("run %d: worker died (hung=%v), alone: %v\n%s", c.idx, c.hung, c2 != nil, head(c.stderr, 30)))
				mu.Unlock()
				if c2 != nil && cfg.fatal && (c2.hung || blames(c2.stderr)) {
					noteFail(shardFail{c.idx, bb, nil, c2})
					return
				}
				if c2 == nil && one.Fail != nil {
					noteFail(shardFail{one.Fail.Idx, bb, one.Fail, nil})
					return
				}
				skip = append(skip, c.idx)
				from = c.idx
			}
		}()
	}
	wg.Wait()
	runS := time.Since(start).Seconds() - buildS
	agg := aggregate(outs, own)
	code := 0
	viol := 0
	if len(agg.Trouble) > 0 && len(fails) == 0 {
		fmt.Println("vsim: harness trouble:", strings.Join(agg.Trouble, "\n  "))
		code = 2
	}
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return fails[i].idx < fails[j].idx })
		code = 2
		for i, f := range fails {
			if i == 3 {
				break
			}
			if path, ok := settle(prop, tier, sd, f); ok {
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
				code, viol = 1, 1
				break
			}
		}
	} else if len(crashes) > 0 && code == 0 && agg.Runs == 0 {
		fmt.Println("vsim: workers died:\n" + strings.Join(crashes, "\n"))
		code = 2
	}
	for _, k := range known {
		if agg.KnownHits[k.key] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
		}
	}
	if err := evidence(prop, tier, sd, cfg, b, agg, time.Since(start).Seconds(), buildS, runS, runs, viol, crashes, builds); err != nil {
		fmt.Println("vsim: evidence:", err)
		return 2
	}
	fmt.Printf("%s %s seed %d: %d runs (%d distinct with a fault or preemption), %d steps (at most %d, in run %d), %.1f s simulated, build %.1f s, runs %.1f s, violations %d\n",
		prop, tier, sd, agg.Runs, agg.distinct, agg.Steps, agg.MaxSteps, agg.MaxIdx, float64(agg.SimTime)/1e9, buildS, runS, viol)
	return code
}

func head(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// blames: a Go crash with a frame of the code under test.
func blames(stderr string) bool {
	return (strings.Contains(stderr, "fatal error:") || strings.Contains(stderr, "panic:") || strings.Contains(stderr, "out of memory")) && strings.Contains(stderr, repoDir+"/")
}

type shardFail struct {
	idx uint64
	b   *built
	f   *found
	c   *crash
}

// settle minimises a failure and confirms it in a fresh process.
func settle(prop, tier string, sd uint64, f shardFail) (string, bool) {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", prop, sd, f.idx))
	write := func(v any) {
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if f.c != nil {
		what := "the process died"
		if f.c.hung {
			what = "the run did not end"
		}
		rf := map[string]any{}
		var min map[string]any
		if c := runJob(f.b, job{Mode: "plan", Prop: prop, Seed: sd, Tier: tier, Idx: f.idx}, &min, 60*time.Second, 60*time.Second); c == nil {
			rf = min
		}
		rf["violation"], rf["message"], rf["build_tags"] = "fatal", what+"\n"+head(f.c.stderr, 40), f.b.tags
		write(rf)
		fmt.Printf("run %d: %s\n%s\n", f.idx, what, head(f.c.stderr, 12))
		return path, true
	}
	var rf map[string]any
	c := runJob(f.b, job{Mode: "min", Prop: prop, Seed: sd, Tier: tier, Idx: f.idx, MaxS: 45}, &rf, 170*time.Second, 300*time.Second)
	confirm := func() bool {
		var got found
		if c := runJob(f.b, job{Mode: "replay", Prop: prop, Plan: path}, &got, 120*time.Second, 240*time.Second); c != nil {
			return false
		}
		return got.Class == rf["violation"] && got.Msg == rf["message"] && fmt.Sprintf("%016x", got.Hash) == rf["event_hash"]
	}
	if c == nil && rf["violation"] != "" {
		rf["build_tags"] = f.b.tags
		write(rf)
		if confirm() {
			fmt.Printf("run %d: %s: %s\n", f.idx, rf["violation"], rf["message"])
			fmt.Printf("minimised %v\n", rf["minimised"])
			return path, true
		}
	}
	// fall back to the run as generated
	rf = nil
	if c := runJob(f.b, job{Mode: "plan", Prop: prop, Seed: sd, Tier: tier, Idx: f.idx}, &rf, 120*time.Second, 120*time.Second); c == nil {
		rf["violation"], rf["message"], rf["event_hash"], rf["build_tags"] = f.f.Class, f.f.Msg, fmt.Sprintf("%016x", f.f.Hash), f.b.tags
		write(rf)
		if confirm() {
			fmt.Printf("run %d: %s: %s\n(not minimised)\n", f.idx, f.f.Class, f.f.Msg)
			return path, true
		}
	}
	os.Remove(path)
	fmt.Printf("vsim: run %d reported %s: %s\nbut it did not recur in a fresh process\n", f.idx, f.f.Class, f.f.Msg)
	return "", false
}

func replay(file string) int {
	abs, err := filepath.Abs(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	raw, err := os.ReadFile(abs)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf struct {
		Property, Violation, Message string
		Hash                         string `json:"event_hash"`
		Tags                         string `json:"build_tags"`
	}
	if err := json.Unmarshal(raw, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	b, err := build(rf.Tags)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var got found
	if c := runJob(b, job{Mode: "replay", Prop: rf.Property, Plan: abs}, &got, 60*time.Second, 240*time.Second); c != nil {
		if rf.Violation == "fatal" && (c.hung || blames(c.stderr)) {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
			return 1
		}
		fmt.Println("the worker died:", c.hung, head(c.stderr, 20))
		return 2
	}
	if got.Key != "" {
		fmt.Println("harness trouble:", got.Key)
		return 2
	}
	if got.Class == "" {
		fmt.Println("the replayed run shows no violation")
		return 0
	}
	fmt.Printf("%s: %s\n", got.Class, got.Msg)
	if got.Class == rf.Violation && got.Msg == rf.Message && fmt.Sprintf("%016x", got.Hash) == rf.Hash {
		fmt.Println("reproduced exactly (same violation, message and event hash)")
	} else {
		fmt.Println("a violation, but not the recorded one")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	return 1
}

// hashes prints one line per run: used to compare executions.
func hashes(prop string, runs, shards uint64) int {
	b, err := build(configs[prop].tags)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	all := map[uint64]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for s := uint64(0); s < shards; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var o runOut
			if c := runJob(b, job{Mode: "run", Prop: prop, Seed: seed(), Tier: "quick", Shard: s, Shards: shards, Runs: runs, MaxS: 600, Stop: "/nonexistent", Hashes: true}, &o, time.Minute, time.Hour); c != nil {
				fmt.Println("died", c.idx, c.stderr)
			}
			mu.Lock()
			for k, v := range o.All {
				all[k] = v
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	for i := uint64(0); i < runs; i++ {
		fmt.Println(i, all[i])
	}
	return 0
}

func golden(out string) int {
	b, err := build("")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v any
	if c := runJob(b, job{Mode: "golden", Seed: 20240517}, &v, time.Minute, time.Minute); c != nil {
		fmt.Println(c.stderr)
		return 2
	}
	j, _ := json.Marshal(v)
	if err := os.WriteFile(out, append(j, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	return 0
}
