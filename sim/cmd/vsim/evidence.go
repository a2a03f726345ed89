package main

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type config struct {
	quick, thorough uint64
	noasm           bool   // also run a build without assembly
	tags            string // of the builds
	fatal           bool   // a worker process killed by the code under test breaks the property
	rule            string
}

type totals struct {
	runOut
	distinct, schedules int
	sites               map[int]uint64
}

func aggregate(outs [][]*runOut, own []bool) *totals {
	t := &totals{sites: map[int]uint64{}}
	t.Stats, t.Modes, t.Policies, t.Suppressed, t.KnownHits = map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]int64{}
	cases, scheds := map[uint64]bool{}, map[uint64]bool{}
	for si, os := range outs {
		for _, o := range os {
			t.Runs += o.Runs
			t.Steps += o.Steps
			if o.MaxSteps > t.MaxSteps {
				t.MaxSteps, t.MaxIdx = o.MaxSteps, o.MaxIdx
			}
			t.SimTime += o.SimTime
			t.Preempts += o.Preempts
			t.Switches += o.Switches
			t.Threads += o.Threads
			t.Faulty += o.Faulty
			t.Repeated += o.Repeated
			t.Unrepeat += o.Unrepeat
			t.TimedOut = t.TimedOut || o.TimedOut
			mapAdd(t.Stats, o.Stats)
			mapAdd(t.Modes, o.Modes)
			mapAdd(t.Policies, o.Policies)
			mapAdd(t.Suppressed, o.Suppressed)
			mapAdd(t.KnownHits, o.KnownHits)
			for _, h := range o.Cases {
				cases[h] = true
			}
			for _, h := range o.Schedules {
				scheds[h] = true
			}
			t.Samples = append(t.Samples, o.Samples...)
			t.Trouble = append(t.Trouble, o.Trouble...)
			for i, n := range o.Sites {
				if own[si] {
					t.sites[i] += n
				}
			}
		}
	}
	t.distinct, t.schedules = len(cases), len(scheds)
	return t
}

func split(m map[string]int64, prefix string) map[string]int64 {
	out := map[string]int64{}
	for k, v := range m {
		if r, ok := strings.CutPrefix(k, prefix); ok {
			out[r] = v
		}
	}
	return out
}

func other(m map[string]int64) map[string]int64 {
	out := map[string]int64{}
	for k, v := range m {
		if !strings.Contains(k, ":") {
			out[k] = v
		}
	}
	return out
}

func evidence(prop, tier string, sd uint64, cfg config, b *built, t *totals, wall, buildS, runS float64, planned uint64, viol int, crashes []string, builds []string) error {
	perPkg := map[string][2]int{}
	for _, s := range b.sites {
		file := strings.TrimPrefix(s.Pos[:strings.LastIndex(s.Pos, ":")], repoDir+"/")
		k := filepath.Dir(file)
		v := perPkg[k]
		v[1]++
		if t.sites[s.ID] > 0 {
			v[0]++
		}
		perPkg[k] = v
	}
	cover := map[string]string{}
	real := []string{}
	for k, v := range perPkg {
		cover[k] = fmt.Sprintf("%d of %d yield points", v[0], v[1])
		if v[0] > 0 {
			real = append(real, k)
		}
	}
	sort.Strings(real)
	samples := []any{}
	for _, s := range t.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, fmt.Sprintf("runs 0..%d of seed %d", t.Runs-1, sd))
	}
	hours := runS / 3600
	cov := map[string]any{
		"evaluations":           t.Runs,
		"distinct_nontrivial":   t.distinct,
		"rule":                  cfg.rule + " One evaluation is one simulated run, derived from (seed, run number). A run is non-trivial when at least one fault was injected or one thread was preempted; two runs are the same case when operations, parameters, scheduling decisions and injected faults are the same.",
		"samples":               samples,
		"distinct_schedules":    t.schedules,
		"planned_runs":          planned,
		"cut_short_by_time":     t.TimedOut,
		"runs_per_hour":         int64(float64(t.Runs) / hours),
		"seeds_per_hour":        int64(float64(t.Runs) / hours),
		"simulated_seconds":     float64(t.SimTime) / 1e9,
		"steps":                 t.Steps,
		"most_steps_in_one_run": t.MaxSteps,
		"scheduling_decisions": map[string]int64{
			"switches": t.Switches, "preemptions": t.Preempts, "threads": t.Threads},
		"runs_with_faults":      t.Faulty,
		"faults_injected":       split(t.Stats, "fault:"),
		"operations":            split(t.Stats, "op:"),
		"probes_hit":            split(t.Stats, "probe:"),
		"oracle_work":           other(t.Stats),
		"schedule_policies":     t.Policies,
		"modes":                 t.Modes,
		"repeatability":         map[string]int64{"runs executed twice": t.Repeated, "differences": t.Unrepeat},
		"suppressed":            t.Suppressed,
		"yield_points_reached":  cover,
		"ran_real_code":         real,
		"ran_real_dependencies": []string{"github.com/klauspost/reedsolomon", "github.com/klauspost/cpuid/v2", "crypto/aes", "crypto/cipher", "github.com/starius/aesctrat (unless a run biases the keystream)"},
		"ran_stub":              []string{"sync (parking primitives under the simulated scheduler)", "crypto/rand (seeded entropy tape with injected failures and edge bytes)", "math/rand top-level functions (per-incarnation generator)", "time.Now/Sleep, runtime.NumCPU, os.Exit, log.Fatal", "network, share holders and their disks (harness model)", "process restart (package initialisers run again)"},
		"instrumented_packages": b.pkgs,
		"builds":                builds,
		"build_s":               buildS,
		"worker_deaths":         len(crashes),
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": sd, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"preemption happens at statement granularity (with read-modify-write of fields and package variables split in two); the Go memory model's weaker reorderings are not simulated",
			"repository code reaches threads, time, randomness and CPU detection only through the seams listed under ran_stub",
		},
		"wall_s": wall, "violations": viol,
	}
	dir := filepath.Join(verifDir, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	j, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	_ = bits.Len
	return os.WriteFile(filepath.Join(dir, prop+".json"), append(j, '\n'), 0o644)
}

var configs = map[string]config{
	"C01": {quick: 12000, thorough: 240000, noasm: true, fatal: true, rule: "Clients split and recombine with the Shamir operations (all variants), alone or through a simulated network of share holders with faults, crashes and changing CPU features; every share set and every recombined secret is judged."},
	"C02": {quick: 8000, thorough: 160000, fatal: true, rule: "As C01 for the SSMS scheme, with nil slots."},
	"C03": {quick: 30000, thorough: 600000, fatal: true, rule: "2 to 6 threads split, combine and regenerate under a seeded scheduler; every result is judged as if it ran alone."},
	"C04": {quick: 35000, thorough: 700000, rule: "Every secret, share and returned slice is compared with a private copy at every scheduling decision while clients keep working and append to or rewrite the shares they own."},
	"C05": {quick: 20000, thorough: 400000, fatal: true, rule: "Parallel splits under adversarial schedules of their goroutines; shares are judged, and goroutines counted, at the return step."},
	"C06": {quick: 60000, thorough: 1200000, rule: "Splits with randomness sources biased towards edge bytes and repeats."},
	"C07": {quick: 20000, thorough: 400000, rule: "Coefficients, keys and metadata recovered from shares over histories of splits: degree, uniformity, independence of the secret, an adversary with k-1 shares, entropy failures."},
	"C08": {quick: 100000, thorough: 2000000, rule: "All randomness of one process recovered from the shares and compared pairwise."},
	"C09": {quick: 90000, thorough: 1800000, rule: "Two or three incarnations whose clock shows the same instant; their randomness is compared."},
	"C10": {quick: 200000, thorough: 4000000, rule: "Concurrent reads of one generator checked for linearizability against the AES-CTR keystream."},
	"C11": {quick: 120000, thorough: 2400000, fatal: true, rule: "Unique-byte draws and permutations with sources biased towards edge bytes and repeats."},
	"C12": {quick: 20000, thorough: 400000, fatal: true, rule: "Lose-and-regenerate generations, alone and in a simulated deployment with repair."},
	"C13": {quick: 40000, thorough: 800000, fatal: true, rule: "Recombination and regeneration of torn, flipped, duplicated, foreign and missing shares."},
	"C14": {quick: 40000, thorough: 800000, fatal: true, rule: "Invalid requests interleaved with valid work."},
	"C15": {quick: 400000, thorough: 8000000, fatal: true, rule: "Concurrent histories of Get and Put checked for linearizability against an atomic bounded bag."},
	"C16": {quick: 20000, thorough: 400000, fatal: true, rule: "Clients share workers and copies of workers, and mix them with direct calls."},
	"C17": {quick: 20000, thorough: 400000, rule: "Archives of the original release are read, extended and mixed by the current code across restarts, and its shares are read by a model of the original release."},
	"C18": {quick: 60000, thorough: 1200000, noasm: true, tags: "vec", fatal: true, rule: "Clients on machines with different CPU features compute vector and scalar operations at the same time, some on a shared operand; every element of every result is judged, then watched, with guard zones around the operands."},
}
