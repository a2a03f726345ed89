package worker

import (
	"bytes"
	"runtime"
	"testing"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// makeGolden runs the split operations of the code it is built against. The
// committed archive was made once, from the original release.
func makeGolden(t *testing.T) []Golden {
	var out []Golden
	w := &World{plan: &Plan{Prop: "golden", Incs: []Inc{{Env: simrt.Env{Start: 1700000000123456789, NumCPU: 2, Tape: 7, Inc: 9, AESReal: true}, Gens: []Gen{{}}, Workers: 1}}}, st: Stats{}, sh: map[int]*Sharing{}}
	w.boot(0)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	id := 0
	for _, api := range []string{"split", "gen", "par", "rnd", "old", "wsh", "ssms", "ssmsr", "wss"} {
		for _, c := range [][3]int{{3, 2, 1}, {5, 3, 16}, {5, 3, 17}, {7, 4, 100}, {2, 2, 33}, {20, 3, 48}, {12, 12, 31}, {40, 5, 64}, {255, 2, 9}, {9, 8, 1025}} {
			for try := 0; ; try++ {
				if try == 200 {
					t.Fatalf("no golden set for %s %v", api, c)
				}
				id++
				op := &Op{ID: id, K: "split", API: api, N: c[0], T: c[1], L: c[2], Seed: uint64(id) * 77}
				s := w.doSplit(op)
				if s == nil {
					if isSSMS(api) && c[0] == c[1] { // the original release cannot split these
						break
					}
					continue
				}
				bad := false
				seen := map[byte]bool{0: true}
				for _, sh := range s.snap {
					x := sh[len(sh)-1]
					if s.ssms {
						x = sh[ref.MetaLen]
					}
					bad = bad || seen[x]
					seen[x] = true
				}
				if !s.ssms && ref.CheckDegree(s.snap, s.secret, s.k, w.positions(len(s.secret), 1, 1)) != "" {
					continue
				}
				if bad {
					continue
				}
				out = append(out, Golden{API: api, N: s.n, K: s.k, Secret: bytes.Clone(s.secret), Shares: s.snap})
				break
			}
		}
	}
	return out
}
