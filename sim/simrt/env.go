package simrt

import (
	"encoding/binary"
	"errors"
	"fmt"
	mrand "math/rand"
	"math/rand/v2"
	"reflect"
	"sort"
	"time"
)

// Env is the simulated machine of one incarnation: wall clock, OS entropy,
// processor count, CPU features.
type Env struct {
	Start   int64         // wall clock (ns since epoch) at simulated time zero
	Coarse  time.Duration // clock granularity, 0 = exact
	Frozen  bool
	NumCPU  int
	Tape    uint64  // entropy seed of the run
	Inc     uint64  // incarnation number: OS entropy differs per incarnation
	Biased  float64 // probability that an entropy/keystream byte is an edge value
	CPU     string  // "", "noavx2", "nossse3", "nosse2"
	AESReal bool
	EntFail float64 // probability that an OS entropy request fails
	Flip    uint64  // position (from 1) of an entropy byte that comes out differently
}

var env Env
var skew time.Duration
var entropy *rand.ChaCha8
var entropyPos uint64
var global *mrand.Rand
var EntropyBytes uint64 // bytes of entropy handed out in this incarnation
var BiasHits uint64

// SetEnv boots a machine: entropy stream and global math/rand state restart.
func SetEnv(e Env) {
	env = e
	skew = 0
	var k [32]byte
	binary.LittleEndian.PutUint64(k[0:], e.Tape)
	binary.LittleEndian.PutUint64(k[8:], e.Inc)
	copy(k[16:], "os-entropy-tape!")
	entropy = rand.NewChaCha8(k)
	entropyPos = 0
	mapIters = 0
	EntropyBytes = 0
	EntFails, entCalls = 0, 0
	global = nil
	applyCPU(e.CPU)
}

func CurEnv() Env { return env }

// StepClock is the clock-jump fault.
func StepClock(d time.Duration) { skew += d }

func wall() int64 {
	if env.Frozen {
		return env.Start + int64(skew)
	}
	n := env.Start + int64(Now()) + int64(skew)
	if env.Coarse > 0 {
		n -= n % int64(env.Coarse)
	}
	return n
}

// ---- replacements for package time
func TimeNow() time.Time {
	if !booted {
		return time.Now()
	}
	return time.Unix(0, wall())
}
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }
func TimeSleep(d time.Duration) {
	if !active || cur == nil {
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	Wait(d, func() bool { return false })
}
func TimeAfterFunc(d time.Duration, f func()) *time.Timer {
	t := time.NewTimer(time.Hour * 100000)
	Go(func() {
		TimeSleep(d)
		if t.Stop() { // it has not been stopped
			f()
		}
	})
	return t
}

// ---- replacements for package runtime / os / log
func NumCPU() int {
	if !booted || env.NumCPU <= 0 {
		return 1
	}
	return env.NumCPU
}
func GOMAXPROCS(n int) int { return NumCPU() }
func Gosched()             { Yield() }
func NumGoroutine() int    { return 4 }

// The first process of a container looks the same after every start.
func Getpid() int               { return 1 }
func Getppid() int              { return 0 }
func Hostname() (string, error) { return "holder", nil }
func Exit(code int)             { exit(fmt.Sprintf("exit status %d", code)) }
func Fatalf(format string, a ...any) {
	exit("log.Fatal: " + fmt.Sprintf(format, a...))
}
func FatalArgs(a ...any)   { exit("log.Fatal: " + fmt.Sprint(a...)) }
func FatallnArgs(a ...any) { exit("log.Fatal: " + fmt.Sprintln(a...)) }

// exit ends the simulated process: nothing of it runs any more, not even
// deferred calls of other threads.
func exit(msg string) {
	if s := sim; s != nil && active && cur != nil && cur.Lib {
		s.fail("process-exit", fmt.Sprintf("thread %s ended the process: %s", cur.Name, msg))
		panic(abortT{})
	}
	panic(ExitT{msg})
}

// ---- entropy

var edge = []byte{255, 0, 254, 1, 253, 127, 128}

// Bias rewrites a byte of a random stream towards edge values and repeats.
// Any byte string is a possible outcome of an ideal source; this makes the
// rare ones frequent.
func Bias(h uint64, prev byte, b byte) byte {
	if env.Biased <= 0 {
		return b
	}
	if float64(h>>40)/float64(1<<24) >= env.Biased {
		return b
	}
	BiasHits++
	switch h & 3 {
	case 0:
		return prev
	case 1:
		return 255
	default:
		return edge[(h>>2)%uint64(len(edge))]
	}
}

func fill(p []byte) {
	var prev byte
	i := 0
	for i < len(p) {
		w := entropy.Uint64()
		for j := 0; j < 8 && i < len(p); j++ {
			b := byte(w >> (8 * uint(j)))
			if env.Biased > 0 {
				b = Bias(Hash(env.Tape, env.Inc, entropyPos), prev, b)
			}
			prev = b
			p[i] = b
			i++
			entropyPos++
			if entropyPos == env.Flip {
				p[i-1] ^= 0x5a
			}
		}
	}
	EntropyBytes += uint64(len(p))
}

// Hash mixes its arguments (splitmix finaliser).
func Hash(xs ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, x := range xs {
		h ^= x
		h ^= h >> 30
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 27
		h *= 0x94D049BB133111EB
		h ^= h >> 31
	}
	return h
}

// OSRead is the simulated operating-system entropy source.
func OSRead(p []byte) (int, error) {
	if !booted {
		for i := range p {
			p[i] = byte(i)
		}
		return len(p), nil
	}
	entCalls++
	if env.EntFail > 0 && cur != nil && float64(Hash(env.Tape, env.Inc, entCalls, 0xfa11)>>11)/(1<<53) < env.EntFail {
		EntFails++
		n := 0
		if len(p) > 0 {
			n = int(Hash(env.Tape, env.Inc, entCalls, 0xfa12) % uint64(len(p)))
		}
		if CurG := cur; CurG != nil {
			CurG.EntFails++
		}
		fill(p[:n])
		return n, errors.New("simulated entropy failure")
	}
	fill(p)
	return len(p), nil
}

// OSFill is an entropy source inside the process that cannot fail.
func OSFill(p []byte) {
	if !booted {
		OSRead(p)
		return
	}
	fill(p)
}

// EntropyPos is the number of entropy bytes drawn in this incarnation.
func EntropyPos() uint64 { return entropyPos }

// EntFails counts the entropy failures injected since SetEnv.
var EntFails, entCalls uint64

// Global is the process-wide math/rand generator: seeded by whatever the code
// passes to Seed; if never seeded it has the fixed seed 1 of a go 1.17 module.
func Global() *mrand.Rand {
	if global == nil {
		global = mrand.New(mrand.NewSource(1))
	}
	return global
}

func SeedGlobal(seed int64) { global = mrand.New(mrand.NewSource(seed)) }

// GlobalRead is math/rand.Read, with edge bytes when the run is biased.
func GlobalRead(p []byte) (int, error) {
	n, err := Global().Read(p)
	if env.Biased > 0 && booted {
		var prev byte
		for i := range p {
			entropyPos++
			p[i] = Bias(Hash(env.Tape, env.Inc, entropyPos), prev, p[i])
			prev = p[i]
		}
	}
	return n, err
}

// ---- re-initialisation of the code under test ("process restart")

type initEntry struct {
	pkg   int
	order int
	f     func()
}

var inits []initEntry
var initPkgs = map[string]int{}
var registering = true
var booted bool

// RegisterInit records a package-variable initialiser or init function of the
// code under test; packages register in real initialisation order.
func RegisterInit(pkg string, order int, f func()) {
	if !registering {
		return
	}
	k, ok := initPkgs[pkg]
	if !ok {
		k = len(initPkgs)
		initPkgs[pkg] = k
	}
	inits = append(inits, initEntry{k, order, f})
}

// Boot re-runs every package initialiser of the code under test under the
// current Env: the in-process equivalent of starting the program again.
func Boot() {
	if registering {
		registering = false
		sort.SliceStable(inits, func(i, j int) bool {
			if inits[i].pkg != inits[j].pkg {
				return inits[i].pkg < inits[j].pkg
			}
			return inits[i].order < inits[j].order
		})
	}
	booted = true
	wasActive := active
	active = false
	for _, e := range inits {
		e.f()
	}
	active = wasActive
}

func NumInits() int { return len(inits) }

// ---- go statements

// Wrap turns the function of a go statement into one that runs as a simulated
// thread.
func Wrap[F any](id int, f F) F {
	if id < 0 {
		return f
	}
	v := reflect.ValueOf(f)
	w := reflect.MakeFunc(v.Type(), func(args []reflect.Value) []reflect.Value {
		if s, g := enter(id); g != nil {
			defer s.exit(g)
		}
		aborting()
		if v.Type().IsVariadic() {
			return v.CallSlice(args)
		}
		return v.Call(args)
	})
	return w.Interface().(F)
}
