package simrt

import (
	"fmt"
	"reflect"
	"strings"
)

// window is one thread's pending use of an object that does not allow
// concurrent use.
type window struct {
	g     *G
	site  int
	write bool
}

// Sites maps a yield point to its source position (set by the worker).
var Sites []string

func siteName(i int) string {
	if i < len(Sites) {
		return Sites[i]
	}
	return fmt.Sprint("site ", i)
}

var useKinds = map[reflect.Type]string{}

// kindOf returns a name for types that must not be used by two goroutines at
// once, "" for all others.
func kindOf(t reflect.Type) string {
	if k, ok := useKinds[t]; ok {
		return k
	}
	k := ""
	switch t.Kind() {
	case reflect.Map:
		k = "map"
	case reflect.Pointer:
		e := t.Elem()
		switch n := e.PkgPath() + "." + e.Name(); n {
		case "bufio.Reader", "bufio.Writer", "bufio.ReadWriter", "bufio.Scanner", "bytes.Buffer", "bytes.Reader",
			"strings.Builder", "strings.Reader", "math/rand.Rand", "math/rand/v2.Rand", "math/rand/v2.PCG",
			"math/rand/v2.ChaCha8", "math/rand.rngSource", "container/list.List":
			k = "*" + n
		default:
			pk := e.PkgPath()
			if strings.HasPrefix(pk, "crypto/") || strings.HasPrefix(pk, "hash/") {
				_, xor := t.MethodByName("XORKeyStream")
				_, sum := t.MethodByName("Sum")
				_, crypt := t.MethodByName("CryptBlocks")
				if xor || sum || crypt {
					k = "*" + n
				}
			}
		}
	}
	useKinds[t] = k
	return k
}

// sourceKind reports whether an object of this kind produces randomness.
func sourceKind(k string) bool {
	return strings.Contains(k, "rand") || strings.HasPrefix(k, "*bufio.") || strings.Contains(k, "crypto/")
}

// Use is called before a statement that uses the objects f returns; flags says
// which of them it modifies. The running thread can be preempted between the
// beginning and the end of the use: if another thread then begins to use the
// same object and one of the two modifies it, nothing orders the two uses, and
// real goroutines would race on it.
func Use(site int, flags string, f func() []any) {
	s := sim
	if !active || s == nil || cur == nil || s.Races == 0 || inHarness > 0 {
		return
	}
	var os []any
	func() {
		defer func() { _ = recover() }()
		os = f()
	}()
	if os == nil {
		return
	}
	g := cur
	var keys []uintptr
	for i, o := range os {
		if o == nil {
			continue
		}
		t := reflect.TypeOf(o)
		k := kindOf(t)
		if k == "" || (s.Races == 1 && !sourceKind(k)) {
			continue
		}
		p := reflect.ValueOf(o).Pointer()
		if p == 0 {
			continue
		}
		w := flags[i] == 'w'
		for _, x := range s.open[p] {
			if x.g != g && (x.write || w) {
				s.fail("race", fmt.Sprintf("goroutines %s (%s) and %s (%s) use the same %s at the same time without synchronisation", x.g.Name, siteName(x.site), g.Name, siteName(site), k))
				panic(abortT{})
			}
		}
		if s.open == nil {
			s.open = map[uintptr][]window{}
		}
		s.open[p] = append(s.open[p], window{g, site, w})
		keys = append(keys, p)
		s.Uses++
	}
	if keys == nil {
		return
	}
	Y(site)
	for _, p := range keys {
		l := s.open[p]
		for i := range l {
			if l[i].g == g {
				l[i] = l[len(l)-1]
				l = l[:len(l)-1]
				break
			}
		}
		if len(l) == 0 {
			delete(s.open, p)
		} else {
			s.open[p] = l
		}
	}
}
