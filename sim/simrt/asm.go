package simrt

import "verif.local/sim/neon"

var asmProgs []*neon.Prog

// LoadAsm registers an assembly file of the arm64 variant.
func LoadAsm(file, src string) {
	p, err := neon.Assemble(file, src)
	if err != nil {
		panic(err)
	}
	asmProgs = append(asmProgs, p)
}

// Asm executes a function written in assembly.
func Asm(fn string, args ...[]byte) {
	for _, p := range asmProgs {
		if p.Has(fn) {
			p.Call(fn, args...)
			return
		}
	}
	panic("no assembly for " + fn)
}
