// Package neon executes the arm64 vector routines of the code under test: it
// interprets the Plan 9 assembly of the working tree, with the instructions
// such routines consist of.
package neon

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

type instr struct {
	op   string
	args []string
	line int
	o    []operand
}

// operand kinds
const (
	kNum = iota // constant
	kReg
	kFrame // argument in the frame: reg is the offset
	kVec
	kLane // lane n of a vector register
	kList
	kMem // register and post-increment
	kLabel
)

type operand struct {
	kind, reg int
	n         int64
	list      []int
	b16       bool
}

// Prog is an assembled file.
type Prog struct {
	file  string
	code  []instr
	label map[string]int // "func.label" -> index
	entry map[string]int
}

type macro struct {
	params []string
	body   string
}

var defRe = regexp.MustCompile(`^#define\s+(\w+)(?:\(([^)]*)\))?\s*(.*)$`)
var textRe = regexp.MustCompile(`^TEXT\s+·(\w+)(?:<>)?\(SB\)`)

// Assemble parses src and checks that every instruction is known.
func Assemble(file, src string) (*Prog, error) {
	p := &Prog{file: file, label: map[string]int{}, entry: map[string]int{}}
	macros := map[string]macro{}
	lines := strings.Split(src, "\n")
	fn := ""
	var owner []string
	var emit func(text string, line, depth int) error
	emit = func(text string, line, depth int) error {
		if depth > 8 {
			return fmt.Errorf("%s:%d: macro recursion", file, line)
		}
		for _, st := range strings.Split(strings.ReplaceAll(text, "\n", ";"), ";") {
			st = strings.TrimSpace(st)
			if st == "" {
				continue
			}
			if m := textRe.FindStringSubmatch(st); m != nil {
				fn = m[1]
				p.entry[fn] = len(p.code)
				continue
			}
			if i := strings.IndexByte(st, ':'); i > 0 && regexp.MustCompile(`^\w+$`).MatchString(st[:i]) {
				p.label[fn+"."+st[:i]] = len(p.code)
				if st = strings.TrimSpace(st[i+1:]); st == "" {
					continue
				}
			}
			name := regexp.MustCompile(`^\w+`).FindString(st)
			if m, ok := macros[name]; ok {
				body := m.body
				if m.params != nil {
					a := strings.TrimSpace(st[len(name):])
					if !strings.HasPrefix(a, "(") || !strings.HasSuffix(a, ")") {
						return fmt.Errorf("%s:%d: bad macro call %q", file, line, st)
					}
					args := splitArgs(a[1 : len(a)-1])
					if len(args) != len(m.params) {
						return fmt.Errorf("%s:%d: %s takes %d arguments", file, line, name, len(m.params))
					}
					body = regexp.MustCompile(`\w+`).ReplaceAllStringFunc(body, func(w string) string {
						for i, q := range m.params {
							if q == w {
								return args[i]
							}
						}
						return w
					})
				}
				if err := emit(body, line, depth+1); err != nil {
					return err
				}
				continue
			}
			in := instr{line: line}
			f := strings.Fields(st)
			in.op = f[0]
			in.args = splitArgs(strings.TrimSpace(st[len(f[0]):]))
			ok := fn != "" && known(in)
			for _, a := range in.args {
				o, is := parse(in, a)
				in.o = append(in.o, o)
				ok = ok && is
			}
			if ok = ok && shaped(in); !ok {
				return fmt.Errorf("%s:%d: %q is not an instruction the interpreter knows", file, line, st)
			}
			p.code = append(p.code, in)
			owner = append(owner, fn)
		}
		return nil
	}
	for i := 0; i < len(lines); i++ {
		no := i + 1
		l := strip(lines[i])
		if strings.HasPrefix(l, "#define") {
			for strings.HasSuffix(l, "\\") && i+1 < len(lines) {
				i++
				l = strings.TrimSuffix(l, "\\") + "\n" + strip(lines[i])
			}
			head, rest, _ := strings.Cut(l, "\n")
			m := defRe.FindStringSubmatch(strings.TrimSpace(head))
			if m == nil {
				return nil, fmt.Errorf("%s:%d: bad definition", file, no)
			}
			// a backslash inside the body only marks a comment line
			mc := macro{body: strings.ReplaceAll(m[3]+"\n"+rest, "\\", "")}
			if m[2] != "" {
				mc.params = splitArgs(m[2])
			}
			macros[m[1]] = mc
			continue
		}
		if strings.HasPrefix(l, "#include") {
			continue
		}
		if strings.HasPrefix(l, "#") {
			return nil, fmt.Errorf("%s:%d: directive %q", file, no, l)
		}
		if err := emit(l, no, 0); err != nil {
			return nil, err
		}
	}
	for i := range p.code {
		in := &p.code[i]
		for j := range in.o {
			if in.o[j].kind == kLabel {
				t, ok := p.label[owner[i]+"."+in.args[j]]
				if !ok {
					return nil, fmt.Errorf("%s:%d: no label %s", file, in.line, in.args[j])
				}
				in.o[j].n = int64(t)
			}
		}
	}
	return p, nil
}

// Has reports whether the file defines fn.
func (p *Prog) Has(fn string) bool { _, ok := p.entry[fn]; return ok }

// strip removes a comment but keeps the continuation mark after it.
func strip(l string) string {
	l = strings.TrimSpace(l)
	if i := strings.Index(l, "//"); i >= 0 {
		cont := strings.HasSuffix(l, "\\")
		if l = strings.TrimSpace(l[:i]); cont && !strings.HasSuffix(l, "\\") {
			l += "\\"
		}
	}
	return l
}

func splitArgs(s string) []string {
	var out []string
	depth, start := 0, 0
	for i, c := range s {
		switch c {
		case '[', '(':
			depth++
		case ']', ')':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[start:i]))
				start = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[start:]); t != "" {
		out = append(out, t)
	}
	return out
}

var arity = map[string]int{"MOVD": 2, "SUBS": 2, "SUB": 2, "ADDS": 2, "ADD": 2, "CMP": 2, "LSR": 2, "LSL": 2, "AND": 2,
	"B": 1, "JMP": 1, "BMI": 1, "BPL": 1, "BEQ": 1, "BNE": 1, "BGE": 1, "BLT": 1, "BGT": 1, "BLE": 1, "CBZ": 2, "CBNZ": 2, "RET": 0,
	"VLD1": 2, "VLD1.P": 2, "VST1": 2, "VST1.P": 2, "VUSHR": 3, "VAND": 3, "VEOR": 3, "VORR": 3, "VTBL": 3, "VMOV": 2, "VDUP": 2, "PRFM": -1, "NOP": 0}

func known(in instr) bool {
	n, ok := arity[in.op]
	if !ok || in.op == "PRFM" {
		return ok
	}
	if len(in.args) == 3 && (in.op == "SUBS" || in.op == "SUB" || in.op == "ADDS" || in.op == "ADD" || in.op == "LSR" || in.op == "LSL" || in.op == "AND") {
		return true
	}
	return len(in.args) == n
}

var fpRe = regexp.MustCompile(`^\w+\+(\d+)\(FP\)$`)
var memRe = regexp.MustCompile(`^(\d*)\(R(\d+)\)$`)

func parse(in instr, s string) (operand, bool) {
	num := func(p, t string, top int) (int, bool) {
		n, err := strconv.Atoi(strings.TrimPrefix(t, p))
		return n, err == nil && strings.HasPrefix(t, p) && n >= 0 && n <= top
	}
	vec := func(t string) (int, bool, bool) {
		name, arr, _ := strings.Cut(t, ".")
		n, ok := num("V", name, 31)
		return n, arr == "B16", ok && (arr == "B16" || arr == "D2" || arr == "S4" || arr == "H8")
	}
	switch {
	case s[0] == 'B' && in.op == "PRFM" || in.op == "PRFM":
		return operand{}, true
	case s[0] == '$':
		n, err := strconv.ParseInt(s[1:], 0, 64)
		return operand{kind: kNum, n: n}, err == nil
	case s == "ZR":
		return operand{kind: kNum}, true
	case fpRe.MatchString(s):
		off, _ := strconv.Atoi(fpRe.FindStringSubmatch(s)[1])
		return operand{kind: kFrame, reg: off}, off%8 == 0
	case memRe.MatchString(s):
		f := memRe.FindStringSubmatch(s)
		r, ok := num("", f[2], 30)
		n := int64(-1)
		if f[1] != "" {
			n, _ = strconv.ParseInt(f[1], 10, 64)
		}
		return operand{kind: kMem, reg: r, n: n}, ok
	case s[0] == '[' && strings.HasSuffix(s, "]"):
		o := operand{kind: kList}
		for _, t := range splitArgs(s[1 : len(s)-1]) {
			r, _, ok := vec(t)
			if !ok {
				return o, false
			}
			o.list = append(o.list, r)
		}
		return o, len(o.list) > 0 && len(o.list) <= 4
	case s[0] == 'V':
		if i := strings.IndexByte(s, '['); i > 0 {
			r, _, ok := vec(s[:i] + "16")
			n, ok2 := num("", strings.TrimSuffix(s[i+1:], "]"), 15)
			return operand{kind: kLane, reg: r, n: int64(n)}, ok && ok2 && strings.HasSuffix(s[:i], ".B")
		}
		r, b16, ok := vec(s)
		return operand{kind: kVec, reg: r, b16: b16}, ok
	}
	if r, ok := num("R", s, 30); ok {
		return operand{kind: kReg, reg: r}, true
	}
	return operand{kind: kLabel}, regexp.MustCompile(`^\w+$`).MatchString(s)
}

// shaped checks the kinds of the operands.
func shaped(in instr) bool {
	k := func(i int, kinds ...int) bool {
		if i >= len(in.o) {
			return false
		}
		for _, x := range kinds {
			if in.o[i].kind == x {
				return true
			}
		}
		return false
	}
	last := len(in.o) - 1
	switch in.op {
	case "RET", "NOP", "PRFM":
		return true
	case "MOVD":
		return k(0, kNum, kReg, kFrame) && k(1, kReg)
	case "CMP":
		return k(0, kNum, kReg) && k(1, kNum, kReg)
	case "SUB", "SUBS", "ADD", "ADDS", "LSR", "LSL", "AND":
		return k(0, kNum, kReg) && k(1, kReg) && k(last, kReg)
	case "CBZ", "CBNZ":
		return k(0, kReg) && k(1, kLabel)
	case "VLD1", "VLD1.P":
		return k(0, kMem) && k(1, kList) && (in.o[0].n < 0 || in.op == "VLD1.P")
	case "VST1", "VST1.P":
		return k(0, kList) && k(1, kMem) && (in.o[1].n < 0 || in.op == "VST1.P")
	case "VUSHR":
		return k(0, kNum) && k(1, kVec) && k(2, kVec) && in.o[1].b16 && in.o[2].b16
	case "VAND", "VEOR", "VORR":
		return k(0, kVec) && k(1, kVec) && k(2, kVec)
	case "VTBL":
		return k(0, kVec) && k(1, kList) && k(2, kVec) && in.o[0].b16 && in.o[2].b16
	case "VMOV":
		return k(0, kReg) && k(1, kLane)
	case "VDUP":
		return k(0, kReg, kLane) && k(1, kVec) && in.o[1].b16
	}
	return k(0, kLabel)
}

// val is a number, or an address inside an argument.
type val struct {
	arg int // 0: a number
	n   int64
}

type machine struct {
	p    *Prog
	r    [32]val
	v    [32][16]byte
	args [][]byte
	in   *instr
}

// Call executes function fn of the file.
func (p *Prog) Call(fn string, args ...[]byte) {
	m := &machine{p: p, args: args}
	pc, ok := p.entry[fn]
	if !ok {
		panic("no assembly for " + fn)
	}
	var flag int64 // result of the last comparison
	for steps := 0; ; steps++ {
		if pc >= len(p.code) || steps > 1<<30 {
			m.fault("does not return")
		}
		m.in = &p.code[pc]
		pc++
		o := m.in.o
		to := false
		switch m.in.op {
		case "RET":
			return
		case "NOP", "PRFM":
		case "MOVD":
			m.r[o[1].reg] = m.scalar(&o[0])
		case "SUB", "SUBS", "ADD", "ADDS", "LSR", "LSL", "AND", "CMP":
			x, y := m.scalar(&o[0]), m.scalar(&o[1])
			var z val
			switch m.in.op {
			case "SUB", "SUBS", "CMP":
				z = val{y.arg, y.n - x.n}
				if y.arg == x.arg {
					z.arg = 0
				}
			case "ADD", "ADDS":
				z = val{y.arg + x.arg, y.n + x.n}
			case "LSR":
				z = val{0, int64(uint64(y.n) >> uint(x.n))}
			case "LSL":
				z = val{0, y.n << uint(x.n)}
			case "AND":
				z = val{0, y.n & x.n}
			}
			if m.in.op != "CMP" {
				m.r[o[len(o)-1].reg] = z
			}
			if m.in.op == "SUBS" || m.in.op == "ADDS" || m.in.op == "CMP" {
				flag = z.n
			}
		case "B", "JMP":
			to = true
		case "BMI", "BLT":
			to = flag < 0
		case "BPL", "BGE":
			to = flag >= 0
		case "BEQ":
			to = flag == 0
		case "BNE":
			to = flag != 0
		case "BGT":
			to = flag > 0
		case "BLE":
			to = flag <= 0
		case "CBZ":
			to = m.scalar(&o[0]).n == 0
		case "CBNZ":
			to = m.scalar(&o[0]).n != 0
		case "VLD1", "VLD1.P":
			m.mem(&o[0], &o[1], false)
		case "VST1", "VST1.P":
			m.mem(&o[1], &o[0], true)
		case "VUSHR":
			x, d := m.v[o[1].reg], &m.v[o[2].reg]
			for i := range d {
				d[i] = x[i] >> uint(o[0].n)
			}
		case "VAND", "VEOR", "VORR":
			x, y, d := m.v[o[0].reg], m.v[o[1].reg], &m.v[o[2].reg]
			for i := range d {
				switch m.in.op {
				case "VAND":
					d[i] = x[i] & y[i]
				case "VEOR":
					d[i] = x[i] ^ y[i]
				default:
					d[i] = x[i] | y[i]
				}
			}
		case "VTBL":
			idx, d := m.v[o[0].reg], &m.v[o[2].reg]
			var tab [64]byte
			for i, v := range o[1].list {
				copy(tab[16*i:], m.v[v][:])
			}
			for i := range d {
				d[i] = 0
				if int(idx[i]) < 16*len(o[1].list) {
					d[i] = tab[idx[i]]
				}
			}
		case "VMOV":
			m.v[o[1].reg][o[1].n] = byte(m.scalar(&o[0]).n)
		case "VDUP":
			var x byte
			if o[0].kind == kReg {
				x = byte(m.r[o[0].reg].n)
			} else {
				x = m.v[o[0].reg][o[0].n]
			}
			d := &m.v[o[1].reg]
			for i := range d {
				d[i] = x
			}
		}
		if to {
			pc = int(o[len(o)-1].n)
		}
	}
}

func (m *machine) fault(what string) {
	panic(fmt.Sprintf("%s:%d: %s %s: %s", m.p.file, m.in.line, m.in.op, strings.Join(m.in.args, ", "), what))
}

func (m *machine) scalar(o *operand) val {
	switch o.kind {
	case kNum:
		return val{0, o.n}
	case kReg:
		return m.r[o.reg]
	}
	i := o.reg / 24
	if i >= len(m.args) {
		m.fault("bad frame offset")
	}
	switch o.reg % 24 {
	case 0:
		return val{i + 1, 0}
	case 8:
		return val{0, int64(len(m.args[i]))}
	}
	return val{0, int64(cap(m.args[i]))}
}

// mem moves vectors between memory and registers.
func (m *machine) mem(addr, regs *operand, store bool) {
	base := &m.r[addr.reg]
	if base.arg < 1 || base.arg > len(m.args) {
		m.fault("not an address")
	}
	b := m.args[base.arg-1]
	for j, r := range regs.list {
		v := &m.v[r]
		at := base.n + int64(16*j)
		switch {
		case at >= 0 && at+16 <= int64(len(b)):
			if store {
				copy(b[at:at+16], v[:])
			} else {
				copy(v[:], b[at:at+16])
			}
		case store:
			m.fault(fmt.Sprintf("writes byte %d of an operand of %d bytes", at+15, len(b)))
		default: // whatever lies there
			for x := int64(0); x < 16; x++ {
				v[x] = 0xa5
				if at+x >= 0 && at+x < int64(len(b)) {
					v[x] = b[at+x]
				}
			}
		}
	}
	if strings.HasSuffix(m.in.op, ".P") {
		n := addr.n
		if n < 0 {
			n = int64(16 * len(regs.list))
		}
		base.n += n
	}
}
