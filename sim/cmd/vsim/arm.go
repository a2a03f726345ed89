package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"verif.local/sim/neon"
)

// armTag asks for the arm64 variant of the code under test: its arm64 files take
// the place of the amd64 ones, and its assembly is interpreted.
const armTag = "sim_arm64"

type armPkg struct {
	goFiles []string
	added   map[string]bool
	asm     map[string]string
}

func hasTag(tags, t string) bool {
	for _, x := range strings.Split(tags, ",") {
		if x == t {
			return true
		}
	}
	return false
}

func armVariant(repoDir, tags string, pkgs []*listPkg, res *instrumented, outDir string) error {
	cmd := exec.Command("go", "list", "-e", "-json=ImportPath,Dir,Name,GoFiles,SFiles", "-tags", tags, "./...")
	cmd.Dir = repoDir
	for _, kv := range goEnv() {
		if !strings.HasPrefix(kv, "GOARCH=") {
			cmd.Env = append(cmd.Env, kv)
		}
	}
	cmd.Env = append(cmd.Env, "GOARCH=arm64")
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list for arm64: %v", err)
	}
	by := map[string]*listPkg{}
	for _, p := range pkgs {
		by[p.ImportPath] = p
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	diff := 0
	for {
		var q listPkg
		if err := dec.Decode(&q); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		p := by[q.ImportPath]
		if p == nil {
			continue
		}
		p.arm = &armPkg{goFiles: q.GoFiles, added: map[string]bool{}, asm: map[string]string{}}
		had := map[string]bool{}
		for _, f := range p.GoFiles {
			had[f] = true
		}
		for _, f := range q.GoFiles {
			if !had[f] {
				p.arm.added[f] = true
				diff++
			}
			delete(had, f)
		}
		for f := range had { // no arm64 counterpart
			out := filepath.Join(outDir, "dropped_"+p.Name+"_"+f)
			if err := os.WriteFile(out, []byte("package "+p.Name+"\n"), 0o644); err != nil {
				return err
			}
			res.Overlay[filepath.Join(p.Dir, f)] = out
		}
		for _, f := range p.SFiles {
			res.Overlay[filepath.Join(p.Dir, f)] = ""
		}
		for _, f := range q.SFiles {
			src, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				return err
			}
			if _, err := neon.Assemble(f, string(src)); err != nil {
				return err
			}
			p.arm.asm[f] = string(src)
		}
	}
	if diff == 0 {
		return fmt.Errorf("no file of its own for arm64")
	}
	return nil
}

var noescRe = regexp.MustCompile(`(?m)^//go:noescape`)

// armSource makes an arm64 file acceptable on this machine, without moving a byte.
func armSource(src []byte) []byte {
	src = noescRe.ReplaceAll(src, []byte("// o:noescape"))
	return buildRe.ReplaceAllFunc(src, func(b []byte) []byte {
		t := []byte("//go:build go1.21")
		if len(t) > len(b) {
			return b
		}
		return append(t, bytes.Repeat([]byte(" "), len(b)-len(t))...)
	})
}

// asmBody gives a function implemented in assembly a body.
func (f *fileInst) asmBody(d *ast.FuncDecl) {
	var args []string
	if d.Type.Results == nil {
		for _, l := range d.Type.Params.List {
			at, ok := l.Type.(*ast.ArrayType)
			id, ok2 := (*ast.Ident)(nil), false
			if ok && at.Len == nil {
				id, ok2 = at.Elt.(*ast.Ident)
			}
			if !ok2 || id.Name != "byte" && id.Name != "uint8" {
				return // left without a body: the variant does not build
			}
			for _, n := range l.Names {
				args = append(args, n.Name)
			}
		}
		f.insAfter(d.End(), fmt.Sprintf(" { simrt_.Asm(%q, %s) }", d.Name.Name, strings.Join(args, ", ")))
	}
}
