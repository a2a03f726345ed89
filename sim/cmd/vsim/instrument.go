package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

const (
	repoModule = "github.com/fadhilkurnia/shamir"
	simModule  = "verif.local/sim"
)

var importMap = map[string]string{
	"sync":                        simModule + "/shim/ssync",
	"sync/atomic":                 simModule + "/shim/satomic",
	"math/rand":                   simModule + "/shim/mrand",
	"math/rand/v2":                simModule + "/shim/mrand2",
	"crypto/rand":                 simModule + "/shim/crand",
	"github.com/starius/aesctrat": simModule + "/shim/saes",
}

var importName = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "math/rand": "rand", "math/rand/v2": "rand", "crypto/rand": "rand",
	"github.com/starius/aesctrat": "aesctrat",
}

var selMap = map[string]string{
	"time.Now": "TimeNow", "time.Since": "TimeSince", "time.Until": "TimeUntil",
	"time.Sleep": "TimeSleep", "time.AfterFunc": "TimeAfterFunc",
	"runtime.NumCPU": "NumCPU", "runtime.GOMAXPROCS": "GOMAXPROCS", "runtime.Gosched": "Gosched",
	"os.Getpid": "Getpid", "os.Getppid": "Getppid", "os.Hostname": "Hostname",
	"runtime.NumGoroutine": "NumGoroutine",
	"os.Exit":              "Exit", "log.Fatal": "FatalArgs", "log.Fatalf": "Fatalf", "log.Fatalln": "FatallnArgs",
}

type listPkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles, SFiles               []string
	arm                           *armPkg
	Standard                      bool
	Module                        *struct{ Path string }
	Error                         *struct{ Err string }
}

type siteInfo struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Kind string `json:"kind"`
}

type instrumented struct {
	Overlay map[string]string
	Sites   []siteInfo
	Pkgs    []string
	Warn    []string
}

func goEnv() []string {
	e := os.Environ()
	set := map[string]string{"GOPROXY": "off", "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=readonly", "GOWORK": "off",
		"GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build", "GONOSUMDB": "*", "GONOSUMCHECK": "1", "GOFLAGS_": "",
		"GOOS": "linux", "GOARCH": "amd64", "CGO_ENABLED": "0", "GODEBUG": "", "GOEXPERIMENT": ""}
	var out []string
	for _, kv := range e {
		k := kv[:strings.IndexByte(kv, '=')]
		if _, ok := set[k]; !ok {
			out = append(out, kv)
		}
	}
	for k, v := range set {
		if k != "GOFLAGS_" {
			out = append(out, k+"="+v)
		}
	}
	return out
}

// instrument rewrites every library package of the repository into dir and
// returns the overlay.
func instrument(repoDir, outDir string, tags string) (*instrumented, error) {
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,SFiles,Standard,Module,Error"}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var pkgs []*listPkg
	exports := map[string]string{}
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == repoModule && p.Name != "main" {
			q := p
			pkgs = append(pkgs, &q)
		}
	}
	res := &instrumented{Overlay: map[string]string{}}
	if hasTag(tags, armTag) {
		if err := armVariant(repoDir, tags, pkgs, res, outDir); err != nil {
			return nil, err
		}
	}
	for _, p := range pkgs {
		res.Pkgs = append(res.Pkgs, p.ImportPath)
		if err := instrumentPkg(p, exports, outDir, res); err != nil {
			return nil, fmt.Errorf("%s: %v", p.ImportPath, err)
		}
	}
	if len(res.Sites) >= 1<<14 {
		return nil, fmt.Errorf("too many yield sites: %d", len(res.Sites))
	}
	return res, nil
}

// edit kinds: text that closes something ending at off, text that opens
// something starting at off, replacement of source text starting at off.
const (
	kEnd = iota
	kStart
	kRep
)

type edit struct {
	off, del int
	text     string
	seq      int
	kind     int
}

type fileInst struct {
	src   []byte
	base  int
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	edits []edit
	res   *instrumented
	path  string
	nvar  int
	keep  map[string]bool
	skip  map[ast.Node]bool
	ovl   string // the file it replaces or becomes
	arm   bool
}

func (f *fileInst) off(p token.Pos) int { return f.fset.Position(p).Offset }
func (f *fileInst) ins(p token.Pos, s string) {
	f.insOff(f.off(p), s)
}
func (f *fileInst) insOff(o int, s string) {
	f.edits = append(f.edits, edit{o, 0, s, len(f.edits), kStart})
}
func (f *fileInst) insAfter(p token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(p), 0, s, len(f.edits), kEnd})
}
func (f *fileInst) rep(p token.Pos, n int, s string) {
	f.edits = append(f.edits, edit{f.off(p), n, s, len(f.edits), kRep})
}

func (f *fileInst) site(p token.Pos, kind string) int {
	id := len(f.res.Sites)
	pos := f.fset.Position(p)
	f.res.Sites = append(f.res.Sites, siteInfo{id, fmt.Sprintf("%s:%d", pos.Filename, pos.Line), kind})
	return id
}

// render returns the edited text of source range [a,b).
func (f *fileInst) render(a, b int) string {
	es := append([]edit{}, f.edits...)
	sort.SliceStable(es, func(i, j int) bool {
		x, y := es[i], es[j]
		if x.off != y.off {
			return x.off < y.off
		}
		if x.kind != y.kind {
			return x.kind < y.kind
		}
		if x.kind == kEnd {
			return x.seq > y.seq // innermost construct closes first
		}
		return x.seq < y.seq
	})
	var out bytes.Buffer
	pos := a
	for _, e := range es {
		if e.off < a || e.off > b || (e.off == a && a != 0 && e.kind == kEnd) || (e.off == b && e.kind != kEnd) {
			continue
		}
		if e.off < pos {
			panic(fmt.Sprintf("%s: overlapping edits at offset %d (%q)", f.path, e.off, e.text))
		}
		out.Write(f.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.off + e.del
	}
	out.Write(f.src[pos:b])
	return out.String()
}

var buildRe = regexp.MustCompile(`(?m)^//go:build (.*)$`)
var plusRe = regexp.MustCompile(`(?m)^// ?\+build .*$`)

func instrumentPkg(p *listPkg, exports map[string]string, outDir string, res *instrumented) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	var paths []string
	names := p.GoFiles
	if p.arm != nil {
		names = p.arm.goFiles
	}
	for _, g := range names {
		path := filepath.Join(p.Dir, g)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if p.arm != nil && p.arm.added[g] {
			src = armSource(src)
		}
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
		srcs = append(srcs, src)
		paths = append(paths, path)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	var terrs []string
	conf := types.Config{Importer: imp, GoVersion: "go1.21", Error: func(err error) { terrs = append(terrs, err.Error()) }}
	tp, _ := conf.Check(p.ImportPath, fset, files, info)
	if len(terrs) > 0 {
		return fmt.Errorf("does not type-check: %s", strings.Join(terrs, "; "))
	}
	fis := make([]*fileInst, len(files))
	for i, af := range files {
		f := &fileInst{src: srcs[i], fset: fset, info: info, pkg: tp, res: res, path: paths[i], ovl: paths[i], keep: map[string]bool{}, skip: map[ast.Node]bool{}}
		if p.arm != nil && p.arm.added[filepath.Base(paths[i])] {
			f.arm = true
			f.ovl = filepath.Join(p.Dir, fmt.Sprintf("simarch%d_.go", i))
		}
		fis[i] = f
		f.file(af)
	}
	// package variables in initialisation order
	type vdecl struct {
		f    *fileInst
		spec *ast.ValueSpec
	}
	where := map[types.Object]vdecl{}
	for i, af := range files {
		for _, d := range af.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for _, n := range vs.Names {
					if o := info.Defs[n]; o != nil {
						where[o] = vdecl{fis[i], vs}
					}
				}
			}
		}
	}
	tails := make([]bytes.Buffer, len(files))
	idx := map[*fileInst]int{}
	for i, f := range fis {
		idx[f] = i
	}
	zero := map[types.Object]bool{}
	for i, af := range files {
		for _, d := range af.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					zero[info.Defs[n]] = true
					t := fis[i].render(fis[i].off(vs.Type.Pos()), fis[i].off(vs.Type.End()))
					fmt.Fprintf(&tails[i], "func init() { simrt_.RegisterInit(%q, -1, func() { %s = *new(%s) }) }\n", p.ImportPath, n.Name, t)
				}
			}
		}
	}
	for k, in := range info.InitOrder {
		var names []string
		blank := true
		for _, l := range in.Lhs {
			names = append(names, l.Name())
			if l.Name() != "_" {
				blank = false
			}
		}
		if blank || len(in.Lhs) == 0 {
			continue
		}
		w, ok := where[in.Lhs[0]]
		if !ok {
			continue
		}
		f := w.f
		t := f.render(f.off(in.Rhs.Pos()), f.off(in.Rhs.End()))
		fmt.Fprintf(&tails[idx[f]], "func init() { simrt_.RegisterInit(%q, %d, func() { %s = %s }) }\n", p.ImportPath, k, strings.Join(names, ", "), t)
	}
	// init functions
	ninit := 0
	for i, af := range files {
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" || fd.Body == nil {
				continue
			}
			name := fmt.Sprintf("simInit%d_", ninit)
			fis[i].rep(fd.Name.Pos(), 4, name)
			fmt.Fprintf(&tails[i], "func init() { %s(); simrt_.RegisterInit(%q, %d, %s) }\n", name, p.ImportPath, 1000000+ninit, name)
			ninit++
		}
	}
	for i, f := range fis {
		af := files[i]
		// header
		f.insOff(f.off(af.Name.End()), `; import simrt_ "`+simModule+`/simrt"`)
		hdr := f.off(af.Package)
		hasBuild := false
		for _, m := range buildRe.FindAllSubmatchIndex(f.src[:hdr], -1) {
			f.edits = append(f.edits, edit{m[0], m[1] - m[0], "//go:build (" + strings.TrimSpace(string(f.src[m[2]:m[3]])) + ") && go1.21", 0, kRep})
			hasBuild = true
		}
		for _, m := range plusRe.FindAllIndex(f.src[:hdr], -1) {
			f.edits = append(f.edits, edit{m[0], m[1] - m[0], "//", 0, kRep})
		}
		text := f.render(0, len(f.src))
		if !hasBuild {
			text = "//go:build go1.21\n\n//line " + f.path + ":1\n" + text
		}
		var tail bytes.Buffer
		tail.WriteString("\nvar _ = simrt_.Y\n")
		var ks []string
		for k := range f.keep {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&tail, "var _ = %s\n", k)
		}
		tail.Write(tails[i].Bytes())
		if i == 0 && p.arm != nil {
			for name, src := range p.arm.asm {
				fmt.Fprintf(&tail, "func init() { simrt_.LoadAsm(%q, %q) }\n", name, src)
			}
		}
		text += tail.String()
		out := filepath.Join(outDir, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, repoModule+"/"), "/", "__")+"__"+filepath.Base(f.path))
		if err := os.WriteFile(out, []byte(text), 0o644); err != nil {
			return err
		}
		res.Overlay[f.ovl] = out
	}
	return nil
}

func (f *fileInst) file(af *ast.File) {
	for _, im := range af.Imports {
		path := strings.Trim(im.Path.Value, "\"`")
		to, ok := importMap[path]
		if !ok {
			continue
		}
		if im.Name == nil {
			f.rep(im.Path.Pos(), len(im.Path.Value), importName[path]+` "`+to+`"`)
		} else {
			f.rep(im.Path.Pos(), len(im.Path.Value), `"`+to+`"`)
		}
	}
	// selectors on packages
	ast.Inspect(af, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := f.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		key := pn.Imported().Path() + "." + se.Sel.Name
		if r, ok := selMap[key]; ok {
			f.keep[id.Name+"."+se.Sel.Name] = true
			f.rep(se.Pos(), int(se.End()-se.Pos()), "simrt_."+r)
		}
		return true
	})
	for _, d := range af.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body == nil {
				if f.arm {
					f.asmBody(d)
				}
				continue
			}
			if d.Doc != nil && strings.Contains(docText(d.Doc), "go:nosplit") {
				continue
			}
			f.block(d.Body.List)
			f.exprs(d.Body)
		case *ast.GenDecl:
			f.exprs(d)
		}
	}
}

func docText(c *ast.CommentGroup) string {
	var s string
	for _, x := range c.List {
		s += x.Text
	}
	return s
}

// exprs handles everything below n that is not tied to a statement list:
// nested lists, go statements, channel operations.
func (f *fileInst) exprs(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			f.block(x.Body.List)
		case *ast.BlockStmt:
			// function bodies are handled by their owner
		case *ast.IfStmt:
			f.block(x.Body.List)
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				f.block(b.List)
			}
		case *ast.ForStmt:
			f.loopBody(x.Body)
		case *ast.RangeStmt:
			f.mapRange(x)
			f.loopBody(x.Body)
		case *ast.CaseClause:
			f.block(x.Body)
		case *ast.CommClause:
			f.block(x.Body)
			f.markComm(x.Comm)
		case *ast.GoStmt:
			f.goStmt(x)
		case *ast.SendStmt:
			if !f.skip[x] {
				f.ins(x.Chan.Pos(), "simrt_.Send(")
				f.rep(x.Arrow, 2, ")(")
				f.insAfter(x.Value.End(), ")")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				f.mark2(x.Rhs[0])
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				f.mark2(x.Values[0])
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !f.skip[x] {
				fn := "Recv"
				if f.two()[x] {
					fn = "Recv2"
				}
				f.rep(x.OpPos, 2, "simrt_."+fn+"(")
				f.insAfter(x.X.End(), ")")
			}
		}
		return true
	})
}

// mapRange makes the order in which a map is walked a choice of the seed.
func (f *fileInst) mapRange(x *ast.RangeStmt) {
	t := f.typeOf(x.X)
	if t == nil {
		return
	}
	if _, ok := t.Underlying().(*types.Map); !ok {
		return
	}
	name := func(e ast.Expr) (string, bool) {
		if e == nil {
			return "_", true
		}
		id, ok := e.(*ast.Ident)
		if !ok {
			return "", false
		}
		return id.Name, true
	}
	k, ok1 := name(x.Key)
	v, ok2 := name(x.Value)
	if !ok1 || !ok2 {
		return
	}
	ref := func(n string) string {
		if n == "_" {
			return "nil"
		}
		return "&" + n
	}
	f.nvar++
	it := fmt.Sprintf("simM%d_", f.nvar)
	head := it + ", _, _"
	if x.Tok == token.ASSIGN {
		m := t.Underlying().(*types.Map)
		for _, e := range []struct {
			e ast.Expr
			t types.Type
		}{{x.Key, m.Key()}, {x.Value, m.Elem()}} {
			if e.e != nil && e.e.(*ast.Ident).Name != "_" && !types.Identical(f.identType(e.e), e.t) {
				return
			}
		}
	}
	if x.Tok == token.DEFINE {
		head = it + ", " + k + ", " + v
	}
	from := x.Range
	if x.Key != nil {
		from = x.Key.Pos()
	}
	f.rep(from, int(x.X.Pos()-from), head+" := simrt_.MapIter(")
	f.insAfter(x.X.End(), "); "+it+".Next("+ref(k)+", "+ref(v)+"); ")
}

var twoMap = map[*fileInst]map[ast.Node]bool{}

func (f *fileInst) two() map[ast.Node]bool {
	if twoMap[f] == nil {
		twoMap[f] = map[ast.Node]bool{}
	}
	return twoMap[f]
}

func (f *fileInst) mark2(e ast.Expr) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		f.two()[u] = true
	}
}

func (f *fileInst) markComm(s ast.Stmt) {
	mark := func(e ast.Expr) {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		if u, ok := e.(*ast.UnaryExpr); ok {
			f.skip[u] = true
		}
	}
	switch x := s.(type) {
	case *ast.SendStmt:
		f.skip[x] = true
	case *ast.ExprStmt:
		mark(x.X)
	case *ast.AssignStmt:
		for _, r := range x.Rhs {
			mark(r)
		}
	}
}

func (f *fileInst) loopBody(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		f.insOff(f.off(b.Lbrace)+1, fmt.Sprintf("simrt_.Y(%d);", f.site(b.Lbrace, "loop")))
		return
	}
	f.block(b.List)
}

func unlabel(s ast.Stmt) ast.Stmt {
	for {
		l, ok := s.(*ast.LabeledStmt)
		if !ok {
			return s
		}
		s = l.Stmt
	}
}

func (f *fileInst) block(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		if d, ok := s.(*ast.DeclStmt); ok {
			if gd, ok := d.Decl.(*ast.GenDecl); ok && gd.Tok != token.VAR {
				continue
			}
		}
		pre := fmt.Sprintf("simrt_.Y(%d);", f.site(s.Pos(), "stmt"))
		inner := unlabel(s)
		pre += f.uses(inner)
		switch x := inner.(type) {
		case *ast.BlockStmt:
			f.block(x.List)
		case *ast.SelectStmt:
			f.nvar++
			v := fmt.Sprintf("simMe%d_", f.nvar)
			pre += fmt.Sprintf("%s := simrt_.Me(); _ = %s;", v, v)
			for _, c := range x.Body.List {
				cc := c.(*ast.CommClause)
				f.insOff(f.off(cc.Colon)+1, "simrt_.Post("+v+");")
			}
		case *ast.RangeStmt:
			if t, ok := f.info.Types[x.X]; ok && t.Type != nil {
				if _, ok := t.Type.Underlying().(*types.Chan); ok {
					f.nvar++
					v := fmt.Sprintf("simMe%d_", f.nvar)
					pre += fmt.Sprintf("%s := simrt_.Me(); _ = %s;", v, v)
					f.insOff(f.off(x.Body.Lbrace)+1, "simrt_.Post("+v+");")
					f.insAfter(x.End(), ";simrt_.Post("+v+")")
				}
			}
		case *ast.IncDecStmt:
			if inner == s && (f.shared(x.X) || f.element(x.X)) {
				op := "+"
				if x.Tok == token.DEC {
					op = "-"
				}
				f.ins(s.Pos(), pre+"{simP_ := &(")
				f.rep(x.TokPos, 2, fmt.Sprintf("); simT_ := *simP_; simrt_.Y(%d); *simP_ = simT_ %s 1}", f.site(x.TokPos, "rmw"), op))
				continue
			}
		case *ast.AssignStmt:
			if inner == s && x.Tok == token.ASSIGN && len(x.Lhs) > 1 && len(x.Lhs) == len(x.Rhs) && f.tuple(x, pre) {
				continue
			}
			if inner != s || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
				break
			}
			if !f.shared(x.Lhs[0]) && (x.Tok == token.ASSIGN || x.Tok == token.DEFINE || !f.element(x.Lhs[0])) {
				break
			}
			if x.Tok == token.ASSIGN {
				lt, rt := f.info.Types[x.Lhs[0]].Type, f.info.Types[x.Rhs[0]].Type
				if lt == nil && f.identType(x.Lhs[0]) != nil {
					lt = f.identType(x.Lhs[0])
				}
				if lt == nil || rt == nil || !types.Identical(lt, rt) || f.info.Types[x.Rhs[0]].Value != nil {
					break
				}
				if _, ok := x.Rhs[0].(*ast.FuncLit); ok {
					break
				}
				// LHS = RHS  ->  {simP := &(LHS); simV := RHS; Y; *simP = simV}
				f.ins(s.Pos(), pre+"{simP_ := &(")
				f.rep(x.TokPos, 1, "); simV_ := ")
				f.insAfter(x.End(), fmt.Sprintf("; simrt_.Y(%d); *simP_ = simV_}", f.site(x.TokPos, "store")))
				continue
			}
			if x.Tok != token.DEFINE {
				op := strings.TrimSuffix(x.Tok.String(), "=")
				f.ins(s.Pos(), pre+"{simP_ := &(")
				f.rep(x.TokPos, len(x.Tok.String()), fmt.Sprintf("); simT_ := *simP_; simrt_.Y(%d); *simP_ = simT_ %s (", f.site(x.TokPos, "rmw"), op))
				f.insAfter(x.End(), ")}")
				continue
			}
		}
		f.ins(s.Pos(), pre)
	}
}

func (f *fileInst) identType(e ast.Expr) types.Type {
	if id, ok := e.(*ast.Ident); ok {
		if o := f.info.Uses[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

// shared reports whether an assignable expression may be visible to other
// threads: a field, a dereference or a package variable (not a map element,
// not an element of a slice, not a local).
func (f *fileInst) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := f.info.Uses[id].(*types.PkgName); ok {
				return true
			}
		}
		return true
	case *ast.StarExpr:
		return true
	case *ast.Ident:
		v, ok := f.info.Uses[x].(*types.Var)
		return ok && v.Parent() == f.pkg.Scope()
	}
	return false
}

func (f *fileInst) goStmt(g *ast.GoStmt) {
	fun := g.Call.Fun
	tv, ok := f.info.Types[fun]
	if !ok || tv.IsBuiltin() || tv.IsType() {
		f.res.Warn = append(f.res.Warn, "go statement left alone at "+f.fset.Position(g.Pos()).String())
		return
	}
	id := f.site(g.Pos(), "go")
	f.ins(fun.Pos(), fmt.Sprintf("simrt_.Wrap(simrt_.NewG(%d), ", id))
	f.insAfter(fun.End(), ")")
}

// element reports whether e is an element of a slice or an array.
func (f *fileInst) element(e ast.Expr) bool {
	x, ok := e.(*ast.IndexExpr)
	if !ok {
		return false
	}
	t := f.typeOf(x.X)
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Array:
		return true
	case *types.Pointer:
		_, ok := u.Elem().Underlying().(*types.Array)
		return ok
	}
	return false
}

// tuple splits a, b = x, y with a shared left side into the evaluation of the
// right sides, a yield point and the stores.
func (f *fileInst) tuple(x *ast.AssignStmt, pre string) bool {
	any := false
	for i := range x.Lhs {
		lt, rt := f.typeOf(x.Lhs[i]), f.info.Types[x.Rhs[i]].Type
		if lt == nil || rt == nil || !types.Identical(lt, rt) || f.info.Types[x.Rhs[i]].Value != nil {
			return false
		}
		if !f.pure(x.Lhs[i]) {
			return false
		}
		any = any || f.shared(x.Lhs[i])
	}
	if !any {
		return false
	}
	var tmp []string
	for i := range x.Lhs {
		tmp = append(tmp, fmt.Sprintf("simV%d_", i))
	}
	lhs := string(f.src[f.off(x.Lhs[0].Pos()):f.off(x.Lhs[len(x.Lhs)-1].End())])
	f.ins(x.Pos(), pre+"{"+strings.Join(tmp, ", ")+" := ")
	f.rep(x.Pos(), f.off(x.Rhs[0].Pos())-f.off(x.Pos()), "")
	f.insAfter(x.End(), fmt.Sprintf("; simrt_.Y(%d); %s = %s}", f.site(x.TokPos, "store"), lhs, strings.Join(tmp, ", ")))
	return true
}

func (f *fileInst) typeOf(e ast.Expr) types.Type {
	if t := f.info.Types[e].Type; t != nil {
		return t
	}
	return f.identType(e)
}

// pure reports whether evaluating e has no effect and cannot call anything.
func (f *fileInst) pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		if s := f.info.Selections[x]; s != nil && s.Kind() != types.FieldVal {
			return false
		}
		return f.pure(x.X)
	case *ast.StarExpr:
		return f.pure(x.X)
	case *ast.ParenExpr:
		return f.pure(x.X)
	}
	return false
}

// unsafeTypes are standard types whose methods must not be called by two
// goroutines at once.
var unsafeTypes = map[string]bool{
	"bufio.Reader": true, "bufio.Writer": true, "bufio.ReadWriter": true, "bufio.Scanner": true,
	"bytes.Buffer": true, "bytes.Reader": true, "strings.Builder": true, "strings.Reader": true,
	"math/rand.Rand": true, "math/rand/v2.Rand": true, "math/rand/v2.PCG": true, "math/rand/v2.ChaCha8": true,
	"container/list.List": true,
}

// readMethods do not modify their receiver.
var readMethods = map[string]bool{"Len": true, "Cap": true, "Bytes": true, "String": true, "Available": true,
	"Buffered": true, "Size": true, "Sum": true, "BlockSize": true, "Front": true, "Back": true}

// uses returns a call that opens a window on every object statement s is about
// to use and that does not allow concurrent use (maps, some standard types).
func (f *fileInst) uses(s ast.Stmt) string {
	var xs []string
	flags := ""
	add := func(e ast.Expr, write bool) {
		if !f.pure(e) || !f.declaredBefore(e, s.Pos()) {
			return
		}
		t := f.typeOf(e)
		if t == nil {
			return
		}
		txt := string(f.src[f.off(e.Pos()):f.off(e.End())])
		switch t.Underlying().(type) {
		case *types.Struct:
			txt = "&" + txt
		case *types.Map, *types.Pointer, *types.Interface:
		default:
			return
		}
		xs = append(xs, txt)
		if write {
			flags += "w"
		} else {
			flags += "r"
		}
	}
	var walk func(e ast.Expr)
	list := func(es []ast.Expr) {
		for _, e := range es {
			walk(e)
		}
	}
	isMap := func(e ast.Expr) bool {
		t := f.typeOf(e)
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Map)
		return ok
	}
	walk = func(e ast.Expr) {
		switch x := e.(type) {
		case *ast.ParenExpr:
			walk(x.X)
		case *ast.UnaryExpr:
			walk(x.X)
		case *ast.StarExpr:
			walk(x.X)
		case *ast.BinaryExpr:
			walk(x.X)
			if x.Op != token.LAND && x.Op != token.LOR {
				walk(x.Y)
			}
		case *ast.SelectorExpr:
			walk(x.X)
		case *ast.SliceExpr:
			walk(x.X)
		case *ast.TypeAssertExpr:
			walk(x.X)
		case *ast.KeyValueExpr:
			walk(x.Value)
		case *ast.CompositeLit:
			list(x.Elts)
		case *ast.IndexExpr:
			if isMap(x.X) {
				add(x.X, false)
			}
			walk(x.X)
			walk(x.Index)
		case *ast.CallExpr:
			if tv, ok := f.info.Types[x.Fun]; ok && tv.IsBuiltin() {
				name := ""
				if id, ok := x.Fun.(*ast.Ident); ok {
					name = id.Name
				}
				if len(x.Args) > 0 && isMap(x.Args[0]) {
					add(x.Args[0], name == "delete" || name == "clear")
				}
				list(x.Args)
				return
			} else if ok && tv.IsType() {
				list(x.Args)
				return
			}
			foreign := false
			if se, ok := x.Fun.(*ast.SelectorExpr); ok {
				if sel := f.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
					foreign = sel.Obj().Pkg() == nil || !strings.HasPrefix(sel.Obj().Pkg().Path(), repoModule)
					if foreign && f.unsafeRecv(sel.Recv()) {
						add(se.X, !readMethods[se.Sel.Name])
					}
					walk(se.X)
				} else if o := f.info.Uses[se.Sel]; o != nil && o.Pkg() != nil {
					_, isFunc := o.(*types.Func)
					foreign = isFunc && !strings.HasPrefix(o.Pkg().Path(), repoModule) && (o.Pkg().Path() == "io" || o.Pkg().Path() == "encoding/binary")
				}
			}
			for _, a := range x.Args {
				if foreign && f.unsafeRecv(f.typeOf(a)) {
					add(a, true)
				}
				walk(a)
			}
		}
	}
	switch x := s.(type) {
	case *ast.ExprStmt:
		walk(x.X)
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			if ix, ok := l.(*ast.IndexExpr); ok && isMap(ix.X) {
				add(ix.X, true)
			} else if x.Tok != token.DEFINE {
				walk(l)
			}
		}
		list(x.Rhs)
	case *ast.IncDecStmt:
		if ix, ok := x.X.(*ast.IndexExpr); ok && isMap(ix.X) {
			add(ix.X, true)
		}
	case *ast.DeclStmt:
		if gd, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range gd.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					list(vs.Values)
				}
			}
		}
	case *ast.ReturnStmt:
		list(x.Results)
	case *ast.IfStmt:
		if a, ok := x.Init.(*ast.AssignStmt); ok {
			list(a.Rhs)
		}
		walk(x.Cond)
	case *ast.SwitchStmt:
		if x.Tag != nil && x.Init == nil {
			walk(x.Tag)
		}
	case *ast.RangeStmt:
		if isMap(x.X) {
			add(x.X, false)
		}
		walk(x.X)
	case *ast.ForStmt:
		if x.Init == nil && x.Cond != nil {
			walk(x.Cond)
		}
	case *ast.SendStmt:
		walk(x.Value)
	}
	if len(xs) == 0 {
		return ""
	}
	return fmt.Sprintf("simrt_.Use(%d, %q, func() []any { return []any{%s} });", f.site(s.Pos(), "use"), flags, strings.Join(xs, ", "))
}

// unsafeRecv reports whether a value of type t may be an object that does not
// allow concurrent use; interfaces are looked into at run time.
func (f *fileInst) unsafeRecv(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return true
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return unsafeTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
}

// declaredBefore reports whether all variables in e exist at pos.
func (f *fileInst) declaredBefore(e ast.Expr, pos token.Pos) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		if id, isID := n.(*ast.Ident); isID {
			switch o := f.info.Uses[id].(type) {
			case *types.Var:
				if !o.IsField() && o.Parent() != f.pkg.Scope() && o.Pos() >= pos {
					ok = false
				}
			case *types.PkgName:
				ok = ok && strings.HasPrefix(o.Imported().Path(), repoModule)
			case nil:
				ok = false
			}
		}
		return true
	})
	return ok
}
