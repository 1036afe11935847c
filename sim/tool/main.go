// Command simtool makes an instrumented copy of go-typeset for the simulator.
//
//	simtool -repo /repo -rt /verif/sim/rt -harness /verif/sim/harness -out DIR [-gen]
//
// The copy behaves like the original outside of a simulation. In a simulation:
//   - every statement is a scheduling point (functions which touch nothing shared only count their loop iterations),
//   - sync, sync/atomic, time, math/rand, channels, go statements and the iteration order of maps belong to the simulator,
//   - embedded files are read through a storage the simulator may make fail,
//   - package variables can be reset, so that every run is a cold start,
//   - with -gen, the generators (go:build ignore programs) become packages that run on a simulated disk and network.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	rtPath = "zsim/simrt"
)

var (
	repo    = flag.String("repo", "/repo", "source tree")
	rt      = flag.String("rt", "", "runtime sources")
	harness = flag.String("harness", "", "harness sources")
	out     = flag.String("out", "", "where to write the copy")
	doGen   = flag.Bool("gen", false, "instrument generators rather than the library")
)

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"simtool:"}, args...)...)
	os.Exit(2)
}

func check(err error) {
	if err != nil {
		fatal(err)
	}
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type file struct {
	name  string // relative path in the module
	src   []byte
	ast   *ast.File
	edits []edit
	tail  bytes.Buffer
	pkg   *pkg
	base  int // offset of the file in the file set
}

type pkg struct {
	path    string // import path
	rel     string // directory
	files   []*file
	imports []string
	types   *types.Package
	info    *types.Info
	isGen   bool
	resets  []string // statements of the reset function
	order   int
}

var (
	fset    = token.NewFileSet()
	modPath string
	pkgs    = map[string]*pkg{}
	order   []*pkg
	sites   []string
	ext     = map[string]string{} // external package -> export file
	shims   = map[string]map[string]bool{}
)

// libShims and genShims map standard packages to their simulated counterparts.
var (
	libShims = map[string]string{
		"sync":         "zsim/shim/xsync",
		"sync/atomic":  "zsim/shim/xatomic",
		"time":         "zsim/shim/xtime",
		"math/rand":    "zsim/shim/xrand",
		"math/rand/v2": "zsim/shim/xrand2",
		"crypto/rand":  "zsim/shim/xcrand",
		"hash/maphash": "zsim/shim/xmaphash",
		"context":      "zsim/shim/xcontext",
		"maps":         "zsim/shim/xmaps",
		"runtime":      "zsim/shim/xruntime",
		"os":           "zsim/shim/xosenv",
	}
	genShims = map[string]string{
		"os":            "zsim/gshim/xos",
		"flag":          "zsim/gshim/xflag",
		"io/ioutil":     "zsim/gshim/xioutil",
		"net/http":      "zsim/gshim/xhttp",
		"log":           "zsim/gshim/xlog",
		"path/filepath": "zsim/gshim/xfilepath",
		"time":          "zsim/shim/xtime",
		"sync":          "zsim/shim/xsync",
		"sync/atomic":   "zsim/shim/xatomic",
		"math/rand":     "zsim/shim/xrand",
		"math/rand/v2":  "zsim/shim/xrand2",
		"crypto/rand":   "zsim/shim/xcrand",
		"hash/maphash":  "zsim/shim/xmaphash",
		"context":       "zsim/shim/xcontext",
		"maps":          "zsim/shim/xmaps",
		"runtime":       "zsim/shim/xruntime",
	}
)

func main() {
	flag.Parse()
	modPath = moduleOf(filepath.Join(*repo, "go.mod"))
	for _, f := range []string{"go.mod", "go.sum"} {
		copyFile(filepath.Join(*repo, f), filepath.Join(*out, f))
	}
	bumpGo(filepath.Join(*out, "go.mod"))
	copyTree(*rt, filepath.Join(*out, "zsim"))
	for _, h := range strings.Split(*harness, ",") {
		copyTree(h, filepath.Join(*out, "zsim", "harness"))
	}
	loadShims()
	load()
	externals()
	check2()
	findAssigned()
	findQuiet()
	for _, p := range order {
		if p.isGen != *doGen {
			continue
		}
		for _, f := range p.files {
			instrument(f)
		}
		resetsOf(p)
		writePkg(p)
	}
	writeSites()
	if *doGen {
		return
	}
	// packages left as they are
	accessor()
}

func moduleOf(gomod string) string {
	b, err := os.ReadFile(gomod)
	check(err)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	fatal("no module in", gomod)
	return ""
}

// bumpGo lets the simulator use generics of go 1.21; the meaning of the code under test is the same.
func bumpGo(gomod string) {
	b, err := os.ReadFile(gomod)
	check(err)
	lines := strings.Split(string(b), "\n")
	for i, l := range lines {
		var minor int
		if n, _ := fmt.Sscanf(l, "go 1.%d", &minor); n == 1 && minor < 21 {
			lines[i] = "go 1.21"
		}
	}
	check(os.WriteFile(gomod, []byte(strings.Join(lines, "\n")), 0o644))
}

func copyFile(from, to string) {
	b, err := os.ReadFile(from)
	check(err)
	check(os.MkdirAll(filepath.Dir(to), 0o755))
	check(os.WriteFile(to, b, 0o644))
}

func copyTree(from, to string) {
	check(filepath.WalkDir(from, func(p string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		copyFile(p, filepath.Join(to, rel))
		return nil
	}))
}

// loadShims lists the exported names of the simulated packages.
func loadShims() {
	for _, m := range []map[string]string{libShims, genShims} {
		for _, dir := range m {
			names := map[string]bool{}
			ps, err := parser.ParseDir(token.NewFileSet(), filepath.Join(*out, dir), nil, 0)
			if err != nil {
				continue
			}
			for _, p := range ps {
				for _, f := range p.Files {
					for _, d := range f.Decls {
						switch d := d.(type) {
						case *ast.FuncDecl:
							if d.Recv == nil {
								names[d.Name.Name] = true
							}
						case *ast.GenDecl:
							for _, s := range d.Specs {
								switch s := s.(type) {
								case *ast.TypeSpec:
									names[s.Name.Name] = true
								case *ast.ValueSpec:
									for _, n := range s.Names {
										names[n.Name] = true
									}
								}
							}
						}
					}
				}
			}
			shims[dir] = names
		}
	}
}

func constraint(src []byte) string {
	for _, l := range strings.Split(string(src), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "//go:build ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "//go:build "))
		}
		if strings.HasPrefix(l, "package ") {
			break
		}
	}
	return ""
}

func load() {
	check(filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		if d.IsDir() {
			if rel != "." && (strings.HasPrefix(d.Name(), ".") || strings.HasPrefix(d.Name(), "_") || d.Name() == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !d.Type().IsRegular() || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if !strings.HasSuffix(p, ".go") {
			if rel != "go.mod" && rel != "go.sum" {
				copyFile(p, filepath.Join(*out, rel))
			}
			return nil
		}
		src, err := os.ReadFile(p)
		check(err)
		isGen := false
		switch c := constraint(src); c {
		case "":
		case "ignore":
			isGen = true
		case "verif":
			return nil
		default:
			if strings.Contains(c, "ignore") {
				isGen = true
			}
		}
		if isGen && !*doGen {
			return nil
		}
		fa, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		check(err)
		dir := path.Dir(filepath.ToSlash(rel))
		f := &file{name: filepath.ToSlash(rel), src: src, ast: fa, base: fset.File(fa.Pos()).Base()}
		key := path.Join(modPath, dir)
		if isGen {
			name := strings.TrimSuffix(path.Base(rel), ".go")
			key = path.Join(modPath, "zsim/gen", name)
			f.name = path.Join("zsim/gen", name, path.Base(rel))
			dir = path.Dir(f.name)
		} else if fa.Name.Name == "main" {
			return nil
		}
		pk := pkgs[key]
		if pk == nil {
			pk = &pkg{path: key, rel: dir, isGen: isGen}
			pkgs[key] = pk
		}
		f.pkg = pk
		pk.files = append(pk.files, f)
		return nil
	}))
	// simulated packages of the generators are type-checked from source
	if *doGen {
		for _, root := range []string{"zsim/gshim", "zsim/shim", "zsim/simrt"} {
			check(filepath.WalkDir(filepath.Join(*out, root), func(p string, d os.DirEntry, err error) error {
				if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") {
					return err
				}
				src, err := os.ReadFile(p)
				check(err)
				if constraint(src) == "race" {
					return nil
				}
				rel, _ := filepath.Rel(*out, p)
				fa, err := parser.ParseFile(fset, p, src, 0)
				check(err)
				dir := path.Dir(filepath.ToSlash(rel))
				key := path.Join(modPath, dir)
				pk := pkgs[key]
				if pk == nil {
					pk = &pkg{path: key, rel: dir}
					pkgs[key] = pk
				}
				pk.files = append(pk.files, &file{name: rel, src: src, ast: fa, pkg: pk, base: fset.File(fa.Pos()).Base()})
				return nil
			}))
		}
	}
	for _, p := range pkgs {
		seen := map[string]bool{}
		for _, f := range p.files {
			for _, s := range f.ast.Imports {
				ip, _ := strconv.Unquote(s.Path.Value)
				if p.isGen && genShims[ip] != "" {
					ip = path.Join(modPath, genShims[ip])
				}
				if !seen[ip] {
					seen[ip] = true
					p.imports = append(p.imports, ip)
				}
			}
		}
	}
	// dependency order
	done := map[string]int{}
	var keys []string
	for k := range pkgs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var visit func(k string)
	visit = func(k string) {
		p := pkgs[k]
		if p == nil || done[k] == 2 {
			return
		}
		if done[k] == 1 {
			fatal("import cycle at", k)
		}
		done[k] = 1
		sort.Strings(p.imports)
		for _, i := range p.imports {
			visit(i)
		}
		done[k] = 2
		p.order = len(order)
		order = append(order, p)
	}
	if *doGen {
		for _, k := range keys {
			if pkgs[k].isGen {
				visit(k)
			}
		}
		return
	}
	for _, k := range keys {
		visit(k)
	}
}

func externals() {
	need := map[string]bool{}
	for _, p := range order {
		for _, i := range p.imports {
			if pkgs[i] == nil && i != "unsafe" {
				need[i] = true
			}
		}
	}
	if len(need) == 0 {
		return
	}
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Export"}
	var names []string
	for n := range need {
		names = append(names, n)
	}
	sort.Strings(names)
	cmd := exec.Command("go", append(args, names...)...)
	cmd.Dir = *out
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	check(err)
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var e struct{ ImportPath, Export string }
		if err := dec.Decode(&e); err == io.EOF {
			break
		} else {
			check(err)
		}
		ext[e.ImportPath] = e.Export
	}
}

type imp struct {
	gc  types.Importer
	gen bool
}

func (i *imp) Import(p string) (*types.Package, error) {
	if i.gen && genShims[p] != "" {
		p = path.Join(modPath, genShims[p])
	}
	if pk := pkgs[p]; pk != nil {
		return pk.types, nil
	}
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	return i.gc.Import(p)
}

func check2() {
	gc := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		e := ext[p]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(e)
	})
	for _, p := range order {
		p.info = &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
		}
		conf := types.Config{Importer: &imp{gc: gc, gen: p.isGen}, Error: func(err error) {
			// unused results and the like do not matter here: the compiler decides
			fmt.Fprintln(os.Stderr, "simtool: type check:", err)
		}}
		var fs []*ast.File
		for _, f := range p.files {
			fs = append(fs, f.ast)
		}
		tp, err := conf.Check(p.path, fset, fs, p.info)
		if err != nil {
			fatal("type check failed for", p.path)
		}
		p.types = tp
	}
}

// assigned holds package variables which are modified after their initialisation.
var assigned = map[types.Object]bool{}

func root(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				_ = id
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func isPkgVar(o types.Object) bool {
	v, ok := o.(*types.Var)
	return ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
}

func findAssigned() {
	for _, p := range order {
		mark := func(e ast.Expr) {
			if id := root(e); id != nil {
				if o := p.info.Uses[id]; o != nil && isPkgVar(o) {
					assigned[o] = true
				}
				// qualified: pkg.Var = ...
				if sel, ok := e.(*ast.SelectorExpr); ok {
					if o := p.info.Uses[sel.Sel]; o != nil && isPkgVar(o) {
						assigned[o] = true
					}
				}
			}
		}
		for _, f := range p.files {
			for _, d := range f.ast.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.AssignStmt:
						for _, l := range n.Lhs {
							mark(l)
						}
					case *ast.IncDecStmt:
						mark(n.X)
					case *ast.UnaryExpr:
						if n.Op == token.AND {
							mark(n.X)
						}
					case *ast.RangeStmt:
						if n.Tok == token.ASSIGN {
							mark(n.Key)
							if n.Value != nil {
								mark(n.Value)
							}
						}
					case *ast.SelectorExpr:
						if s := p.info.Selections[n]; s != nil && s.Kind() == types.MethodVal {
							if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
								if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
									mark(n.X)
								}
							}
						}
					}
					return true
				})
			}
		}
	}
}

// quiet functions write nothing but their own variables and call only quiet functions.
var quiet = map[types.Object]bool{}

var pureStd = map[string]bool{
	"unicode/utf8.ValidRune": true, "unicode/utf8.RuneLen": true,
	"math.Abs": true, "math.Round": true, "math.Pow": true, "math.Floor": true, "math.Ceil": true,
}

func findQuiet() {
	type fn struct {
		p    *pkg
		decl *ast.FuncDecl
		obj  types.Object
	}
	var all []fn
	for _, p := range order {
		for _, f := range p.files {
			for _, d := range f.ast.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					all = append(all, fn{p, fd, p.info.Defs[fd.Name]})
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range all {
			if f.obj == nil || quiet[f.obj] {
				continue
			}
			if isQuiet(f.p, f.decl) {
				quiet[f.obj] = true
				changed = true
			}
		}
	}
}

func isQuiet(p *pkg, fd *ast.FuncDecl) bool {
	ok := true
	local := func(e ast.Expr) bool {
		id, is := e.(*ast.Ident)
		if !is {
			return false
		}
		if id.Name == "_" {
			return true
		}
		o := p.info.ObjectOf(id)
		return o != nil && !isPkgVar(o)
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if !ok {
			return false
		}
		switch n := n.(type) {
		case *ast.FuncLit, *ast.GoStmt, *ast.DeferStmt, *ast.SelectStmt, *ast.SendStmt:
			ok = false
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if !local(l) {
					ok = false
				}
			}
		case *ast.IncDecStmt:
			if !local(n.X) {
				ok = false
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND || n.Op == token.ARROW {
				ok = false
			}
		case *ast.RangeStmt:
			if t := p.info.TypeOf(n.X); t != nil {
				switch t.Underlying().(type) {
				case *types.Map, *types.Chan, *types.Signature:
					ok = false
				}
			}
		case *ast.CompositeLit:
			ok = false
		case *ast.Ident:
			if o := p.info.Uses[n]; o != nil && isPkgVar(o) && assigned[o] {
				ok = false
			}
		case *ast.CallExpr:
			if tv, has := p.info.Types[n.Fun]; has && tv.IsType() {
				return true // conversion
			}
			var o types.Object
			switch fun := n.Fun.(type) {
			case *ast.Ident:
				o = p.info.Uses[fun]
			case *ast.SelectorExpr:
				o = p.info.Uses[fun.Sel]
			}
			switch o := o.(type) {
			case *types.Builtin:
				switch o.Name() {
				case "len", "cap", "min", "max":
				default:
					ok = false
				}
			case *types.Func:
				if quiet[o] {
					return true
				}
				if o.Pkg() != nil && pureStd[o.Pkg().Path()+"."+o.Name()] {
					return true
				}
				ok = false
			default:
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (f *file) off(p token.Pos) int { return int(p) - f.base }

func (f *file) insert(p token.Pos, text string) {
	o := f.off(p)
	f.edits = append(f.edits, edit{o, o, text, len(f.edits)})
}

func (f *file) replace(p, e token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(e), text, len(f.edits)})
}

func (f *file) text(n ast.Node) string { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }

func site(f *file, p token.Pos) int {
	sites = append(sites, fmt.Sprintf("%s:%d", f.name, fset.Position(p).Line))
	return len(sites) - 1
}

func instrument(f *file) {
	p := f.pkg
	info := p.info
	// imports
	used := map[string]map[string]bool{}
	ast.Inspect(f.ast, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok {
					m := used[pn.Imported().Path()]
					if m == nil {
						m = map[string]bool{}
						used[pn.Imported().Path()] = m
					}
					m[s.Sel.Name] = true
				}
			}
		}
		return true
	})
	table := libShims
	if p.isGen {
		table = genShims
	}
	for _, s := range f.ast.Imports {
		ip, _ := strconv.Unquote(s.Path.Value)
		dir := table[ip]
		if dir == "" {
			continue
		}
		key := ip
		if p.isGen {
			key = path.Join(modPath, dir)
		}
		missing := ""
		for n := range used[key] {
			if !shims[dir][n] {
				missing = n
			}
		}
		if missing != "" {
			fmt.Fprintf(os.Stderr, "simtool: %s: %s.%s is not simulated, import left as it is\n", f.name, ip, missing)
			continue
		}
		text := strconv.Quote(path.Join(modPath, dir))
		if s.Name == nil {
			base := path.Base(ip)
			if base == "v2" {
				base = "rand"
			}
			text = base + " " + text
		}
		f.replace(s.Path.Pos(), s.Path.End(), text)
	}
	f.insert(f.ast.Name.End(), fmt.Sprintf("; import simrt %q", path.Join(modPath, rtPath)))
	fmt.Fprintf(&f.tail, "\nvar _ = simrt.Y\n")

	if p.isGen {
		f.replace(f.ast.Name.Pos(), f.ast.Name.End(), path.Base(p.rel))
		for _, c := range f.ast.Comments {
			for _, l := range c.List {
				if c.Pos() < f.ast.Package && strings.HasPrefix(l.Text, "//go:build") {
					f.replace(l.Pos(), l.Pos()+2, "// ")
				}
			}
		}
	}

	embeds(f)

	inits := 0
	for _, d := range f.ast.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body == nil {
				continue
			}
			if d.Recv == nil && d.Name.Name == "init" {
				name := fmt.Sprintf("simInit%d%s", inits, ident(f.name))
				inits++
				f.replace(d.Name.Pos(), d.Name.End(), name)
				fmt.Fprintf(&f.tail, "func init() { %s() }\n", name)
				p.resets = append(p.resets, "\x01"+name+"()") // after the variables
			}
			if p.isGen && d.Recv == nil && d.Name.Name == "main" {
				f.replace(d.Name.Pos(), d.Name.End(), "Main")
			}
			walk(f, d.Body, quiet[info.Defs[d.Name]])
		case *ast.GenDecl:
			ast.Inspect(d, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok {
					walk(f, fl.Body, false)
					return false
				}
				return true
			})
		}
	}
}

func ident(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

// embeds puts embedded file systems behind the simulator's storage.
func embeds(f *file) {
	keep := map[ast.Expr]bool{}
	for _, d := range f.ast.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			if !hasEmbed(gd.Doc) && !hasEmbed(vs.Doc) || len(vs.Names) != 1 || vs.Type == nil || f.text(vs.Type) != "embed.FS" {
				continue
			}
			keep[vs.Type] = true
			name := vs.Names[0].Name
			f.replace(vs.Names[0].Pos(), vs.Names[0].End(), "simEmbed"+name)
			fmt.Fprintf(&f.tail, "var %s = simrt.WrapEmbed(%q, simEmbed%s)\n", name, f.pkg.rel+"."+name, name)
			embedVars[f.pkg.info.Defs[vs.Names[0]]] = true
		}
	}
	ast.Inspect(f.ast, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && !keep[s] {
			if id, ok := s.X.(*ast.Ident); ok && s.Sel.Name == "FS" {
				if pn, ok := f.pkg.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "embed" {
					f.replace(s.Pos(), s.End(), "simrt.EmbedFS")
				}
			}
		}
		return true
	})
}

var embedVars = map[types.Object]bool{}

func hasEmbed(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed") {
			return true
		}
	}
	return false
}

// walk instruments a function body.
func walk(f *file, body *ast.BlockStmt, isQuiet bool) {
	info := f.pkg.info
	skip := map[ast.Node]bool{}
	list := func(l []ast.Stmt) {
		if isQuiet {
			return
		}
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			y := "Y"
			if hot(f, s) {
				y = "YH"
			}
			f.insert(s.Pos(), fmt.Sprintf("simrt.%s(%d);", y, site(f, s.Pos())))
		}
	}
	loop := func(b *ast.BlockStmt) {
		if isQuiet || len(b.List) == 0 {
			f.insert(b.Lbrace+1, "simrt.T();")
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			if !skip[n] {
				walk(f, n.Body, false)
			}
			return false
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
			if n.Comm != nil {
				ast.Inspect(n.Comm, func(m ast.Node) bool {
					if m != nil {
						skip[m] = true
					}
					return true
				})
			}
		case *ast.ForStmt:
			loop(n.Body)
		case *ast.RangeStmt:
			loop(n.Body)
			t := info.TypeOf(n.X)
			if t == nil {
				break
			}
			switch t.Underlying().(type) {
			case *types.Map:
				mapRange(f, n)
			case *types.Chan:
				chanRange(f, n)
			}
		case *ast.GoStmt:
			goStmt(f, n)
		case *ast.SelectStmt:
			selectStmt(f, n)
		case *ast.SendStmt:
			if !skip[n] {
				f.insert(n.Pos(), "simrt.Send(")
				f.replace(n.Arrow, n.Arrow+2, ",")
				f.insert(n.End(), ")")
			}
		case *ast.AssignStmt:
			if !skip[n] && len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					skip[u] = true
					f.replace(u.OpPos, u.OpPos+2, "simrt.Recv2(")
					f.insert(u.End(), ")")
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !skip[n] {
				f.replace(n.OpPos, n.OpPos+2, "simrt.Recv(")
				f.insert(n.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					f.replace(id.Pos(), id.End(), "simrt.Close")
				}
			}
		}
		return true
	})
}

func hot(f *file, s ast.Stmt) bool {
	info := f.pkg.info
	is := false
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		if is {
			return false
		}
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.Ident:
			if o := info.Uses[n]; o != nil && isPkgVar(o) && o.Pkg().Path() == f.pkg.path && assigned[o] {
				is = true
			}
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				switch l.(type) {
				case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
					is = true
				}
			}
		case *ast.IncDecStmt:
			if _, ok := n.X.(*ast.Ident); !ok {
				is = true
			}
		case *ast.GoStmt, *ast.SendStmt:
			is = true
		}
		return true
	}
	ast.Inspect(s, visit)
	return is
}

// selectStmt makes a switch of a select statement.
func selectStmt(f *file, n *ast.SelectStmt) {
	if len(n.Body.List) == 0 {
		f.replace(n.Select, n.Body.End(), "for { simrt.Forever() }")
		return
	}
	var names, inits []string
	def := false
	for _, s := range n.Body.List {
		if s.(*ast.CommClause).Comm == nil {
			def = true
		}
	}
	for i, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			continue // default
		}
		name := fmt.Sprintf("simCase%d", f.off(c.Pos()))
		k := len(names)
		head := fmt.Sprintf("case %d:", k)
		if !def && i == len(n.Body.List)-1 {
			head = "default:"
		}
		recv := func(e ast.Expr) string {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			return "simrt.RecvCase(" + f.text(e.(*ast.UnaryExpr).X) + ")"
		}
		switch c := c.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, "simrt.SendCase("+f.text(c.Chan)+", "+f.text(c.Value)+")")
		case *ast.ExprStmt:
			inits = append(inits, recv(c.X))
		case *ast.AssignStmt:
			inits = append(inits, recv(c.Rhs[0]))
			val := ".Val()"
			if len(c.Lhs) == 2 {
				val = ".Val2()"
			}
			var lhs []string
			for _, l := range c.Lhs {
				lhs = append(lhs, f.text(l))
			}
			head += " " + strings.Join(lhs, ", ") + " " + c.Tok.String() + " " + name + val + ";"
		}
		names = append(names, name)
		f.replace(c.Case, c.Colon+1, head)
	}
	if len(names) == 0 {
		f.replace(n.Select, n.Body.Lbrace, "switch simrt.Select(true) ")
		return
	}
	f.replace(n.Select, n.Body.Lbrace, fmt.Sprintf("switch %s := %s; simrt.Select(%v, %s) ", strings.Join(names, ", "), strings.Join(inits, ", "), def, strings.Join(names, ", ")))
}

func mapRange(f *file, n *ast.RangeStmt) {
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return f.text(e)
	}
	k, v := name(n.Key), name(n.Value)
	ref := func(s string) string {
		if s == "_" {
			return "nil"
		}
		return "&" + s
	}
	x0, x1 := n.X.Pos(), n.X.End()
	id := fmt.Sprintf("simIt%d", f.off(n.Pos()))
	var head string
	if n.Tok == token.DEFINE && (k != "_" || v != "_") {
		head = fmt.Sprintf("for %s, %s, %s := simrt.MapIter(", k, v, id)
	} else {
		head = fmt.Sprintf("for %s := simrt.MapIterOnly(", id)
	}
	f.replace(n.For, x0, head)
	f.insert(x1, fmt.Sprintf("); %s.Next(%s, %s); ", id, ref(k), ref(v)))
}

func chanRange(f *file, n *ast.RangeStmt) {
	x0, x1 := n.X.Pos(), n.X.End()
	id := fmt.Sprintf("simOK%d", f.off(n.Pos()))
	x := f.text(n.X)
	v := "_"
	if n.Key != nil {
		v = f.text(n.Key)
	}
	if n.Tok == token.ASSIGN {
		fatal("range over a channel with = is not supported at", fset.Position(n.Pos()))
	}
	f.replace(n.For, x0, fmt.Sprintf("for %s, %s := simrt.Recv2(", v, id))
	f.insert(x1, fmt.Sprintf("); %s; %s, %s = simrt.Recv2(%s) ", id, v, id, x))
}

func goStmt(f *file, n *ast.GoStmt) {
	c := n.Call
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		f.replace(n.Go, c.Fun.Pos(), "simrt.Go(")
		f.replace(c.Lparen, c.Rparen+1, ")")
		return
	}
	f.replace(n.Go, c.Fun.Pos(), "{simF := ")
	if len(c.Args) == 0 {
		f.replace(c.Lparen, c.Rparen+1, "; simrt.Go(func() { simF() })}")
		return
	}
	var names []string
	prev := c.Lparen
	for i, a := range c.Args {
		names = append(names, fmt.Sprintf("simA%d", i))
		f.replace(prev, a.Pos(), fmt.Sprintf("; simA%d := ", i))
		prev = a.End()
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	f.replace(prev, c.Rparen+1, fmt.Sprintf("; simrt.Go(func() { simF(%s%s) })}", strings.Join(names, ", "), dots))
}

// resetsOf generates the code that brings package variables back to their initial values.
func resetsOf(p *pkg) {
	initialised := map[types.Object]bool{}
	var inits []string
	for i, in := range p.info.InitOrder {
		var f *file
		for _, x := range p.files {
			if x.ast.FileStart <= in.Rhs.Pos() && in.Rhs.Pos() < x.ast.FileEnd {
				f = x
			}
		}
		var names []string
		blank := true
		for _, v := range in.Lhs {
			initialised[v] = true
			names = append(names, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank || f == nil {
			continue
		}
		fn := fmt.Sprintf("simReset%d", i)
		fmt.Fprintf(&f.tail, "func %s() { %s = %s }\n", fn, strings.Join(names, ", "), f.text(in.Rhs))
		inits = append(inits, fn+"()")
	}
	var zero []string
	scope := p.types.Scope()
	for _, n := range scope.Names() {
		if v, ok := scope.Lookup(n).(*types.Var); ok && !initialised[v] && !embedVars[v] {
			zero = append(zero, fmt.Sprintf("simrt.Zero(&%s)", n))
		}
	}
	all := append(zero, inits...)
	for _, r := range p.resets {
		all = append(all, strings.TrimPrefix(r, "\x01"))
	}
	last := p.files[len(p.files)-1]
	fmt.Fprintf(&last.tail, "func simResetAll() {\n")
	for _, s := range all {
		fmt.Fprintf(&last.tail, "\t%s\n", s)
	}
	fmt.Fprintf(&last.tail, "}\n\nvar _ = simrt.RegisterReset(%d, %q, simResetAll)\n", p.order, p.rel)
}

func writePkg(p *pkg) {
	for _, f := range p.files {
		// an insertion at the end of something goes before insertions at the start of what follows; outermost first
		sort.SliceStable(f.edits, func(i, j int) bool {
			a, b := f.edits[i], f.edits[j]
			if a.pos != b.pos {
				return a.pos < b.pos
			}
			if (a.end == a.pos) != (b.end == b.pos) {
				return a.end == a.pos // insertions before replacements
			}
			return a.seq < b.seq
		})
		var b bytes.Buffer
		at := 0
		for _, e := range f.edits {
			if e.pos < at {
				fatal(fmt.Sprintf("overlapping edits in %s at %d: %q", f.name, e.pos, e.text))
			}
			b.Write(f.src[at:e.pos])
			b.WriteString(e.text)
			at = e.end
		}
		b.Write(f.src[at:])
		b.Write(f.tail.Bytes())
		to := filepath.Join(*out, f.name)
		check(os.MkdirAll(filepath.Dir(to), 0o755))
		check(os.WriteFile(to, b.Bytes(), 0o644))
	}
}

func writeSites() {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package simrt\n\nfunc init() {\n\tSites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	fmt.Fprintf(&b, "\t}\n}\n")
	check(os.WriteFile(filepath.Join(*out, "zsim/simrt/zz_sites.go"), b.Bytes(), 0o644))
}

// accessor gives the harness access to the internal trie.
func accessor() {
	const dir = "wordbreak/hyphenator/zsimtrie"
	src := fmt.Sprintf(`package zsimtrie

import %q

// Trie is the store of rules.
type Trie interface {
	Get(key []rune) interface{}
	Put(key []rune, value interface{}) bool
	Delete(key []rune) bool
}

// New store.
func New() Trie { return trie.NewRuneTrie() }
`, path.Join(modPath, "wordbreak/hyphenator/internal/trie"))
	check(os.MkdirAll(filepath.Join(*out, dir), 0o755))
	check(os.WriteFile(filepath.Join(*out, dir, "zsimtrie.go"), []byte(src), 0o644))
}
