package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/unsafe-risk/utilx"
const zz = modPath + "/zzverif/"

// overlay maps every file below harnessDir to /repo/zzverif/...
func overlayFiles(repo, harnessDir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(harnessDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(harnessDir, p)
			out[filepath.Join(repo, "zzverif", rel)] = p
		}
		return nil
	})
	return out, err
}

// commands is every command of the module as an importable package with an
// exported main: /repo/cmd/x/f.go as /repo/zzcmd/x/f.go.
func commands(repo string) (map[string][]byte, error) {
	out := map[string][]byte{}
	files, _ := filepath.Glob(filepath.Join(repo, "cmd", "*", "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, b, parser.PackageClauseOnly)
		if err != nil {
			return nil, err
		}
		if a.Name.Name != "main" {
			continue
		}
		name := filepath.Base(filepath.Dir(f))
		at := fset.Position(a.Name.Pos()).Offset
		dir := filepath.Join(repo, "zzcmd", name)
		out[filepath.Join(dir, filepath.Base(f))] = append(append(append([]byte(nil), b[:at]...), name...), b[at+len("main"):]...)
		out[filepath.Join(dir, "zz_main.go")] = []byte("package " + name + "\n\nfunc ZZMain() { main() }\n")
	}
	return out, nil
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GO") && !strings.HasPrefix(kv, "GOCACHE=") && !strings.HasPrefix(kv, "GOPATH=") && !strings.HasPrefix(kv, "GOMODCACHE=") && !strings.HasPrefix(kv, "GOROOT=") {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "GO111MODULE=on")
}

type loaded struct {
	prog       *ssa.Program
	pkg        *ssa.Package // harness package
	ppkg       *packages.Package
	mods       *packages.Package
	repoSyntax []*packages.Package
}

func load(repo, harnessDir, hpkg string) (*loaded, error) {
	files, err := overlayFiles(repo, harnessDir)
	if err != nil {
		return nil, err
	}
	ov, err := commands(repo)
	if err != nil {
		return nil, err
	}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv(),
	}
	ps, err := packages.Load(cfg, "./zzverif/"+hpkg, "./zzverif/models")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs[:min(3, len(errs))], "; "))
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	l := &loaded{prog: prog}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) && !strings.HasPrefix(p.PkgPath, zz) {
			l.repoSyntax = append(l.repoSyntax, p)
		}
	})
	for i, p := range ps {
		if strings.HasSuffix(p.PkgPath, "/zzverif/"+hpkg) {
			l.pkg, l.ppkg = spkgs[i], p
		}
		if strings.HasSuffix(p.PkgPath, "/zzverif/models") {
			l.mods = p
		}
	}
	if l.pkg == nil {
		return nil, fmt.Errorf("harness package %s not found", hpkg)
	}
	return l, nil
}

func (e *Engine) isRepo(path string) bool {
	return (path == modPath || strings.HasPrefix(path, modPath+"/")) && !strings.HasPrefix(path, zz)
}

func (e *Engine) setup(l *loaded) {
	e.prog = l.prog
	rt := l.prog.ImportedPackage("runtime")
	if rt != nil {
		if t := rt.Type("errorString"); t != nil {
			e.rtErrType = t.Type()
		}
	}
	if e.rtErrType == nil {
		e.rtErrType = types.Universe.Lookup("error").Type()
	}
	for _, p := range l.repoSyntax {
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				if s, ok := n.(*ast.SelectorExpr); ok && (s.Sel.Name == "TryLock" || s.Sel.Name == "TryRLock") {
					e.usesTry = true
				}
				return true
			})
		}
	}
	// models
	if l.mods != nil {
		mp := l.prog.Package(l.mods.Types)
		for _, f := range l.mods.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if rest, ok := strings.CutPrefix(c.Text, "//sym:model "); ok {
						if fn := mp.Func(fd.Name.Name); fn != nil {
							e.models[strings.TrimSpace(rest)] = fn
						}
					}
				}
			}
		}
	}
}

// directives of a harness function (doc comment lines "//sym:opt k=v",
// "//sym:replace target model").
func directives(p *packages.Package, fn string) (opts map[string]string, repl [][2]string) {
	opts = map[string]string{}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != fn || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				if rest, ok := strings.CutPrefix(c.Text, "//sym:opt "); ok {
					for _, kv := range strings.Fields(rest) {
						k, v, _ := strings.Cut(kv, "=")
						opts[k] = v
					}
				}
				if rest, ok := strings.CutPrefix(c.Text, "//sym:replace "); ok {
					p := strings.Fields(rest)
					if len(p) == 2 {
						repl = append(repl, [2]string{p[0], p[1]})
					}
				}
			}
		}
	}
	return
}

// harnesses lists exported functions named H* of the package.
func harnesses(p *packages.Package) []string {
	var out []string
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Type.TypeParams == nil && strings.HasPrefix(fd.Name.Name, "C") && fd.Type.Params.NumFields() == 0 && len(fd.Name.Name) > 3 && fd.Name.Name[1] >= '0' && fd.Name.Name[1] <= '9' {
				out = append(out, fd.Name.Name)
			}
		}
	}
	return out
}

// lateID is below the ids of the globals first met after initialisation.
const lateID = int32(1 << 30)

func (e *Engine) globalID(g *ssa.Global) int32 {
	if id, ok := e.globals[g]; ok {
		return id
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	o := &Obj{cells: e.zeroCells(t, nil), shared: true, desc: g.String(), elem: t}
	if o.cells == nil {
		o.cells = []Value{}
	}
	var id int32
	if e.frozen {
		id = lateID + int32(len(e.late)) + 1
		e.late[id] = o
		if g.Pkg != nil && e.badInit[g.Pkg.Pkg.Path()] && e.hasInit[g] && g.String() != "internal/bytealg.MaxLen" {
			o.uninit = true
		}
	} else {
		st := e.initState
		id = st.alloc(o)
	}
	e.globals[g] = id
	return id
}

var initBlock = []string{"runtime", "internal/", "syscall", "os", "net", "reflect", "unicode", "golang.org/x/sys", "crypto/internal", "vendor/", "testing", "log", "math/rand", "crypto/", "hash/", "golang.org/x/crypto", "encoding/json", "regexp", "text/", "go/", "embed", "debug/", "sync", "fmt", "io/fs", "path", "compress", "archive", "mime", "html", "image", "database", "flag", "expvar", "iter", "unique", "weak", "runtime/debug", "math/big"}

var initAllow = map[string]bool{"internal/strconv": true, "golang.org/x/crypto/bcrypt": true, "internal/oserror": true, "io/fs": true, "path": true, "path/filepath": true, "unicode/utf8": true, "unicode/utf16": true}

func initBlocked(path string) bool {
	if initAllow[path] {
		return false
	}
	for _, b := range initBlock {
		if path == b || strings.HasSuffix(b, "/") && strings.HasPrefix(path, b) || !strings.HasSuffix(b, "/") && strings.HasPrefix(path, b+"/") {
			return true
		}
	}
	return false
}

func (e *Engine) markBadInit(p *ssa.Package) {
	if p == nil || e.badInit[p.Pkg.Path()] {
		return
	}
	e.badInit[p.Pkg.Path()] = true
	ini := p.Func("init")
	if ini == nil {
		return
	}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					a := s.Addr
					for {
						switch x := a.(type) {
						case *ssa.FieldAddr:
							a = x.X
							continue
						case *ssa.IndexAddr:
							a = x.X
							continue
						case *ssa.Global:
							e.hasInit[x] = true
						}
						break
					}
				}
			}
		}
	}
	scan(ini)
	for _, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init#") {
			scan(f)
		}
	}
}

// runInit executes package initialisers concretely and freezes the heap.
func (e *Engine) runInit(pkg, mods *ssa.Package) error {
	st := &State{e: e, own: e.newOwn(), base: &Heap{objs: []*Obj{nil}}, ov: map[int32]*Obj{}, nextObj: 1, names: map[string]int{}, initing: true}
	st.clock = e.c.BV(64, startClock)
	st.model = Model{}
	e.initState = st
	st.gs = []*G{{own: st.own}}
	todo := []*ssa.Package{pkg}
	if mods != nil {
		todo = []*ssa.Package{mods, pkg}
	}
	n := 0
	for {
		if len(st.gs[0].frames) == 0 || st.gs[0].status == gDone {
			if len(todo) == 0 {
				break
			}
			st.gs = []*G{{own: st.own}}
			st.pushFrame(e.cfunc(todo[0].Func("init")), nil, -1)
			todo = todo[1:]
		}
		n++
		if n > 20000000 {
			return fmt.Errorf("package initialisation does not finish")
		}
		// entering a blocked package initialiser: skip it
		f := st.top()
		if f.block == 0 && f.ip == 0 && f.fn.fn.Synthetic == "package initializer" {
			p := f.fn.fn.Pkg
			if initBlocked(p.Pkg.Path()) {
				e.markBadInit(p)
				st.doReturn(nil)
				continue
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					why := fmt.Sprint(r)
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "init abandoned: %v at %s\n", why, st.where())
					}
					st.forced, st.fpos, st.decs, st.insNames = nil, 0, nil, nil
					g := st.g()
					for len(g.frames) > 0 {
						t := g.frames[len(g.frames)-1]
						if t.fn.fn.Synthetic == "package initializer" {
							t.panicking, t.defers = nil, nil
							e.markBadInit(t.fn.fn.Pkg)
							if e.isRepo(t.fn.fn.Pkg.Pkg.Path()) {
								e.unsup["initialisation of "+t.fn.fn.Pkg.Pkg.Path()+": "+why]++
							}
							st.doReturn(nil)
							return
						}
						g.frames = g.frames[:len(g.frames)-1]
					}
				}
			}()
			st.step()
		}()
		if len(st.gs) > 1 {
			st.gs = st.gs[:1]
			st.multi = false
		}
	}
	// freeze
	e.base = &Heap{objs: make([]*Obj, st.nextObj)}
	for id, o := range st.ov {
		o.own = 0
		o.shared = true
		e.base.objs[id] = o
	}
	for g, id := range e.globals {
		if g.Pkg != nil && e.badInit[g.Pkg.Pkg.Path()] && e.hasInit[g] {
			o := e.base.objs[id]
			allZero := true
			z := e.zeroCells(o.elem, nil)
			for i := range z {
				if !sameVal(z[i], o.cells[i]) && !reflect.DeepEqual(z[i], o.cells[i]) {
					allZero = false
				}
			}
			if allZero && g.String() != "internal/bytealg.MaxLen" { // zero: no assembly Index
				o.uninit = true
			}
		}
	}
	e.frozen = true
	e.fns = map[*ssa.Function]bool{}
	e.nsteps = 0
	return nil
}

// 2033-05-18 03:33:20 UTC in nanoseconds since the Unix epoch
const startClock = 2000000000 * 1000000000

func (e *Engine) newState(fn *ssa.Function) *State {
	st := &State{e: e, own: e.newOwn(), base: e.base, ov: map[int32]*Obj{}, nextObj: int32(len(e.base.objs)), names: map[string]int{}}
	st.model = Model{}
	st.clock = e.c.BV(64, startClock)
	st.gs = []*G{{own: st.own}}
	e.nodes = []graphNode{{}}
	st.pushFrame(e.cfunc(fn), nil, -1)
	return st
}

// markReadOnly finds repo globals that are only written by initialisers.
func (e *Engine) markReadOnly() {
	written := map[*ssa.Global]bool{}
	for f := range ssautil.AllFunctions(e.prog) {
		p := fnPkg(f)
		if p == nil || !(e.isRepo(p.Path()) || strings.HasPrefix(p.Path(), zz)) {
			continue
		}
		isInit := f.Synthetic == "package initializer"
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.UnOp); ok {
					_ = u
					continue
				}
				if isInit {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						written[g] = true
					}
				}
			}
		}
	}
	for g, id := range e.globals {
		if int(id) < len(e.base.objs) && !written[g] && e.base.objs[id] != nil {
			e.base.objs[id].ronly = true
		}
	}
}
