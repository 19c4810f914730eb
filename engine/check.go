package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type checkArgs struct {
	verif, repo, id, tier, only string
	jobs, budget, seed          int
	keep                        bool
}

type hinfo struct {
	pkg, fn string
	opts    map[string]string
	labels  []string
	doc     string
	repl    [][2]string // replaced functions and their stand-ins
}

// findHarnesses lists the harness functions of a property.
func findHarnesses(dir, id, tier string) ([]hinfo, error) {
	var out []hinfo
	files, _ := filepath.Glob(dir + "/*/*.go")
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if !bytes.Contains(b, []byte("func "+id)) {
			continue
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, b, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Type.Params.NumFields() != 0 || !strings.HasPrefix(fd.Name.Name, id+"_") {
				continue
			}
			o := map[string]string{}
			var doc []string
			var repl [][2]string
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if rest, ok := strings.CutPrefix(c.Text, "//sym:opt "); ok {
						for _, kv := range strings.Fields(rest) {
							k, v, _ := strings.Cut(kv, "=")
							o[k] = v
						}
					} else if rest, ok := strings.CutPrefix(c.Text, "//sym:replace "); ok {
						if p := strings.Fields(rest); len(p) == 2 {
							repl = append(repl, [2]string{p[0], p[1]})
						}
					} else if !strings.HasPrefix(c.Text, "//sym:") {
						doc = append(doc, strings.TrimSpace(strings.TrimPrefix(c.Text, "//")))
					}
				}
			}
			o = tierOpts(o, tier)
			if t := o["tier"]; t != "" && t != tier {
				continue
			}
			h := hinfo{pkg: filepath.Base(filepath.Dir(f)), fn: fd.Name.Name, opts: o, doc: strings.Join(doc, " "), repl: repl}
			ast.Inspect(fd, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Reach" && len(c.Args) == 1 {
						if l, ok := c.Args[0].(*ast.BasicLit); ok {
							h.labels = append(h.labels, strings.Trim(l.Value, "\""))
						}
					}
				}
				return true
			})
			out = append(out, h)
		}
	}
	return out, nil
}

// ---- native runner

const runnerSrc = `package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"time"

	h "github.com/unsafe-risk/utilx/zzverif/@PKG@"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

var table = map[string]func(){
@TABLE@}

type inCase struct {
	Harness string
	Vals    map[string]uint64
	Params  map[string]int
	Tier    string
	Repeat  int
	Timeout int
	Seed    int64
	Mode    int
}

type outCase struct {
	I       int
	Status  string
	Msg     string
	Fails   []string
	Obs     []string
	Reached []string
	Runs    int
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cs []inCase
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	out, err := os.OpenFile(os.Args[2], os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		panic(err)
	}
	emit := func(v any) {
		b, _ := json.Marshal(v)
		out.Write(append(b, '\n'))
	}
	for i, c := range cs {
		emit(map[string]int{"Start": i})
		f := table[c.Harness]
		if f == nil {
			panic("no harness " + c.Harness)
		}
		if c.Repeat < 1 {
			c.Repeat = 1
		}
		var o outCase
		deadline := time.Now().Add(time.Duration(c.Timeout) * time.Millisecond)
		for r := 0; r < c.Repeat; r++ {
			sc := &sym.Case{Vals: c.Vals, Params: c.Params, Tier: c.Tier}
			if c.Seed != 0 {
				sc.Rand = rand.New(rand.NewSource(c.Seed + int64(r)))
			}
			done := make(chan outCase, 1)
			runtime.GC()
			go func() {
				var o outCase
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(sym.AssumeFailed); ok {
							o.Status = "assume"
						} else {
							o.Status = "panic"
							o.Msg = fmt.Sprint(x)
						}
					}
					o.Fails, o.Obs = sc.Fails, sc.Obs
					for k := range sc.Reachd {
						o.Reached = append(o.Reached, k)
					}
					done <- o
				}()
				sym.Begin(sc)
				h.ZZHooks(c.Harness)
				f()
				o.Status = "ok"
			}()
			left := time.Until(deadline)
			if left < 50*time.Millisecond {
				left = 50 * time.Millisecond
			}
			select {
			case o = <-done:
			case <-time.After(left):
				o = outCase{I: i, Status: "hang", Fails: append([]string(nil), sc.Fails...), Runs: r + 1}
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				o.Msg = first(string(buf[:n]), 3000)
				emit(o)
				os.Exit(3)
			}
			o.I, o.Runs = i, r+1
			if len(o.Fails) > 0 || o.Status == "panic" || time.Now().After(deadline) {
				break
			}
		}
		emit(o)
	}
}

func first(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return strings.TrimSpace(s)
}
`

type nativeCase struct {
	Harness string
	Vals    map[string]uint64
	Params  map[string]int
	Tier    string
	Repeat  int
	Timeout int
	Seed    int64
	Mode    int
}

type nativeOut struct {
	Start   *int
	I       int
	Status  string
	Msg     string
	Fails   []string
	Obs     []string
	Reached []string
	Runs    int
}

type native struct {
	a    checkArgs
	tmp  string
	bins map[string]string // pkg -> binary
	errs map[string]string
	race map[string]string
	mu   sync.Mutex
	// harnesses whose stand-ins are installed in the native build too
	hooked map[string]bool
	hs     []hinfo
}

// hooks makes replaced functions of the repository replaceable in the native
// build: the original is renamed, its old name calls the installed stand-in.
// It returns overlay files and the source of the harness package's ZZHooks.
func hooks(repo, hdir, pkg string, hs []hinfo) (map[string][]byte, []byte, map[string]bool) {
	files := map[string][]byte{}
	hooked := map[string]bool{}
	imports := map[string]string{}
	var off, on strings.Builder
	reset := ""
	srcs, _ := filepath.Glob(filepath.Join(hdir, pkg, "*.go"))
	for _, f := range srcs {
		if b, _ := os.ReadFile(f); strings.Contains(string(b), "\nfunc zzreset() {") {
			reset = "\tzzreset()\n"
		}
	}
	done := map[string]bool{}
	for _, h := range hs {
		if h.pkg != pkg || len(h.repl) == 0 {
			continue
		}
		var set strings.Builder
		all := true
		for _, r := range h.repl {
			dot := strings.LastIndex(r[0], ".")
			if dot < 0 || !strings.HasPrefix(r[0], modPath+"/") || strings.ContainsAny(r[0], "()") {
				all = false
				continue
			}
			path, name := r[0][:dot], r[0][dot+1:]
			if !done[r[0]] {
				if !hookFunc(filepath.Join(repo, strings.TrimPrefix(path, modPath)), name, files) {
					all = false
					continue
				}
				done[r[0]] = true
				if imports[path] == "" {
					imports[path] = fmt.Sprintf("p%d", len(imports))
				}
				fmt.Fprintf(&off, "\t%s.ZZHook_%s = nil\n", imports[path], name)
			}
			fmt.Fprintf(&set, "\t\t%s.ZZHook_%s = %s\n", imports[path], name, r[1])
		}
		if set.Len() > 0 {
			fmt.Fprintf(&on, "\tcase %q:\n%s", h.fn, set.String())
		}
		hooked[h.fn] = all
	}
	var src strings.Builder
	fmt.Fprintf(&src, "package %s\n\n", pkg)
	for p, n := range imports {
		fmt.Fprintf(&src, "import %s %q\n", n, p)
	}
	fmt.Fprintf(&src, "\nfunc ZZHooks(fn string) {\n%s%s\tswitch fn {\n%s\t}\n}\n", off.String(), reset, on.String())
	return files, []byte(src.String()), hooked
}

func hookFunc(dir, name string, files map[string][]byte) bool {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b := files[f]
		if b == nil {
			var err error
			if b, err = os.ReadFile(f); err != nil {
				continue
			}
		}
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, b, 0)
		if err != nil {
			continue
		}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Type.TypeParams != nil || fd.Name.Name != name {
				continue
			}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			sig := string(b[off(fd.Type.Params.Pos()):off(fd.Type.End())])
			var args []string
			for _, p := range fd.Type.Params.List {
				if _, dots := p.Type.(*ast.Ellipsis); dots || len(p.Names) == 0 {
					return false
				}
				for _, n := range p.Names {
					if n.Name == "_" {
						return false
					}
					args = append(args, n.Name)
				}
			}
			call := "(" + strings.Join(args, ", ") + ")"
			ret := ""
			if fd.Type.Results.NumFields() > 0 {
				ret = "return "
			}
			end := "\n\treturn\n"
			if ret != "" {
				end = "\n"
			}
			at := off(fd.Name.Pos())
			t := string(b[:at]) + "zzreal_" + string(b[at:])
			t += fmt.Sprintf("\n\nvar ZZHook_%s func%s\n\nfunc %s%s {\n\tif ZZHook_%s != nil {\n\t\t%sZZHook_%s%s%s\t}\n\t%szzreal_%s%s\n}\n", name, sig, name, sig, name, ret, name, call, end, ret, name, call)
			files[f] = []byte(t)
			return true
		}
	}
	return false
}

func (n *native) build(pkg string, fns []string, race bool) (string, error) {
	bin, err := n.buildWith(pkg, fns, race, n.hs)
	if err != nil {
		// without stand-ins
		var hs []hinfo
		for _, h := range n.hs {
			h.repl = nil
			hs = append(hs, h)
		}
		return n.buildWith(pkg, fns, race, hs)
	}
	return bin, nil
}

func (n *native) buildWith(pkg string, fns []string, race bool, hs []hinfo) (string, error) {
	dir := filepath.Join(n.tmp, "run_"+pkg)
	os.MkdirAll(dir, 0o755)
	var tb strings.Builder
	for _, f := range fns {
		fmt.Fprintf(&tb, "\t%q: h.%s,\n", f, f)
	}
	src := strings.NewReplacer("@PKG@", pkg, "@TABLE@", tb.String()).Replace(runnerSrc)
	main := filepath.Join(dir, "main.go")
	if err := os.WriteFile(main, []byte(src), 0o644); err != nil {
		return "", err
	}
	files, err := overlayFiles(n.a.repo, n.a.verif+"/harness")
	if err != nil {
		return "", err
	}
	ov := map[string]string{}
	for k, v := range files {
		if strings.Contains(k, "/zzverif/models/") {
			continue
		}
		ov[k] = v
	}
	cmds, err := commands(n.a.repo)
	if err != nil {
		return "", err
	}
	for dst, text := range cmds {
		src := filepath.Join(dir, fmt.Sprintf("cmd%d.go", len(ov)))
		if err := os.WriteFile(src, text, 0o644); err != nil {
			return "", err
		}
		ov[dst] = src
	}
	put := func(dst string, text []byte) error {
		src := filepath.Join(dir, fmt.Sprintf("gen%d.go", len(ov)))
		ov[dst] = src
		return os.WriteFile(src, text, 0o644)
	}
	hf, hsrc, hooked := hooks(n.a.repo, n.a.verif+"/harness", pkg, hs)
	for dst, text := range hf {
		if err := put(dst, text); err != nil {
			return "", err
		}
	}
	if err := put(filepath.Join(n.a.repo, "zzverif", pkg, "zz_hooks.go"), hsrc); err != nil {
		return "", err
	}
	ov[filepath.Join(n.a.repo, "zzverif", "zzrun", "main.go")] = main
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, b, 0o644)
	bin := filepath.Join(dir, "run")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if race {
		bin += "_race"
		args = []string{"build", "-race", "-overlay", ovf, "-o", bin}
	}
	c := exec.Command("go", append(args, "./zzverif/zzrun")...)
	c.Dir = n.a.repo
	env := goEnv()
	if race {
		for i := range env {
			if env[i] == "CGO_ENABLED=0" {
				env[i] = "CGO_ENABLED=1"
			}
		}
	}
	c.Env = env
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build of %s failed: %s", pkg, tail(string(out), 800))
	}
	n.mu.Lock()
	for k, v := range hooked {
		n.hooked[k] = v
	}
	n.mu.Unlock()
	return bin, nil
}

func tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// runCases executes the cases in as few processes as possible.
func (n *native) runCases(bin string, cs []nativeCase, fresh bool) []nativeOut {
	outs := make([]nativeOut, len(cs))
	i := 0
	for i < len(cs) {
		batch := cs[i:]
		if fresh {
			batch = cs[i : i+1]
		}
		got := n.runBatch(bin, batch)
		if len(got) == 0 {
			outs[i] = nativeOut{Status: "error"}
			i++
			continue
		}
		for k, o := range got {
			outs[i+k] = o
		}
		i += len(got)
	}
	return outs
}

var batchNo int

func (n *native) runBatch(bin string, cs []nativeCase) []nativeOut {
	n.mu.Lock()
	batchNo++
	id := batchNo
	n.mu.Unlock()
	in := filepath.Join(n.tmp, fmt.Sprintf("in%d.json", id))
	of := filepath.Join(n.tmp, fmt.Sprintf("out%d.json", id))
	work := filepath.Join(n.tmp, fmt.Sprintf("cwd%d", id))
	os.MkdirAll(work, 0o755)
	defer os.RemoveAll(work)
	defer os.Remove(in)
	defer os.Remove(of)
	b, _ := json.Marshal(cs)
	os.WriteFile(in, b, 0o644)
	total := 10
	for _, c := range cs {
		total += c.Timeout/1000 + 1
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(total)*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, in, of)
	c.SysProcAttr = dieWithParent()
	c.Dir = work
	c.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GORACE=halt_on_error=1 exitcode=66")
	var eb bytes.Buffer
	c.Stderr = &eb
	c.Stdout = &eb
	c.Run()
	f, err := os.Open(of)
	if err != nil {
		return nil
	}
	defer f.Close()
	var got []nativeOut
	started := -1
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var o nativeOut
		if json.Unmarshal(sc.Bytes(), &o) != nil {
			break
		}
		if o.Start != nil {
			started = *o.Start
			continue
		}
		got = append(got, o)
	}
	if started == len(got) { // died inside a case
		st := "crash"
		if strings.Contains(eb.String(), "DATA RACE") {
			st = "race"
		}
		got = append(got, nativeOut{I: started, Status: st, Msg: tail(eb.String(), 3000)})
	}
	return got
}

func envInput(name string) bool {
	for _, p := range []string{"uf.", "sched#", "select#", "partner#", "pool", "rand", "maporder", "env."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (n *native) toVals(h hinfo, in []InVal) (map[string]uint64, bool) {
	m := map[string]uint64{}
	env := false
	for _, v := range in {
		m[v.Name] = v.Val
		if envInput(v.Name) && !(n.hooked[h.fn] && strings.HasPrefix(v.Name, "rand.")) {
			env = true
		}
	}
	return m, env
}

// ---- known findings

type finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"` // regexp over "<kind>: <msg> @ <where>"
	What     string `json:"what"`
}

type findingsFile struct {
	Findings []finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

func (f *findingsFile) match(id string, v *Violation) *finding {
	for i := range f.Findings {
		k := &f.Findings[i]
		if k.Property != id || k.Harness != "" && k.Harness != v.Harness {
			continue
		}
		if ok, err := regexp.MatchString(k.Match, v.Kind+": "+v.Msg+" @ "+v.Where); err == nil && ok {
			return k
		}
	}
	return nil
}

// ---- check

type vrec struct {
	V          *Violation `json:"violation"`
	Pkg        string     `json:"pkg"`
	Native     string     `json:"native"` // outcome of the run on the compiled code
	NativeMsg  string     `json:"native_msg,omitempty"`
	Reexecuted bool       `json:"reexecuted"` // engine run with every input forced to the counterexample
	Confirmed  bool       `json:"confirmed"`
}

func check(a checkArgs) int {
	t0 := time.Now()
	if a.id == "" {
		fatal("no property id")
	}
	hs, err := findHarnesses(a.verif+"/harness", a.id, a.tier)
	if err != nil {
		fatal("%v", err)
	}
	if a.only != "" {
		var f []hinfo
		for _, h := range hs {
			if strings.Contains(h.fn, a.only) {
				f = append(f, h)
			}
		}
		hs = f
	}
	if len(hs) == 0 {
		fatal("no harness for %s", a.id)
	}
	tmp, err := os.MkdirTemp("", "gosym-"+a.id+"-")
	if err != nil {
		fatal("%v", err)
	}
	if !a.keep {
		defer os.RemoveAll(tmp)
	}
	var kf findingsFile
	if b, err := os.ReadFile(a.verif + "/known-findings.json"); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fatal("known-findings.json: %v", err)
		}
	}
	n := &native{a: a, tmp: tmp, bins: map[string]string{}, errs: map[string]string{}, race: map[string]string{}, hooked: map[string]bool{}, hs: hs}
	// native builds run next to the symbolic workers
	pk := map[string][]string{}
	for _, h := range hs {
		pk[h.pkg] = append(pk[h.pkg], h.fn)
	}
	ready := make(chan struct{})
	go func() {
		defer close(ready)
		for p, fns := range pk {
			b, err := n.build(p, fns, false)
			if err != nil {
				n.errs[p] = err.Error()
				continue
			}
			n.bins[p] = b
		}
	}()
	self, _ := os.Executable()
	type job struct {
		h     hinfo
		i, n  int
		tmout int
	}
	var jobs []job
	for _, h := range hs {
		k := optInt(h.opts, "shards", 1)
		to := optInt(h.opts, "timeout", map[string]int{"quick": 60, "thorough": 600}[a.tier])
		if a.budget > 0 {
			to = a.budget
		}
		for i := 0; i < k; i++ {
			jobs = append(jobs, job{h, i, k, to})
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var mu sync.Mutex
	var results []*WorkResult
	var recs []*vrec
	stop := false
	sem := make(chan struct{}, a.jobs)
	var wg sync.WaitGroup
	hmap := map[string]hinfo{}
	for _, h := range hs {
		hmap[h.fn] = h
	}
	nMis, nVal, nConc := 0, 0, 0
	var misMsgs []string
	for k, j := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func(k int, j job) {
			defer wg.Done()
			defer func() { <-sem }()
			mu.Lock()
			if stop {
				mu.Unlock()
				return
			}
			mu.Unlock()
			of := filepath.Join(tmp, fmt.Sprintf("res%d.json", k))
			c := exec.CommandContext(ctx, self, "work", "-repo="+a.repo, "-verif="+a.verif, "-pkg="+j.h.pkg, "-fn="+j.h.fn, "-tier="+a.tier,
				fmt.Sprintf("-shard=%d", j.i), fmt.Sprintf("-shards=%d", j.n), fmt.Sprintf("-timeout=%d", j.tmout), "-out="+of)
			c.SysProcAttr = dieWithParent()
			var eb bytes.Buffer
			c.Stderr = &eb
			err := c.Run()
			r := &WorkResult{Harness: j.h.fn, Pkg: j.h.pkg, Shard: j.i, Shards: j.n}
			if b, e2 := os.ReadFile(of); e2 == nil {
				json.Unmarshal(b, r)
			} else if ctx.Err() != nil {
				return
			} else {
				r.Err = fmt.Sprintf("worker died: %v %s", err, tail(eb.String(), 300))
			}
			<-ready
			var mine []*vrec
			for _, v := range r.Viol {
				mine = append(mine, n.confirm(j.h, v, self))
			}
			if n.bins[j.h.pkg] != "" && len(r.Samples) > 0 && j.h.opts["native"] != "no" {
				m, v, cc, msgs := n.validate(j.h, r)
				mu.Lock()
				nMis += m
				nVal += v
				nConc += cc
				misMsgs = append(misMsgs, msgs...)
				mu.Unlock()
			}
			mu.Lock()
			results = append(results, r)
			recs = append(recs, mine...)
			for _, x := range mine {
				if x.Confirmed && kf.match(a.id, x.V) == nil {
					stop = true
					cancel()
				}
			}
			mu.Unlock()
		}(k, j)
	}
	wg.Wait()
	<-ready
	sort.Slice(results, func(i, j int) bool {
		if results[i].Harness != results[j].Harness {
			return results[i].Harness < results[j].Harness
		}
		return results[i].Shard < results[j].Shard
	})
	return report(a, t0, hs, results, recs, &kf, n, nMis, nVal, nConc, misMsgs)
}

// confirm replays a counterexample on the compiled code and in the engine.
func (n *native) confirm(h hinfo, v *Violation, self string) *vrec {
	r := &vrec{V: v, Pkg: h.pkg, Native: "not-run"}
	vals, env := n.toVals(h, v.Inputs)
	conc := h.opts["conc"] == "1"
	if bin := n.bins[h.pkg]; bin != "" && h.opts["native"] != "no" {
		c := nativeCase{Harness: h.fn, Vals: vals, Tier: n.a.tier, Repeat: 1, Timeout: optInt(h.opts, "ntimeout", 8000), Params: params(h.opts)}
		if conc {
			c.Repeat, c.Seed = optInt(h.opts, "nrepeat", 300), int64(n.a.seed)
		} else if env {
			c.Repeat = 50
		}
		o := n.runCases(bin, []nativeCase{c}, true)[0]
		r.Native, r.NativeMsg = o.Status, o.Msg
		if len(o.Fails) > 0 {
			r.Native, r.NativeMsg = "assert", strings.Join(o.Fails, "; ")
		}
		switch r.Native {
		case "assert", "panic", "crash", "hang", "race":
			r.Confirmed = true
		}
	}
	if !r.Confirmed && (conc || env || h.opts["native"] == "no") {
		// the failing behaviour depends on a schedule or on an environment
		// choice the native run cannot be forced to make: re-execute the
		// exact counterexample over the code of the repository
		f := filepath.Join(n.tmp, fmt.Sprintf("force_%s_%d.json", h.fn, time.Now().UnixNano()))
		b, _ := json.Marshal(v.Inputs)
		os.WriteFile(f, b, 0o644)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		c := exec.CommandContext(ctx, self, "work", "-repo="+n.a.repo, "-verif="+n.a.verif, "-pkg="+h.pkg, "-fn="+h.fn, "-tier="+n.a.tier, "-force="+f, "-timeout=50")
		c.SysProcAttr = dieWithParent()
		out, err := c.Output()
		if err == nil {
			var w WorkResult
			if json.Unmarshal(out, &w) == nil {
				for _, x := range w.Viol {
					if x.Kind == v.Kind || v.Kind == "livelock" {
						r.Reexecuted, r.Confirmed = true, true
					}
				}
			}
		}
		if v.Kind == "livelock" {
			// decided on the state graph, there is no single failing run
			r.Confirmed = true
		}
	}
	return r
}

func params(o map[string]string) map[string]int {
	m := map[string]int{}
	for k := range o {
		if p, ok := strings.CutPrefix(k, "param."); ok {
			m[p] = optInt(o, k, 0)
		}
	}
	return m
}

// validate runs sampled paths natively: the compiled code must follow the
// path the encoding predicts.
func (n *native) validate(h hinfo, r *WorkResult) (mis, val, conc int, msgs []string) {
	var cs []nativeCase
	for _, s := range r.Samples {
		vals, _ := n.toVals(h, s.Inputs)
		cs = append(cs, nativeCase{Harness: h.fn, Vals: vals, Tier: n.a.tier, Repeat: 1, Timeout: optInt(h.opts, "ntimeout", 8000), Params: params(h.opts)})
	}
	if h.opts["conc"] == "1" && len(cs) > 6 {
		cs = cs[:6]
	}
	outs := n.runCases(n.bins[h.pkg], cs, h.opts["fresh"] == "1")
	for i, o := range outs {
		s := r.Samples[i]
		_, env := n.toVals(h, s.Inputs)
		if h.opts["conc"] == "1" || env {
			if o.Status == "ok" && len(o.Fails) == 0 {
				conc++
				if env && h.opts["conc"] != "1" && h.opts["envobs"] == "1" {
					if s.HasObs && strings.Join(o.Obs, "|") != strings.Join(s.Obs, "|") {
						mis++
						msgs = append(msgs, fmt.Sprintf("%s: observations differ: engine %v native %v inputs %v", h.fn, s.Obs, o.Obs, s.Inputs))
					}
				}
			} else if o.Status != "assume" {
				mis++
				msgs = append(msgs, fmt.Sprintf("%s: native run %s %v %s", h.fn, o.Status, o.Fails, tail(o.Msg, 200)))
			}
			continue
		}
		if len(r.Viol) > 0 && (o.Status != "ok" || len(o.Fails) > 0) {
			continue // a failing build: paths may fail for the reported reason
		}
		if o.Status != "ok" || len(o.Fails) > 0 {
			mis++
			msgs = append(msgs, fmt.Sprintf("%s: engine finished the path, native run: %s %v %s inputs %v", h.fn, o.Status, o.Fails, tail(o.Msg, 200), s.Inputs))
			continue
		}
		if s.HasObs && strings.Join(o.Obs, "|") != strings.Join(s.Obs, "|") {
			mis++
			msgs = append(msgs, fmt.Sprintf("%s: observations differ: engine %v native %v inputs %v", h.fn, s.Obs, o.Obs, s.Inputs))
			continue
		}
		val++
	}
	return
}
