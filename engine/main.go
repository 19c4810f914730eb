package main

import (
	"encoding/json"
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// WorkResult is what one worker process reports for one shard of a harness.
type WorkResult struct {
	Harness  string            `json:"harness"`
	Pkg      string            `json:"pkg"`
	Shard    int               `json:"shard"`
	Shards   int               `json:"shards"`
	Err      string            `json:"err,omitempty"`
	Paths    int64             `json:"paths"`
	Killed   int64             `json:"killed"`
	Steps    int64             `json:"steps"`
	Forks    int64             `json:"forks"`
	Diamonds int64             `json:"diamonds"`
	Merges   int               `json:"merges"`
	Nodes    int64             `json:"nodes"`
	Edges    int64             `json:"edges"`
	Dups     int64             `json:"dups"`
	Queries  int               `json:"queries"`
	Sat      int               `json:"sat"`
	Unsat    int               `json:"unsat"`
	Unknown  int               `json:"unknown"`
	Cached   int               `json:"cached"`
	Order    int               `json:"order"`
	SolverS  float64           `json:"solver_s"`
	MaxQ     float64           `json:"max_query_s"`
	Cross    int               `json:"cross"`
	Disagree int               `json:"disagree"`
	WallS    float64           `json:"wall_s"`
	TimedOut bool              `json:"timed_out"`
	Unsup    map[string]int    `json:"unsup,omitempty"`
	Unknowns map[string]int    `json:"unknowns,omitempty"`
	Fns      []string          `json:"fns"`
	OtherFns int               `json:"other_fns"`
	Models   []string          `json:"models"`
	Reached  map[string]int    `json:"reached"`
	Asserts  map[string]int64  `json:"asserts"`
	Viol     []*Violation      `json:"viol"`
	Samples  []*Sample         `json:"samples"`
	Opts     map[string]string `json:"opts"`
}

func optInt(o map[string]string, k string, d int) int {
	if v, ok := o[k]; ok {
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	}
	return d
}

type workArgs struct {
	repo, harness, pkg, fn, tier string
	i, n                         int
	timeout                      int
	force                        []InVal
	extra                        map[string]string
}

// effective options: plain keys overridden by "<tier>.key"
func tierOpts(o map[string]string, tier string) map[string]string {
	out := map[string]string{}
	for k, v := range o {
		if !strings.HasPrefix(k, "quick.") && !strings.HasPrefix(k, "thorough.") {
			out[k] = v
		}
	}
	for k, v := range o {
		if r, ok := strings.CutPrefix(k, tier+"."); ok {
			out[r] = v
		}
	}
	return out
}

func work(a workArgs) (res *WorkResult) {
	t0 := time.Now()
	res = &WorkResult{Harness: a.fn, Pkg: a.pkg, Shard: a.i, Shards: a.n}
	defer func() { res.WallS = time.Since(t0).Seconds() }()
	l, err := load(a.repo, a.harness, a.pkg)
	if err != nil {
		res.Err = err.Error()
		return
	}
	e := NewEngine()
	defer e.sol.Close()
	e.setup(l)
	opts, repl := directives(l.ppkg, a.fn)
	e.opts = tierOpts(opts, a.tier)
	for k, v := range a.extra {
		e.opts[k] = v
	}
	res.Opts = e.opts
	e.opts["harness"] = a.fn
	e.tier = a.tier
	e.maxBack = optInt(e.opts, "back", e.maxBack)
	e.maxConc = optInt(e.opts, "maxconc", e.maxConc)
	e.panicNil = oldGo(a.repo)
	e.lazyTick = optInt(e.opts, "tickidle", 0) != 0
	e.hang = optInt(e.opts, "hang", 0) != 0
	e.maxTicks = optInt(e.opts, "ticks", e.maxTicks)
	e.maxPreempt = optInt(e.opts, "preempt", -1)
	e.maxViol = optInt(e.opts, "maxviol", e.maxViol)
	e.raceCheck = optInt(e.opts, "race", 1) != 0
	e.coarse = e.raceCheck && optInt(e.opts, "fine", 0) == 0 && !e.usesTry
	e.mapOrdered = optInt(e.opts, "mapordered", 0) != 0
	e.sol.timeoutMS = optInt(e.opts, "qms", e.sol.timeoutMS)
	e.sol.crossBudget = optInt(e.opts, "cross", 3)
	e.noDiamond = e.opts["nodiamond"] != "" // branches of the code under test always fork
	e.shardI, e.shardN = a.i, a.n
	e.shardD = optInt(e.opts, "depth", 6)
	to := a.timeout
	e.deadline = time.Now().Add(time.Duration(to) * time.Second)
	var replFns []*ssa.Function
	for _, r := range repl {
		fn := l.pkg.Func(r[1])
		if fn == nil {
			if l.mods != nil {
				fn = l.prog.Package(l.mods.Types).Func(r[1])
			}
		}
		if fn == nil {
			res.Err = "replacement " + r[1] + " not found"
			return
		}
		replFns = append(replFns, fn)
	}
	fn := l.pkg.Func(a.fn)
	if fn == nil {
		res.Err = "harness function " + a.fn + " not found"
		return
	}
	var mods *ssa.Package
	if l.mods != nil {
		mods = l.prog.Package(l.mods.Types)
	}
	if err := e.runInit(l.pkg, mods); err != nil {
		res.Err = err.Error()
		return
	}
	for i, r := range repl {
		e.replace[r[0]] = e.cfunc(replFns[i])
	}
	e.markReadOnly()
	st := e.newState(fn)
	for _, f := range a.force {
		e.forceVals[f.Name] = f.Val
		e.forcing = true
	}
	e.run(st)
	s := &e.sol.Stats
	res.Paths, res.Killed, res.Steps, res.Forks, res.Diamonds, res.Merges = e.npaths, e.nkilled, e.nsteps, e.nforks, e.ndiamond, e.merges
	res.Nodes, res.Edges, res.Dups = int64(len(e.nodes)), e.nedges, e.dupHits
	res.Queries, res.Sat, res.Unsat, res.Unknown = s.Queries, s.Sat, s.Unsat, s.Unknown
	res.Cached = s.CacheHits + s.ModelHits
	res.Order = e.nfast
	res.SolverS, res.MaxQ = s.Time.Seconds(), s.MaxQuery.Seconds()
	res.Cross, res.Disagree = s.Cross, s.Disagree
	res.TimedOut = e.timedOut
	res.Unsup, res.Unknowns = e.unsup, e.unknowns
	res.Reached, res.Asserts = e.reachedL, e.asserts
	res.Viol, res.Samples = e.viol, e.samples
	mod := map[string]bool{}
	for f := range e.fns {
		p := fnPkg(f)
		switch {
		case p == nil:
			res.OtherFns++
		case e.isRepo(p.Path()):
			res.Fns = append(res.Fns, f.String())
		case p.Path() == zz+"models":
			mod[f.Name()] = true
		default:
			res.OtherFns++
		}
	}
	for k := range mod {
		res.Models = append(res.Models, k)
	}
	sort.Strings(res.Fns)
	sort.Strings(res.Models)
	return
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: gosym check|work ...")
	}
	args := map[string]string{}
	for _, a := range os.Args[2:] {
		if k, v, ok := strings.Cut(strings.TrimLeft(a, "-"), "="); ok {
			args[k] = v
		}
	}
	get := func(k, d string) string {
		if v, ok := args[k]; ok {
			return v
		}
		return d
	}
	num := func(k string, d int) int {
		n, err := strconv.Atoi(get(k, ""))
		if err != nil {
			return d
		}
		return n
	}
	verif := get("verif", "/verif")
	repo := get("repo", "/repo")
	switch os.Args[1] {
	case "work":
		debug.SetGCPercent(200)
		debug.SetMemoryLimit(int64(num("mem", 3)) << 30)
		wa := workArgs{repo: repo, harness: verif + "/harness", pkg: get("pkg", ""), fn: get("fn", ""), tier: get("tier", "quick"), i: num("shard", 0), n: num("shards", 1), timeout: num("timeout", 60), extra: map[string]string{}}
		for k, v := range args {
			if r, ok := strings.CutPrefix(k, "opt."); ok {
				wa.extra[r] = v
			}
		}
		if f := get("force", ""); f != "" {
			b, err := os.ReadFile(f)
			if err != nil {
				fatal("%v", err)
			}
			json.Unmarshal(b, &wa.force)
		}
		r := work(wa)
		b, _ := json.MarshalIndent(r, "", " ")
		if o := get("out", ""); o != "" {
			if err := os.WriteFile(o, b, 0o644); err != nil {
				fatal("%v", err)
			}
		} else {
			fmt.Println(string(b))
		}
	case "check":
		os.Exit(check(checkArgs{verif: verif, repo: repo, id: get("id", ""), tier: get("tier", "quick"), only: get("only", ""), jobs: num("jobs", 8), budget: num("budget", 0), keep: get("keep", "") != "", seed: num("seed", 1)}))
	default:
		fatal("unknown mode %s", os.Args[1])
	}
}

// oldGo reports whether the module's language version is before 1.21.
func oldGo(repo string) bool {
	b, _ := os.ReadFile(filepath.Join(repo, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			v := strings.Split(f[1], ".")
			if len(v) >= 2 && v[0] == "1" {
				n, err := strconv.Atoi(v[1])
				return err == nil && n < 21
			}
		}
	}
	return false
}
