package main

// SMT solver back end: z3 (and cvc5 as a second opinion) driven over a pipe.

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

type proc struct {
	name    string
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	w       *bufio.Writer
	r       *bufio.Reader
	defined map[int32]bool
	dead    bool
}

func (p *proc) start() error {
	p.cmd = exec.Command(p.name, p.args...)
	p.cmd.SysProcAttr = dieWithParent()
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	p.cmd.Stderr = nil
	p.in = in
	p.w = bufio.NewWriterSize(in, 1<<16)
	p.r = bufio.NewReaderSize(out, 1<<16)
	p.defined = map[int32]bool{}
	p.dead = false
	return p.cmd.Start()
}

// dieWithParent ends a child when this process ends, however it ends.
func dieWithParent() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
}

func (p *proc) kill() {
	if p.cmd != nil && p.cmd.Process != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	p.dead = true
}

type Stats struct {
	Queries   int
	Sat       int
	Unsat     int
	Unknown   int
	CacheHits int
	ModelHits int
	Time      time.Duration
	Cross     int // queries re-decided by the second solver
	Disagree  int
	MaxQuery  time.Duration
}

type Solver struct {
	c           *Ctx
	p           *proc
	p2          *proc
	Stats       Stats
	cache       map[string]*cacheEnt
	timeoutMS   int
	crossBudget int // unsat answers re-decided by cvc5
}

type cacheEnt struct {
	r Result
	m Model
}

var solverBin = envOr("VERIF_Z3", "z3-new")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func NewSolver(c *Ctx) *Solver {
	return &Solver{c: c, cache: map[string]*cacheEnt{}, timeoutMS: 20000}
}

func (s *Solver) Close() {
	if s.p != nil {
		s.p.kill()
	}
	if s.p2 != nil {
		s.p2.kill()
	}
}

func (s *Solver) ensure() *proc {
	if s.p == nil || s.p.dead {
		s.p = &proc{name: solverBin, args: []string{"-in"}}
		if err := s.p.start(); err != nil {
			fatal("cannot start solver %s: %v", solverBin, err)
		}
		fmt.Fprintf(s.p.w, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeoutMS)
	}
	return s.p
}

// dumpQuery writes a query as a script, for debugging.
func dumpQuery(name string, cs []*Term) {
	f, err := os.Create(name)
	if err != nil {
		return
	}
	defer f.Close()
	p := &proc{w: bufio.NewWriter(f), defined: map[int32]bool{}}
	fmt.Fprintf(p.w, "(set-logic ALL)\n")
	for _, t := range cs {
		emitDefs(p, t, nil)
	}
	for _, t := range cs {
		fmt.Fprintf(p.w, "(assert %s)\n", t.ref())
	}
	fmt.Fprintf(p.w, "(check-sat)\n")
	p.w.Flush()
}

func emitDefs(p *proc, t *Term, all []*Term) {
	if t.op == OConst || p.defined[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.a) {
			x := f.t.a[f.i]
			f.i++
			if x.op != OConst && !p.defined[x.id] {
				st = append(st, fr{x, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if p.defined[x.id] {
			continue
		}
		p.defined[x.id] = true
		if x.op == OVar {
			fmt.Fprintf(p.w, "(declare-const %s %s)\n", x.ref(), x.sort)
		} else {
			fmt.Fprintf(p.w, "(define-fun %s () %s %s)\n", x.ref(), x.sort, x.body())
		}
	}
}

func (p *proc) readLine(limit time.Duration) (string, error) {
	type res struct {
		s string
		e error
	}
	ch := make(chan res, 1)
	go func() {
		for {
			s, e := p.r.ReadString('\n')
			if e == nil && strings.TrimSpace(s) == "" {
				continue
			}
			ch <- res{s, e}
			return
		}
	}()
	select {
	case r := <-ch:
		return strings.TrimSpace(r.s), r.e
	case <-time.After(limit):
		return "", fmt.Errorf("solver timeout")
	}
}

func (p *proc) readSexp() (string, error) {
	var sb strings.Builder
	d := 0
	for {
		b, err := p.r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			d++
		} else if b == ')' {
			d--
			if d == 0 {
				return sb.String(), nil
			}
		}
	}
}

// Check decides the conjunction of conds.
func (s *Solver) Check(conds []*Term) (Result, Model) {
	var cs []*Term
	seen := map[*Term]bool{}
	for _, t := range conds {
		if t.IsConst() {
			if t.v == 0 {
				return Unsat, nil
			}
			continue
		}
		if !seen[t] {
			seen[t] = true
			cs = append(cs, t)
		}
	}
	if len(cs) == 0 {
		return Sat, Model{}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	var kb strings.Builder
	for _, t := range cs {
		kb.WriteString(strconv.Itoa(int(t.id)))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.Stats.CacheHits++
		return e.r, e.m
	}
	r, m := s.query(cs)
	s.cache[key] = &cacheEnt{r, m}
	return r, m
}

// guess tries a few uniform assignments on queries with multiplications or
// divisions, where a witness is often trivial but the search is not.
func (s *Solver) guess(cs []*Term) (Model, bool) {
	hard := false
	var vars []int32
	size := 0
	for _, t := range cs {
		hard = hard || t.hard
		vars = unionIDs(vars, t.vars)
		size += int(t.size)
	}
	if !hard || size > 20000 {
		return nil, false
	}
	for _, id := range vars {
		if s.c.all[id].sort.K == SFP {
			return nil, false
		}
	}
next:
	for _, v := range []uint64{0, 9, 1, ^uint64(0), 5} {
		m := Model{}
		for _, id := range vars {
			m[id] = v & mask(s.c.all[id].sort.W)
		}
		for _, t := range cs {
			if r, ok := m.evalBool(t); !ok || !r {
				continue next
			}
		}
		return m, true
	}
	return nil, false
}

func (s *Solver) query(cs []*Term) (Result, Model) {
	t0 := time.Now()
	if m, ok := s.guess(cs); ok {
		s.Stats.Queries++
		s.Stats.Sat++
		s.Stats.Time += time.Since(t0)
		return Sat, m
	}
	defer func() {
		d := time.Since(t0)
		if d > slowQ && os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "SLOWQ %v %s\n", d, cs)
			if os.Getenv("VERIF_DEBUG") == "3" {
				dumpQuery(fmt.Sprintf("/tmp/slow%d.smt2", s.Stats.Queries), cs)
			}
		}
		s.Stats.Time += d
		if d > s.Stats.MaxQuery {
			s.Stats.MaxQuery = d
		}
	}()
	s.Stats.Queries++
	p := s.ensure()
	if len(p.defined) > 400000 { // keep the solver's symbol table bounded
		p.kill()
		p = s.ensure()
	}
	var vars []int32
	for _, t := range cs {
		emitDefs(p, t, s.c.all)
		vars = unionIDs(vars, t.vars)
	}
	fmt.Fprintf(p.w, "(push 1)\n")
	for _, t := range cs {
		fmt.Fprintf(p.w, "(assert %s)\n", t.ref())
	}
	limit := time.Duration(s.timeoutMS)*time.Millisecond*2 + 10*time.Second
	hard := false
	for _, t := range cs {
		hard = hard || t.hard
	}
	for _, t := range cs {
		hard = hard && !t.fp
	}
	if hard { // arithmetic that takes long is left to the bit-vector tactic
		fmt.Fprintf(p.w, "(set-option :timeout 400)\n")
	}
	fmt.Fprintf(p.w, "(check-sat)\n")
	p.w.Flush()
	line, err := p.readLine(limit)
	if hard && err == nil {
		fmt.Fprintf(p.w, "(set-option :timeout %d)\n", s.timeoutMS)
		if line == "unknown" {
			fmt.Fprintf(p.w, "(check-sat-using qfbv)\n")
			p.w.Flush()
			line, err = p.readLine(limit)
		}
	}
	if err != nil || strings.HasPrefix(line, "(error") {
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "solver problem: %v %q\n", err, line)
		}
		p.kill()
		return s.fallback(cs, vars)
	}
	switch line {
	case "unsat":
		s.Stats.Unsat++
		fmt.Fprintf(p.w, "(pop 1)\n")
		if s.crossBudget > 0 {
			s.crossBudget--
			s.cross(cs, vars, Unsat)
		}
		return Unsat, nil
	case "sat":
		s.Stats.Sat++
		m, ok := s.getModel(p, vars)
		fmt.Fprintf(p.w, "(pop 1)\n")
		if !ok {
			p.kill()
			return Sat, nil
		}
		return Sat, m
	}
	if line != "unknown" {
		p.kill()
	} else {
		fmt.Fprintf(p.w, "(pop 1)\n")
	}
	return s.fallback(cs, vars)
}

func (s *Solver) getModel(p *proc, vars []int32) (Model, bool) {
	m := Model{}
	if len(vars) == 0 {
		return m, true
	}
	fmt.Fprintf(p.w, "(get-value (")
	for _, v := range vars {
		fmt.Fprintf(p.w, "v%d ", v)
	}
	fmt.Fprintf(p.w, "))\n")
	p.w.Flush()
	sx, err := p.readSexp()
	if err != nil {
		return nil, false
	}
	// ((v1 #x00) (v2 true) ...)
	toks := strings.FieldsFunc(sx, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i+1 < len(toks); i += 2 {
		if toks[i][0] != 'v' {
			return nil, false
		}
		id, err := strconv.Atoi(toks[i][1:])
		if err != nil {
			return nil, false
		}
		v := toks[i+1]
		switch {
		case v == "true":
			m[int32(id)] = 1
		case v == "false":
			m[int32(id)] = 0
		case strings.HasPrefix(v, "#x"):
			n, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil, false
			}
			m[int32(id)] = n
		case strings.HasPrefix(v, "#b"):
			n, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil, false
			}
			m[int32(id)] = n
		default:
			return nil, false
		}
	}
	return m, true
}

// standalone script for a second solver
func script(c *Ctx, cs []*Term) string {
	var sb strings.Builder
	p := &proc{defined: map[int32]bool{}}
	p.w = bufio.NewWriter(&sb)
	for _, t := range cs {
		emitDefs(p, t, c.all)
	}
	for _, t := range cs {
		fmt.Fprintf(p.w, "(assert %s)\n", t.ref())
	}
	p.w.Flush()
	return sb.String()
}

func hasFP(cs []*Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.sort.K == SFP {
			return true
		}
		for _, x := range t.a {
			if f(x) {
				return true
			}
		}
		return false
	}
	for _, t := range cs {
		if f(t) {
			return true
		}
	}
	return false
}

func (s *Solver) runOnce(bin string, args []string, sc string, vars []int32, limit time.Duration, wantModel bool) (Result, Model) {
	p := &proc{name: bin, args: args}
	if err := p.start(); err != nil {
		return Unknown, nil
	}
	defer p.kill()
	fmt.Fprint(p.w, sc)
	fmt.Fprint(p.w, "(check-sat)\n")
	p.w.Flush()
	line, err := p.readLine(limit)
	if err != nil {
		return Unknown, nil
	}
	switch line {
	case "unsat":
		return Unsat, nil
	case "sat":
		if wantModel {
			m, ok := s.getModel(p, vars)
			if ok {
				return Sat, m
			}
			return Sat, nil
		}
		return Sat, nil
	}
	return Unknown, nil
}

var fallbackSecs = 60

func (s *Solver) fallback(cs []*Term, vars []int32) (Result, Model) {
	body := script(s.c, cs)
	logic := "QF_BV"
	if hasFP(cs) {
		logic = "QF_BVFP"
	}
	type out struct {
		r Result
		m Model
	}
	lim := time.Duration(fallbackSecs) * time.Second
	ch := make(chan out, 3)
	go func() {
		r, m := s.runOnce("cvc5", []string{"--produce-models", "--solve-bv-as-int=sum"}, "(set-logic ALL)\n"+body, vars, lim, true)
		ch <- out{r, m}
	}()
	go func() {
		r, m := s.runOnce(solverBin, []string{"-in"}, "(set-option :produce-models true)\n(set-logic "+logic+")\n"+body, vars, lim, true)
		ch <- out{r, m}
	}()
	go func() {
		r, m := s.runOnce("cvc5", []string{"--produce-models"}, "(set-logic "+logic+")\n"+body, vars, lim, true)
		ch <- out{r, m}
	}()
	for i := 0; i < 3; i++ {
		o := <-ch
		if o.r == Unsat {
			s.Stats.Unsat++
			return o.r, nil
		}
		if o.r == Sat && o.m != nil {
			s.Stats.Sat++
			return o.r, o.m
		}
	}
	s.Stats.Unknown++
	if os.Getenv("VERIF_DEBUG") != "" {
		f := fmt.Sprintf("/tmp/unknown_%d.smt2", s.Stats.Unknown)
		os.WriteFile(f, []byte("(set-logic "+logic+")\n"+body+"(check-sat)\n"), 0o644)
	}
	return Unknown, nil
}

func (s *Solver) cross(cs []*Term, vars []int32, want Result) {
	body := script(s.c, cs)
	logic := "QF_BV"
	if hasFP(cs) {
		logic = "QF_BVFP"
	}
	r, _ := s.runOnce("cvc5", []string{}, "(set-logic "+logic+")\n"+body, vars, 5*time.Second, false)
	if r == Unknown { // beyond the second solver's reach, and so are its likes
		s.crossBudget = 0
		return
	}
	s.Stats.Cross++
	if r != want {
		s.Stats.Disagree++
	}
}

var _ = math.Abs

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

var slowQ = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("VERIF_SLOWQ")); err == nil {
		return d
	}
	return time.Second
}()
