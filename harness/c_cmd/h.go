package c_cmd

import (
	"errors"
	"io"
	"io/fs"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/unsafe-risk/utilx/zzcmd/autotidy"
	"github.com/unsafe-risk/utilx/zzcmd/autoupdate"
	"github.com/unsafe-risk/utilx/zzverif/sym"
)

// node is an entry of the directory tree; the first is the root.
type node struct {
	name    string
	path    string // absolute
	dir     bool
	parent  int
	readErr bool // the entries cannot be read
	partial bool // ... but the first is returned all the same
	noEntry bool // the directory cannot be changed into
}

const root = "/work"

var (
	tree []node
	cwd  string
	ran  []string // directory and arguments of each command
)

// ---- stand-ins for the system

var errSystem = errors.New("refused")

func abs(p string) string {
	if len(p) > 0 && p[0] == '/' {
		return filepath.Clean(p)
	}
	if p == "" || p == "." {
		return cwd
	}
	return filepath.Clean(cwd + "/" + p)
}

func find(p string) int {
	p = abs(p)
	for i := range tree {
		if tree[i].path == p {
			return i
		}
	}
	return -1
}

func getwd() (string, error) { return cwd, nil }

func chdir(p string) error {
	i := find(p)
	if p == "" || i < 0 || !tree[i].dir || tree[i].noEntry {
		return errSystem
	}
	cwd = tree[i].path
	return nil
}

type info struct {
	name string
	dir  bool
}

func (e info) Name() string { return e.name }
func (e info) IsDir() bool  { return e.dir }
func (e info) Type() fs.FileMode {
	if e.dir {
		return fs.ModeDir
	}
	return 0
}
func (e info) Info() (fs.FileInfo, error) { return e, nil }
func (e info) Size() int64                { return 0 }
func (e info) Mode() fs.FileMode          { return e.Type() | 0o755 }
func (e info) ModTime() time.Time         { return time.Time{} }
func (e info) Sys() any                   { return nil }

func lstat(p string) (fs.FileInfo, error) {
	i := find(p)
	if i < 0 {
		return nil, fs.ErrNotExist
	}
	return info{filepath.Base(p), tree[i].dir}, nil
}

func readDir(p string) ([]fs.DirEntry, error) {
	i := find(p)
	if i < 0 || !tree[i].dir {
		return nil, fs.ErrNotExist
	}
	var es []fs.DirEntry
	for k := range tree {
		if k > 0 && tree[k].parent == i {
			if tree[i].readErr && (!tree[i].partial || len(es) > 0) {
				break
			}
			es = append(es, info{tree[k].name, tree[k].dir})
		}
	}
	if tree[i].readErr {
		return es, errSystem
	}
	return es, nil
}

func readDirNames(p string) ([]string, error) {
	es, err := readDir(p)
	var names []string
	for _, e := range es {
		names = append(names, e.Name())
	}
	if err != nil {
		return nil, err
	}
	return names, nil
}

func command(name string, args ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, args...)}
}

// started holds the commands that have been started and not waited for: the
// tool may end before they do, so they count only once they are waited for.
var started []job

type job struct {
	c    *exec.Cmd
	what string
}

func start(c *exec.Cmd) error {
	d := cwd
	if c.Dir != "" {
		i := find(c.Dir)
		if i < 0 || !tree[i].dir || tree[i].noEntry {
			return errSystem
		}
		d = tree[i].path
	}
	started = append(started, job{c, d + "|" + strings.Join(c.Args, " ")})
	return nil
}

func wait(c *exec.Cmd) error {
	for i := range started {
		if started[i].c == c {
			ran = append(ran, started[i].what)
			started = append(started[:i:i], started[i+1:]...)
			break
		}
	}
	return errSystem
}

func runCmd(c *exec.Cmd) error {
	if err := start(c); err != nil {
		return err
	}
	return wait(c)
}

func output(c *exec.Cmd) ([]byte, error) { return nil, runCmd(c) }

// ---- the checks

// execute runs the command in the tree and returns what it ran, each as a
// directory below the root, a bar and the arguments, and where it ended.
func execute(main func()) ([]string, bool) {
	ran, started = nil, nil
	if sym.Symbolic() {
		cwd = root
		main()
		for i := range ran {
			ran[i] = ran[i][len(root):]
		}
		return ran, cwd == root
	}
	tmp, err := os.MkdirTemp("", "zz")
	if err != nil {
		panic(err)
	}
	tmp, _ = filepath.EvalSymlinks(tmp)
	defer os.RemoveAll(tmp)
	w, bin := tmp+root, tmp+"/bin"
	os.Mkdir(w, 0o755)
	os.Mkdir(bin, 0o755)
	os.WriteFile(bin+"/go", []byte("#!/bin/sh\necho \"$(pwd -P)|go $*\" >> "+tmp+"/log\nexit 1\n"), 0o755)
	for _, n := range tree[1:] {
		if n.dir {
			err = os.Mkdir(tmp+n.path, 0o755)
		} else {
			err = os.WriteFile(tmp+n.path, nil, 0o644)
		}
		if err != nil {
			sym.Assume(false)
		}
	}
	old, _ := os.Getwd()
	path := os.Getenv("PATH")
	os.Chdir(w)
	os.Setenv("PATH", bin)
	log.SetOutput(io.Discard)
	main()
	end, _ := os.Getwd()
	os.Setenv("PATH", path)
	os.Chdir(old)
	b, _ := os.ReadFile(tmp + "/log")
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			ran = append(ran, strings.TrimPrefix(l, w))
		}
	}
	return ran, end == w
}

func excluded(name string) bool { return name == "vendor" || name == ".git" }

func check(main func(), args string) {
	ran, back := execute(main)
	sym.Observe("ran", len(ran))
	sym.Assert(back, "the working directory is the original one afterwards")
	total := 0
	for i := range tree {
		n := &tree[i]
		times := 0
		for _, r := range ran {
			if r == n.path[len(root):]+"|"+args {
				times++
			}
		}
		total += times
		in, certain := n.dir, true
		for k := i; k > 0; k = tree[k].parent {
			in = in && !excluded(tree[k].name)
			certain = certain && !tree[tree[k].parent].readErr
		}
		switch {
		case !n.dir:
			sym.Assert(times == 0, "the command is not run for a plain file")
		case !in:
			sym.Assert(times == 0, "the command is not run inside an excluded directory")
			sym.Reach("excluded")
		case n.noEntry:
			sym.Assert(times == 0, "the command is not run in a directory that cannot be entered")
		case certain:
			sym.Assert(times == 1, "the command is run exactly once in each directory")
			sym.Reach("run")
		default:
			sym.Assert(times <= 1, "the command is run at most once in each directory")
		}
	}
	sym.Assert(total == len(ran), "only the go command is run, and only in directories of the tree")
}

func begin() { tree = []node{{name: ".", path: root, dir: true}} }

func entry(parent int, name string, dir bool) int {
	for _, n := range tree[1:] {
		if n.parent == parent {
			sym.Assume(n.name != name)
		}
	}
	tree = append(tree, node{name: name, path: tree[parent].path + "/" + name, dir: dir, parent: parent})
	return len(tree) - 1
}

var names = [...]string{"a", "vendor", ".git", "vendors", "git"}

// grow adds n entries with one of a few names anywhere in the tree.
func grow(n int) {
	for i := 0; i < n; i++ {
		p := sym.Choose("parent", len(tree))
		sym.Assume(tree[p].dir)
		entry(p, names[sym.Choose("name", sym.Param("names", 4, 5))], sym.Choose("dir", 2) == 1)
	}
}

func tool() (func(), string) {
	if sym.Choose("tool", 2) == 0 {
		return autotidy.ZZMain, "go mod tidy"
	}
	return autoupdate.ZZMain, "go get -u"
}

// C43_Tree runs the tools in any small tree.
//
//sym:opt shards=16 depth=4
//sym:replace os.Getwd getwd
//sym:replace os.Chdir chdir
//sym:replace os.Lstat lstat
//sym:replace os.Stat lstat
//sym:replace os.ReadDir readDir
//sym:replace path/filepath.readDirNames readDirNames
//sym:replace os/exec.Command command
//sym:replace (*os/exec.Cmd).Run runCmd
//sym:replace (*os/exec.Cmd).Start start
//sym:replace (*os/exec.Cmd).Wait wait
//sym:replace (*os/exec.Cmd).Output output
//sym:replace (*os/exec.Cmd).CombinedOutput output
func C43_Tree() {
	main, args := tool()
	begin()
	grow(sym.Choose("entries", sym.Param("entries", 3, 4)+1))
	check(main, args)
}

// C43_Name has a directory of any name, with a directory inside it and one beside it.
//
//sym:opt shards=16 depth=3
//sym:replace os.Getwd getwd
//sym:replace os.Chdir chdir
//sym:replace os.Lstat lstat
//sym:replace os.Stat lstat
//sym:replace os.ReadDir readDir
//sym:replace path/filepath.readDirNames readDirNames
//sym:replace os/exec.Command command
//sym:replace (*os/exec.Cmd).Run runCmd
//sym:replace (*os/exec.Cmd).Start start
//sym:replace (*os/exec.Cmd).Wait wait
//sym:replace (*os/exec.Cmd).Output output
//sym:replace (*os/exec.Cmd).CombinedOutput output
func C43_Name() {
	main, args := tool()
	begin()
	n := [...]int{6, 4, 1, 2, 7}[sym.Choose("length", sym.Param("lengths", 4, 5))]
	b := sym.Bytes("name", n)
	dots := true
	for _, c := range b {
		sym.Assume(c != 0 && c != '/' && c != '\n' && c != '|')
		dots = dots && c == '.'
	}
	sym.Assume(!dots || n > 2)
	a := entry(0, string(b), true)
	entry(a, "in", true)
	entry(0, "beside", true)
	check(main, args)
}

// C43_Fault has directories that cannot be read or entered.
//
//sym:opt shards=16 depth=4 native=no
//sym:replace os.Getwd getwd
//sym:replace os.Chdir chdir
//sym:replace os.Lstat lstat
//sym:replace os.Stat lstat
//sym:replace os.ReadDir readDir
//sym:replace path/filepath.readDirNames readDirNames
//sym:replace os/exec.Command command
//sym:replace (*os/exec.Cmd).Run runCmd
//sym:replace (*os/exec.Cmd).Start start
//sym:replace (*os/exec.Cmd).Wait wait
//sym:replace (*os/exec.Cmd).Output output
//sym:replace (*os/exec.Cmd).CombinedOutput output
func C43_Fault() {
	main, args := tool()
	begin()
	grow(sym.Param("entries", 2, 3))
	for i := range tree {
		if !tree[i].dir {
			continue
		}
		switch sym.Choose("fault", 4) {
		case 1:
			tree[i].readErr = true
		case 2:
			tree[i].readErr, tree[i].partial = true, true
		case 3:
			sym.Assume(i > 0)
			tree[i].noEntry = true
		}
	}
	check(main, args)
}

// C43_Large has a deep chain or a wide directory, with an entry of one of the
// few names somewhere.
//
//sym:opt shards=4 depth=2 back=20000
//sym:replace os.Getwd getwd
//sym:replace os.Chdir chdir
//sym:replace os.Lstat lstat
//sym:replace os.Stat lstat
//sym:replace os.ReadDir readDir
//sym:replace path/filepath.readDirNames readDirNames
//sym:replace os/exec.Command command
//sym:replace (*os/exec.Cmd).Run runCmd
//sym:replace (*os/exec.Cmd).Start start
//sym:replace (*os/exec.Cmd).Wait wait
//sym:replace (*os/exec.Cmd).Output output
//sym:replace (*os/exec.Cmd).CombinedOutput output
func C43_Large() {
	main, args := tool()
	begin()
	name := names[sym.Choose("name", len(names))]
	if sym.Choose("wide", 2) == 0 {
		n := []int{5, 9, 17, 34}[sym.Choose("deep", 4)]
		at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
		p := 0
		for i := 0; i < n; i++ {
			c := "d"
			if i == at {
				c = name
			}
			entry(p, "e", true)
			entry(p, "go.mod", false)
			p = entry(p, c, true)
		}
	} else {
		n := []int{9, 17, 33, 66}[sym.Choose("n", 4)]
		at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
		for i := 0; i < n; i++ {
			c := "d" + string(rune('A'+i))
			if i == at {
				c = name
			}
			d := entry(0, c, i%5 != 3 || i == at)
			if tree[d].dir {
				entry(d, "in", true)
			}
		}
	}
	check(main, args)
}
