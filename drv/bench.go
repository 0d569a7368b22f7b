package main

// Package bench: suites and runs as directories.  Each script runs in a
// process of an unprivileged user within a directory of its own.

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/go-air/gini/bench"
)

func init() {
	cmds["bench"] = benchMain
	cmds["bench-one"] = benchOne
}

// zzsolver pretends to solve the instance named last.
func zzsolver(args []string) {
	if args[0] == "-child" {
		ms, _ := strconv.Atoi(args[1])
		time.Sleep(time.Duration(ms) * time.Millisecond)
		os.Exit(0)
	}
	b, e := os.ReadFile(args[len(args)-1])
	if e != nil {
		fmt.Println("cannot read", e)
		os.Exit(99)
	}
	var word, mode string
	var code, ms int
	fmt.Sscanf(string(b), "%s %d %d %s", &word, &code, &ms, &mode)
	fmt.Println(word)
	for _, a := range args[:len(args)-1] {
		fmt.Println(a)
	}
	fmt.Fprintln(os.Stderr, word)
	t0 := time.Now()
	switch mode {
	case "burn":
		for time.Since(t0) < time.Duration(ms)*time.Millisecond {
		}
	case "fork":
		exe, _ := os.Executable()
		c := exec.Command(exe, "-child", strconv.Itoa(ms))
		c.Args[0] = "zzsolver"
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		c.Start()
	}
	time.Sleep(time.Duration(ms)*time.Millisecond - time.Since(t0))
	os.Exit(code)
}

type bfile struct {
	path  []string // relative to the scratch directory
	disk  string
	word  string
	hash  string
	code  int
	ms    int
	mode  string
	parts []string
}

type bhandle struct {
	h    int
	root string
	s    *bench.Suite
}

type bx struct {
	r      *rng
	d      string
	t0     time.Time
	ev     []cev
	files  []*bfile
	hs     []*bhandle
	roots  []string
	solver string
	unpriv bool
	n      int
	was    map[string]string
	runs   int
	slow   int
	fork   int
}

func (x *bx) emit(e cev) { x.ev = append(x.ev, e) }
func (x *bx) ms() int    { return int(time.Since(x.t0) / time.Millisecond) }

func comps(p string) []string { return strings.Split(p, "/") }
func (x *bx) rootc(root string) []string {
	return []string{"a", "b", root}
}

// snap describes everything in the scratch directory but where solvers are
func (x *bx) snap() map[string]string {
	m := map[string]string{}
	filepath.Walk(x.d, func(p string, st os.FileInfo, e error) error {
		if e != nil || p == x.d {
			return nil
		}
		rel, _ := filepath.Rel(x.d, p)
		switch {
		case st.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "l" + t
		case st.IsDir():
			m[rel] = "d"
		default:
			b, _ := os.ReadFile(p)
			s := sha256.Sum256(b)
			m[rel] = "f" + hex.EncodeToString(s[:8])
		}
		return nil
	})
	return m
}

func sortedc(l []string) [][]string {
	sort.Strings(l)
	r := [][]string{}
	for _, p := range l {
		r = append(r, comps(p))
	}
	return r
}

func (x *bx) chg(e cev) cev {
	now := x.snap()
	var add, del, mod []string
	for p, v := range now {
		if w, ok := x.was[p]; !ok {
			add = append(add, p)
		} else if v != w {
			mod = append(mod, p)
		}
	}
	for p := range x.was {
		if _, ok := now[p]; !ok {
			del = append(del, p)
		}
	}
	e["add"], e["del"], e["mod"] = sortedc(add), sortedc(del), sortedc(mod)
	x.was = now
	return e
}

func strs(l []string) []string { return append([]string{}, l...) }

// env describes the environment without what is not one line
func envHash(env map[string]string) string {
	l := []string{}
	for k, v := range env {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	s := sha256.Sum256([]byte(strings.Join(l, "\n")))
	return hex.EncodeToString(s[:8])
}
func envMap() map[string]string {
	m := map[string]string{}
	for _, kv := range os.Environ() {
		i := strings.Index(kv, "=")
		m[kv[:i]] = kv[i+1:]
	}
	return m
}

func us(d time.Duration) int {
	u := int64(d / time.Microsecond)
	if u > 2000000000 || u < -2000000000 {
		u = 2000000000
	}
	return int(u)
}
func ns(d time.Duration) string { return strconv.FormatInt(int64(d), 10) }
func msOf(d time.Duration) int {
	m := int64(d / time.Millisecond)
	if m > 1000000000 || m < -1000000000 {
		m = 1000000000
	}
	return int(m)
}

func irObs(ir *bench.InstRun) cev {
	if ir == nil {
		return cev{"i": -1}
	}
	return cev{"i": ir.Inst, "res": ir.Result, "err": ir.Error, "dur": ns(ir.Dur), "udur": ns(ir.UDur), "sdur": ns(ir.SDur),
		"dus": us(ir.Dur), "uus": us(ir.UDur), "sus": us(ir.SDur)}
}

func (x *bx) runObs(s *bench.Suite, r *bench.Run) cev {
	irs := []cev{}
	own := r.Suite == s
	for _, ir := range r.InstRuns {
		irs = append(irs, irObs(ir))
		own = own && ir != nil && ir.Run == r
	}
	return cev{"name": r.Name, "irs": irs, "own": own, "rec": x.rec(r)}
}
func (x *bx) rec(r *bench.Run) cev {
	return cev{"cmd": r.Cmd, "ito": msOf(r.InstTimeout), "to": msOf(r.Timeout), "itos": ns(r.InstTimeout), "tos": ns(r.Timeout),
		"start": strconv.FormatInt(r.Start.UnixNano(), 10), "t": msOf(r.Start.Sub(x.t0.Round(0))), "env": envHash(r.Env),
		"arch": r.Arch, "os": r.Os, "ncpu": r.NumCPU, "commit": r.Commit, "desc": r.Desc}
}

func partsOf(name string) []string { return strings.Split(name, ".")[1:] }

func (x *bx) suiteObs(s *bench.Suite) cev {
	insts := []cev{}
	for _, nm := range s.Insts {
		p := filepath.Join(s.Root, nm)
		o := cev{"kx": partsOf(nm), "hash": "", "link": false}
		if b, e := os.ReadFile(p); e == nil {
			h := sha256.Sum256(b)
			o["hash"] = hex.EncodeToString(h[:])
		}
		if st, e := os.Lstat(p); e == nil {
			o["link"] = st.Mode()&os.ModeSymlink != 0
		}
		insts = append(insts, o)
	}
	runs := []cev{}
	for _, r := range s.Runs {
		runs = append(runs, x.runObs(s, r))
	}
	return cev{"insts": insts, "map": strs(s.Map), "hashes": strs(s.Hashes), "runs": runs}
}

func names(rs []*bench.Run) []string {
	l := []string{}
	for _, r := range rs {
		l = append(l, r.Name)
	}
	return l
}

// ------------------------------------------------------------ the world

func (x *bx) mkfile(dir []string, k int) {
	r := x.r
	f := &bfile{word: fmt.Sprintf("w%d_%d", k, r.n(1000))}
	stem := []string{"x", "y z", "q", "long-name-of-an-instance", "cnf", " lead"}[r.n(6)] + strconv.Itoa(k)
	ext := [][]string{{"cnf"}, {"cnf", "gz"}, {"icnf"}, {"cnf", "bz2"}, {"inccnf"}, {}, {"txt"}, {"v1", "cnf"}, {"cnf", "orig"},
		{"cnf", "old", "gz"}}[r.n(10)]
	f.parts = ext
	name := strings.Join(append([]string{stem}, ext...), ".")
	f.path = append(append([]string{}, dir...), name)
	f.disk = filepath.Join(append([]string{x.d}, f.path...)...)
	f.code = []int{10, 10, 10, 20, 20, 20, 0, 1, 30, 2}[r.n(10)]
	f.mode = "sleep"
	switch {
	case r.p(12):
		f.ms = 4200
	case r.p(3):
		f.ms, f.mode = 4400, "fork"
	case r.p(20):
		f.ms, f.mode = 25+r.n(20), "burn"
	case r.p(30):
		f.ms = r.n(30)
	}
	b := []byte(fmt.Sprintf("%s %d %d %s\n", f.word, f.code, f.ms, f.mode))
	if r.p(5) {
		b = append(b, bytes.Repeat([]byte("c more\n"), []int{6000, 40000}[r.n(2)])...)
		b[len(b)-1-r.n(50)]++
	}
	h := sha256.Sum256(b)
	f.hash = hex.EncodeToString(h[:])
	os.MkdirAll(filepath.Dir(f.disk), 0755)
	if e := os.WriteFile(f.disk, b, 0644); e != nil {
		panic(e)
	}
	x.files = append(x.files, f)
}

func (x *bx) setup() {
	r := x.r
	die(os.MkdirAll(filepath.Join(x.d, "a", "b", "in"), 0755))
	dirs := [][]string{{"o"}, {"o", "p"}, {"o", "q.cnf"}, {"a", "b", "in"}}
	n := 3 + r.n(5)
	if r.p(15) {
		n = 14
	}
	for k := 0; k < n; k++ {
		x.mkfile(dirs[r.n(len(dirs))], k)
	}
	for _, p := range []string{"keep", "a/keep", "a/b/keep", "o/p2/d"} {
		os.MkdirAll(filepath.Join(x.d, filepath.Dir(p)), 0755)
		os.WriteFile(filepath.Join(x.d, p), []byte("keep"), 0644)
	}
	die(os.Chdir(filepath.Join(x.d, "a", "b")))
	x.was = x.snap()
}

// spell gives a file or suite path in some form
func (x *bx) spell(c []string) string {
	abs := filepath.Join(append([]string{x.d}, c...)...)
	switch x.r.n(4) {
	case 0, 1:
		return abs
	case 2:
		rel, e := filepath.Rel(filepath.Join(x.d, "a", "b"), abs)
		die(e)
		return rel
	default:
		rel, e := filepath.Rel(filepath.Join(x.d, "a", "b"), abs)
		die(e)
		return "./" + rel
	}
}

func (x *bx) create() {
	r := x.r
	root := "s" + strconv.Itoa(r.n(3))
	if len(x.roots) > 0 && r.p(50) {
		root = "s" + strconv.Itoa(3+r.n(20))
	}
	if len(x.roots) > 0 && r.p(25) {
		root = x.roots[0]
	} else if r.p(4) {
		root = []string{"in", "keep", "../b"}[r.n(3)]
	}
	n := 1 + r.n(4)
	switch {
	case r.p(5), len(x.roots) > 0 && root == x.roots[0] && r.p(20):
		n = 0
	case r.p(8):
		n = 9 + r.n(4)
	}
	fs, paths := []int{}, []string{}
	long := 0
	for len(fs) < n {
		k := r.n(len(x.files))
		f := x.files[k]
		if f.ms > 1000 {
			if long++; long > 1 && long < 30 {
				continue
			}
		}
		fs = append(fs, k+1)
		paths = append(paths, x.spell(f.path))
	}
	if n > 0 && r.p(4) {
		fs[r.n(n)] = 0
	}
	for i, f := range fs {
		if f == 0 {
			paths[i] = "nosuch.cnf"
		}
	}
	x.doCreate(root, fs, paths, r.p(40))
}

func (x *bx) doCreate(root string, fs []int, paths []string, link bool) {
	p := x.spell(x.rootc(root))
	x.n++
	var s *bench.Suite
	var e error
	_, st := os.Lstat(p)
	given := strs(paths)
	if link {
		s, e = bench.LinkSuite(p, paths)
	} else {
		s, e = bench.CreateSuite(p, paths)
	}
	ev := x.chg(cev{"e": "create", "h": x.n, "root": x.rootc(root), "fs": fs, "paths": given, "link": link, "err": e != nil, "there": st == nil})
	bad := false
	for _, f := range fs {
		bad = bad || f == 0
	}
	if e == nil {
		ev["so"] = x.suiteObs(s)
		x.hs = append(x.hs, &bhandle{x.n, root, s})
	}
	known := false
	for _, q := range x.roots {
		known = known || q == root
	}
	if !bad && !known && e == nil {
		x.roots = append(x.roots, root)
	}
	x.emit(ev)
}

func (x *bx) open() {
	root := "nosuch"
	if len(x.roots) > 0 && x.r.p(97) {
		root = x.roots[x.r.n(len(x.roots))]
	}
	x.doOpen(root)
}
func (x *bx) doOpen(root string) {
	p := x.spell(x.rootc(root))
	x.n++
	s, e := bench.OpenSuite(p)
	ev := x.chg(cev{"e": "open", "h": x.n, "root": x.rootc(root), "err": e != nil})
	if e == nil {
		ev["so"] = x.suiteObs(s)
		x.hs = append(x.hs, &bhandle{x.n, root, s})
		if len(x.hs) > 4 {
			x.hs = x.hs[1:]
		}
	}
	x.emit(ev)
}

func (x *bx) handle() *bhandle {
	if len(x.hs) == 0 {
		return nil
	}
	if x.r.p(70) {
		return x.hs[len(x.hs)-1]
	}
	return x.hs[x.r.n(len(x.hs))]
}

var badNames = []string{"", ".", "..", "../x", "a/b", "../..", "../../keep", "r1/", "/r1", "../runs/r1", "r1/.."}

func (x *bx) name() string {
	if x.r.p(8) && x.unpriv {
		return badNames[x.r.n(len(badNames))]
	}
	return []string{"r1", "r10", "r2", "run", "..r", "a run", "r.1", "a-very-long-name-of-a-run"}[x.r.n(8)]
}

func (x *bx) run(h *bhandle) {
	r := x.r
	cmd, prog, args := x.solver, "solver", []string{}
	switch {
	case r.p(40):
		args = [][]string{{"-a"}, {"-b", "10"}, {"--x=y", "z", "w"}}[r.n(3)]
		cmd += " " + strings.Join(args, " ")
	case r.p(8):
		prog = "missing"
		cmd = []string{"/nosuch/solver", "nosuchsolver -x"}[r.n(2)]
	}
	ito := time.Duration(60+r.n(300))*time.Millisecond + time.Duration(r.n(1000))
	if r.p(45) {
		ito = time.Duration(20000+r.n(1000)) * time.Millisecond
	}
	to := time.Hour + time.Duration(r.n(1000000))
	if r.p(15) {
		to = time.Duration(50+r.n(400)) * time.Millisecond
	}
	for _, i := range h.s.Insts { // nothing takes seconds if it need not
		if b, e := os.ReadFile(filepath.Join(h.s.Root, i)); e == nil && (bytes.Contains(b, []byte(" 4200 ")) || bytes.Contains(b, []byte(" 4400 "))) {
			if ito > time.Second && to > time.Second {
				ito = time.Duration(60+r.n(300)) * time.Millisecond
			}
		}
	}
	name := x.name()
	for _, q := range h.s.Runs {
		// a run this handle still knows, removed through another one
		if _, e := os.Stat(q.Root); q.Name == name && e != nil {
			return
		}
	}
	x.doRun(h, name, cmd, prog, args, ito, to)
}

type brun struct {
	prog string
	args []string
}

var bruns = map[string]brun{} // by command

func (x *bx) doRun(h *bhandle, name, cmd, prog string, args []string, ito, to time.Duration) {
	os.Setenv("ZZV", []string{"", "a", "a=b", "a=b=c d"}[x.r.n(4)])
	bruns[cmd] = brun{prog, args}
	t0 := x.ms()
	r, e := h.s.Run(name, cmd, ito, to)
	ev := x.chg(cev{"e": "run", "h": h.h, "name": name, "nm": comps(name), "t0": t0, "t1": x.ms(), "err": e != nil,
		"names": names(h.s.Runs),
		"rec": cev{"cmd": cmd, "ito": msOf(ito), "to": msOf(to), "itos": ns(ito), "tos": ns(to), "start": "", "t": 0, "env": envHash(envMap()),
			"arch": runtime.GOARCH, "os": runtime.GOOS, "ncpu": runtime.NumCPU(), "commit": "00000000", "desc": ""}})
	if e == nil {
		ev["ro"] = x.runObs(h.s, r)
	}
	x.emit(ev)
	os.Setenv("ZZV", "other")
}

func fileLines(p string) []string {
	b, _ := os.ReadFile(p)
	s := strings.TrimSuffix(string(b), "\n")
	if s == "" {
		return []string{}
	}
	return strings.Split(s, "\n")
}

func (x *bx) do(h *bhandle) {
	if len(h.s.Runs) == 0 || len(h.s.Insts) == 0 {
		return
	}
	r := h.s.Runs[x.r.n(len(h.s.Runs))]
	i := x.r.n(len(h.s.Insts))
	if x.r.p(85) { // one not yet done
		for k := range h.s.Insts {
			j := (i + k) % len(h.s.Insts)
			if _, e := os.Stat(filepath.Join(r.Root, fmt.Sprintf("inst-%d.run", j))); e != nil {
				i = j
				break
			}
		}
	}
	x.doDo(h, r, i)
}
func (x *bx) doDo(h *bhandle, r *bench.Run, i int) {
	if b, e := os.ReadFile(filepath.Join(h.s.Root, h.s.Insts[i])); e == nil && bytes.Contains(b, []byte(" 4400 ")) {
		if x.fork++; x.fork > 1 {
			return
		}
	}
	cw, _ := os.Getwd()
	t0 := x.ms()
	ir, e := r.Do(i)
	t1 := x.ms()
	cw2, _ := os.Getwd()
	os.Chdir(cw)
	b := bruns[r.Cmd]
	dir := filepath.Join(r.Root, fmt.Sprintf("inst-%d.run", i))
	ev := x.chg(cev{"e": "do", "h": h.h, "name": r.Name, "i": i, "t0": t0, "t1": t1, "err": e != nil, "cwd": cw == cw2,
		"prog": b.prog, "args": strs(b.args), "out": fileLines(filepath.Join(dir, "out")), "outerr": fileLines(filepath.Join(dir, "err"))})
	if e == nil {
		ev["ir"] = irObs(ir)
	}
	x.emit(ev)
}

func (x *bx) remove(h *bhandle) {
	name := x.name()
	if len(h.s.Runs) > 0 && x.r.p(60) {
		name = h.s.Runs[x.r.n(len(h.s.Runs))].Name
	}
	x.doRemove(h, name)
}
func (x *bx) doRemove(h *bhandle, name string) {
	was := []string{}
	for p := range x.was {
		was = append(was, p)
	}
	e := h.s.RemoveRun(name)
	if _, st := os.Stat(filepath.Join(x.d, "a", "b")); st != nil { // the worst has happened
		x.emit(x.chg(cev{"e": "remove", "h": h.h, "name": name, "nm": comps(name), "err": e != nil, "names": []string{}, "was": sortedc(was)}))
		panic("gone")
	}
	x.emit(x.chg(cev{"e": "remove", "h": h.h, "name": name, "nm": comps(name), "err": e != nil, "names": names(h.s.Runs), "was": sortedc(was)}))
}

func (x *bx) pick(h *bhandle) []string {
	l := []string{}
	for _, r := range h.s.Runs {
		if x.r.p(65) {
			l = append(l, r.Name)
		}
	}
	return l
}
func in(l []string) func(*bench.Run) bool {
	return func(r *bench.Run) bool {
		for _, s := range l {
			if s == r.Name {
				return true
			}
		}
		return false
	}
}

func mille(v float64) int {
	v = math.Round(v * 1000)
	if math.IsNaN(v) || v > 2e9 || v < 0 {
		return -1
	}
	return int(v)
}
func micro(v float64) int {
	v = math.Round(v * 1e6)
	if math.IsNaN(v) || v > 2e9 || v < 0 {
		return -1
	}
	return int(v)
}

func instFilt(filt int) func(*bench.Suite, int) bool {
	if filt == 0 {
		return nil
	}
	return func(s *bench.Suite, i int) bool {
		for _, r := range s.Runs {
			if r.InstRuns[i].Result == filt {
				return true
			}
		}
		return false
	}
}

func cents(s string) int {
	f, e := strconv.ParseFloat(strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(s), "s")), 64)
	if e != nil {
		return -1
	}
	return int(math.Round(f * 100))
}

func (x *bx) query(h *bhandle) {
	r := x.r
	filt := []int{0, 0, 1, -1}[r.n(4)]
	switch k := r.n(9); {
	case k == 0:
		keep := x.pick(h)
		was := append([]*bench.Run{}, h.s.Runs...)
		res := h.s.RunSelect(in(keep))
		own, after := true, len(was) == len(h.s.Runs)
		for _, q := range res.Runs {
			own = own && q.Suite == res
		}
		own = own && res.Len() == h.s.Len() && res.Root == h.s.Root
		for i, q := range h.s.Runs {
			after = after && q == was[i] && q.Suite == h.s
		}
		x.emit(x.chg(cev{"e": "select", "h": h.h, "keep": keep, "got": names(res.Runs), "own": own, "after": names(h.s.Runs), "afterown": after}))
	case k == 1 && len(h.s.Runs) > 0:
		q := h.s.Runs[r.n(len(h.s.Runs))]
		x.emit(cev{"e": "len", "h": h.h, "suite": h.s.Len(), "run": q.Len()})
	case k <= 3 && len(h.s.Runs) > 0:
		q := h.s.Runs[r.n(len(h.s.Runs))]
		re, u, s := bench.Times(q)
		rr, ru, rs := bench.SolveRate(q, time.Second)
		p := 0.0
		if h.s.Len() > 0 {
			p = bench.SolvePortion(q)
		}
		x.emit(cev{"e": "stats", "h": h.h, "name": q.Name, "solved": bench.SolveTotal(q), "sat": bench.SatTotal(q), "unsat": bench.UnsatTotal(q),
			"unknown": bench.UnknownTotal(q), "portion": mille(p), "real": micro(re), "user": micro(u), "sys": micro(s),
			"rreal": mille(rr), "ruser": mille(ru), "rsys": mille(rs)})
	case k == 4:
		rows := []cev{}
		for _, l := range strings.Split(bench.Summary(h.s), "\n") {
			c := strings.Split(l, "|")
			if len(c) != 10 || strings.Contains(l, "unknown") {
				continue
			}
			n := []int{}
			for _, s := range c[2:6] {
				v, e := strconv.Atoi(strings.TrimSpace(s))
				if e != nil {
					v = -1
				}
				n = append(n, v)
			}
			rows = append(rows, cev{"name": strings.TrimSpace(c[1]), "n": n, "t": []int{cents(c[6]), cents(c[7]), cents(c[8])}})
		}
		x.emit(cev{"e": "summary", "h": h.h, "rows": rows})
	case k == 5:
		keep := x.pick(h)
		var kept []string
		for _, q := range h.s.Runs {
			if in(keep)(q) {
				kept = append(kept, q.Name)
			}
		}
		cols := make([][]cev, len(kept))
		for i := range cols {
			cols[i] = []cev{}
		}
		head := []string{}
		for li, l := range strings.Split(bench.Listing(h.s, in(keep)), "|\n") {
			c := strings.Split(l, " | ")
			for i := range c {
				if i < 2 || i-2 >= len(kept) {
					continue
				}
				f := strings.Fields(strings.TrimSuffix(c[i], "|"))
				if li == 0 {
					nm := strings.TrimSpace(strings.TrimSuffix(c[i], "|")) // at most its last ten characters
					if nm != "" && strings.HasSuffix(kept[i-2], nm) && (len(nm) >= 10 || len(nm) == len(kept[i-2])) || len(kept[i-2]) > 10 && strings.HasSuffix(kept[i-2], nm) {
						nm = kept[i-2]
					}
					head = append(head, nm)
				} else if len(f) == 2 {
					cols[i-2] = append(cols[i-2], cev{"l": f[0], "t": cents(f[1])})
				}
			}
		}
		x.emit(cev{"e": "listing", "h": h.h, "keep": keep, "head": head, "cols": cols})
	case k == 6:
		keep := x.pick(h)
		c := bench.NewCactus(h.s, in(keep), instFilt(filt))
		d := [][]int{}
		for _, p := range c.D {
			d = append(d, append([]int{}, p...))
		}
		x.emit(cev{"e": "cactus", "h": h.h, "keep": keep, "filt": filt, "head": names(c.Runs), "d": d, "max": us(c.MaxDur)})
		c.Utf8(5 + r.n(40))
	case k == 7 && len(h.s.Runs) > 0:
		a, b := h.s.Runs[r.n(len(h.s.Runs))], h.s.Runs[r.n(len(h.s.Runs))]
		s := bench.NewScatter(a, b, instFilt(filt))
		xs, ys := []int{}, []int{}
		for _, v := range s.Xs {
			xs = append(xs, us(v))
		}
		for _, v := range s.Ys {
			ys = append(ys, us(v))
		}
		x.emit(cev{"e": "scatter", "h": h.h, "a": a.Name, "b": b.Name, "filt": filt, "xs": xs, "ys": ys})
		s.Utf8(2 + r.n(40))
	default:
		p, c, name := h.s.Root, x.rootc(h.root), ""
		switch {
		case r.p(10):
			p, c = "nowhere", x.rootc("nowhere")
		case r.p(60):
			name = []string{"r1", "r2", "run"}[r.n(3)]
			if len(h.s.Runs) > 0 && r.p(70) {
				name = h.s.Runs[r.n(len(h.s.Runs))].Name
			}
			p = filepath.Join(p, "runs", name)
		}
		x.emit(cev{"e": "is", "root": c, "name": name, "suite": bench.IsSuiteDir(p), "run": bench.IsRunDir(p)})
	}
}

func chars(s string) []string {
	l := []string{}
	for _, c := range s {
		l = append(l, string(c))
	}
	return l
}

func (x *bx) sel() {
	r := x.r
	pat := []string{"", "", "*.cnf", "*.gz", "x*", "?*1*", "*.*", "q?.cnf"}[r.n(8)]
	// only directories in which every file is in the table
	cand := [][]string{{"o", "p"}, {"o", "q.cnf"}, {"a", "b", "in"}, {"o", "none"}}
	dirs, ds := [][]string{}, []string{}
	for k := 1 + r.n(3); k > 0; k-- {
		d := cand[r.n(len(cand))]
		dirs = append(dirs, d)
		ds = append(ds, x.spell(d))
	}
	n := r.n(6)
	var got []string
	if pat == "" && r.p(50) {
		got = bench.Select(n, ds...)
	} else {
		got = bench.MatchSelect(pat, n, ds...)
	}
	g := []int{}
	for _, p := range got {
		ap, _ := filepath.Abs(p)
		k := 0
		for i, f := range x.files {
			if f.disk == ap {
				k = i + 1
			}
		}
		g = append(g, k)
	}
	x.emit(x.chg(cev{"e": "sel", "n": n, "pat": chars(pat), "dirs": dirs, "got": g}))
}

func (x *bx) random() {
	r := x.r
	for k := 8 + r.n(22); k > 0; k-- {
		h := x.handle()
		switch c := r.n(100); {
		case h == nil || c < 4:
			x.create()
		case c < 13:
			x.open()
		case c < 26:
			x.run(h)
		case c < 58:
			x.do(h)
		case c < 66:
			x.remove(h)
		case c < 70:
			x.sel()
		default:
			x.query(h)
		}
	}
}

// plan replays a sequence of calls printed from the specification
func (x *bx) plan(ops []string) {
	var h *bhandle
	for _, o := range ops {
		if len(x.hs) > 0 {
			h = x.hs[len(x.hs)-1]
		}
		switch {
		case o == "create" || o == "link":
			fs, paths := []int{}, []string{}
			for k := 0; k < 2; k++ {
				fs = append(fs, k+1)
				paths = append(paths, x.spell(x.files[k].path))
			}
			x.doCreate("s0", fs, paths, o == "link")
		case o == "open":
			x.doOpen("s0")
		case h == nil:
		case strings.HasPrefix(o, "run"):
			x.doRun(h, o[3:], x.solver, "solver", []string{}, 20*time.Second, time.Hour)
		case strings.HasPrefix(o, "remove"):
			x.doRemove(h, o[6:])
		case strings.HasPrefix(o, "do"):
			i := int(o[2] - '0')
			for _, q := range h.s.Runs {
				if q.Name == o[3:] {
					x.doDo(h, q, i)
					break
				}
			}
		}
	}
	if len(x.roots) > 0 {
		x.doOpen("s0")
		for k := 0; k < 3; k++ {
			x.query(x.hs[len(x.hs)-1])
		}
	}
}

func benchOne(args []string) {
	kind, solver, dir := args[0], args[3], args[4]
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	idx, _ := strconv.ParseUint(args[2], 10, 64)
	log.SetOutput(io.Discard)
	x := &bx{r: newRng(seed, idx+7777777), d: dir, solver: solver, t0: time.Now()}
	var ops [][]string
	if kind == "plan" {
		b, e := os.ReadFile(os.Getenv("ZZPLANS"))
		die(e)
		die(json.Unmarshal(b, &ops))
	}
	if os.Geteuid() == 0 {
		die(os.Chown(dir, 65534, 65534))
		if syscall.Setgroups(nil) == nil && syscall.Setgid(65534) == nil && syscall.Setuid(65534) == nil {
			x.unpriv = os.Geteuid() != 0
		}
	} else {
		x.unpriv = true
	}
	os.Unsetenv("ZZPLANS")
	for _, kv := range os.Environ() { // values of several lines are not for lines of files
		if strings.Contains(kv, "\n") {
			os.Unsetenv(kv[:strings.Index(kv, "=")])
		}
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				buf := make([]byte, 2000)
				x.emit(cev{"e": "panic", "msg": fmt.Sprint(p) + string(buf[:runtime.Stack(buf, false)])})
			}
		}()
		x.setup()
		if kind == "plan" {
			for _, f := range x.files {
				if f.ms > 1000 {
					f.ms = 5
					b := []byte(fmt.Sprintf("%s %d %d %s\n", f.word, f.code, f.ms, "sleep"))
					h := sha256.Sum256(b)
					f.hash = hex.EncodeToString(h[:])
					os.WriteFile(f.disk, b, 0644)
				}
			}
			x.was = x.snap()
			x.plan(ops[int(idx)%len(ops)])
		} else {
			x.random()
		}
	}()
	fs := []cev{}
	for _, f := range x.files {
		fs = append(fs, cev{"path": f.path, "chars": chars(f.path[len(f.path)-1]), "kx": strs(partsOf(f.path[len(f.path)-1])), "hash": f.hash, "word": f.word, "code": f.code, "ms": f.ms})
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"ev": x.ev, "files": fs})
}

// open to all: a directory others may enter
func benchTmp() string {
	for _, d := range []string{os.TempDir(), "/tmp", "/var/tmp", "/dev/shm"} {
		ok := true
		for p := d; ; p = filepath.Dir(p) {
			st, e := os.Stat(p)
			if e != nil || st.Mode()&1 == 0 {
				ok = false
				break
			}
			if p == "/" || p == "." {
				break
			}
		}
		if ok {
			return d
		}
	}
	return os.TempDir()
}

func benchMain(args []string) {
	fs := flag.NewFlagSet("bench", flag.ExitOnError)
	kind := fs.String("kind", "seq", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 1000, "")
	keep := fs.Int("keep", 100, "")
	base := fs.Uint64("base", 0, "")
	budget := fs.Duration("budget", 10*time.Second, "")
	out := fs.String("out", "", "")
	fs.Parse(args)
	top, e := os.MkdirTemp(benchTmp(), "zzbench")
	die(e)
	die(os.Chmod(top, 0755))
	exe, e := os.Executable()
	die(e)
	b, e := os.ReadFile(exe)
	die(e)
	solver := filepath.Join(top, "zzsolver")
	die(os.WriteFile(solver, b, 0755))
	atExit = func() { os.RemoveAll(top) }
	collect(*n, *keep, *budget, *out, func(idx uint64) (string, map[string]interface{}) {
		dir, e := os.MkdirTemp(top, "d")
		die(e)
		defer os.RemoveAll(dir)
		c := exec.Command(exe, "bench-one", *kind, fmt.Sprint(*seed), fmt.Sprint(idx), solver, dir)
		c.Dir = dir
		var o, er bytes.Buffer
		c.Stdout, c.Stderr = &o, &er
		t := time.AfterFunc(75*time.Second, func() { c.Process.Kill() })
		e = c.Run()
		t.Stop()
		tr := map[string]interface{}{}
		if json.Unmarshal(o.Bytes(), &tr) == nil && e == nil {
			return "", tr
		}
		m := er.String()
		if len(m) > 1500 {
			m = m[:1500]
		}
		k := "panic"
		if e != nil && strings.Contains(e.Error(), "killed") {
			k, m = "hang", "does not end"
		}
		return k, map[string]interface{}{"files": []cev{}, "ev": []cev{{"e": k, "msg": fmt.Sprint(e) + m}}}
	}, *base)
}
