package main

import (
	"bufio"
	"os"
	"strconv"
	"strings"
	"sync"
)

// profile weights per op kind
type prof struct {
	nvLo, nvHi           int
	len                  int // number of steps after the initial clauses
	add, ass, solve, try int
	gosolve, val, why    int
	test, untest, rsn    int
	act, actw, deact     int
	copy, part, gc, lit  int
	tune, state          int
	write, load          int
	async                int
	inner                int
	tick                 int // percentage of scripts with frequent control ticks
	dens                 int // initial clauses per variable * 10 (max)
}

var profs = map[string]prof{
	"core":  {nvLo: 3, nvHi: 7, len: 30, add: 30, ass: 30, solve: 30, val: 6, why: 6, part: 3, gosolve: 3, try: 2, test: 2, untest: 3, lit: 2, dens: 40},
	"hard":  {nvLo: 7, nvHi: 9, len: 30, add: 20, ass: 40, solve: 30, val: 3, why: 3, gosolve: 3, gc: 4, tune: 60, dens: 45},
	"scope": {nvLo: 3, nvHi: 7, len: 40, add: 6, ass: 30, solve: 14, test: 30, untest: 22, rsn: 8, val: 2, why: 3, gosolve: 1, gc: 2, tune: 30, dens: 30},
	"act":   {nvLo: 3, nvHi: 6, len: 40, add: 6, ass: 30, solve: 22, act: 14, actw: 12, deact: 12, val: 2, why: 2, test: 4, untest: 5, gc: 4, lit: 2, tune: 50, dens: 18},
	"copy":  {nvLo: 3, nvHi: 7, len: 45, add: 14, ass: 24, solve: 18, test: 8, untest: 8, rsn: 3, act: 4, actw: 4, deact: 4, copy: 8, val: 3, why: 3, part: 3, gosolve: 2, gc: 2, lit: 2, tune: 30, dens: 28},
	"try":   {nvLo: 4, nvHi: 8, len: 30, add: 14, ass: 26, solve: 16, try: 24, gosolve: 4, async: 8, test: 6, untest: 5, val: 3, why: 3, tick: 80, dens: 38},
	"db":    {nvLo: 5, nvHi: 8, len: 40, add: 16, ass: 28, solve: 26, test: 5, untest: 5, act: 5, actw: 5, deact: 5, copy: 2, gc: 8, part: 3, state: 22, tune: 75, dens: 42},
	"rsn":   {nvLo: 4, nvHi: 8, len: 40, add: 6, ass: 30, solve: 8, test: 30, untest: 16, rsn: 24, gc: 2, tune: 30, dens: 30},
	"asm":   {nvLo: 3, nvHi: 7, len: 40, add: 5, ass: 34, solve: 34, try: 3, gosolve: 4, test: 9, untest: 8, why: 2, dens: 36},
	"write": {nvLo: 3, nvHi: 7, len: 40, add: 16, ass: 20, solve: 20, test: 6, untest: 6, act: 7, actw: 6, deact: 7, copy: 2, part: 3, gc: 5, lit: 2, write: 16, load: 7, tune: 60, dens: 34},
	"async": {nvLo: 4, nvHi: 9, len: 30, add: 14, ass: 28, solve: 6, try: 4, async: 32, test: 7, untest: 6, copy: 3, val: 3, why: 3, gc: 2, tune: 30, tick: 90, dens: 42},
	"sv":    {nvLo: 3, nvHi: 7, len: 45, add: 18, ass: 24, solve: 18, try: 2, test: 9, untest: 8, rsn: 4, copy: 4, part: 3, gosolve: 2, val: 3, why: 3, lit: 5, inner: 14, dens: 26},
	"mix":   {nvLo: 3, nvHi: 8, len: 50, add: 16, ass: 28, solve: 22, try: 3, gosolve: 3, test: 9, untest: 8, rsn: 3, act: 5, actw: 5, deact: 5, copy: 2, val: 3, why: 3, part: 3, gc: 3, lit: 2, tune: 40, dens: 34},
}

func genInc(seed, idx uint64, pn string, nvFix int) *script {
	pr, ok := profs[pn]
	if !ok {
		panic("profile " + pn)
	}
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: pn}
	sc.NV = nvFix
	if nvFix == 0 {
		sc.NV = r.rng(pr.nvLo, pr.nvHi)
	}
	switch r.n(3) {
	case 0:
		sc.Lazy = true
	case 1:
		sc.Pre = true
	}
	if pr.act+pr.actw > 0 && !sc.Lazy {
		sc.Pre = true
	}
	if r.p(pr.tune) {
		sc.Tune = 1 + r.n(6)
	}
	if r.p(pr.tick) {
		sc.Tick = 1 << uint(r.n(8))
	}
	if r.p(pr.tune) {
		sc.Rst = 1 + r.n(4)
	}
	if r.p(15) {
		sc.Cap = 1 + r.n(6)
	} else if pr.act > 0 && r.p(30) { // the storage grows among the activation literals
		sc.Cap = sc.NV + r.n(8)
	}
	sc.Sv = pr.inner > 0
	g := &incGen{r: r, pr: pr, sc: sc, depth: map[int]int{}, nsol: 1, clen: r.n(5), alive: map[int][]int{}, copyProb: r.p(50)}
	for j := 0; sc.Sv && j < 3; j++ { // before anything else
		if r.p(40) {
			g.put(op{O: "inner", L: []int{g.blit()}})
		}
	}
	n0 := r.n(sc.NV*pr.dens/10 + 1)
	if r.p(60) { // near the threshold, so that conflicts happen
		n0 = sc.NV * pr.dens / 10
	}
	for i := 0; i < n0; i++ {
		g.put(op{O: "add", L: g.clause()})
	}
	n := pr.len/2 + r.n(pr.len)
	for i := 0; i < n; i++ {
		g.step()
	}
	return sc
}

type incGen struct {
	r        *rng
	pr       prof
	sc       *script
	depth    map[int]int
	nsol     int
	nact     int
	clen     int
	alive    map[int][]int
	pool     []int
	copyProb bool
}

func (g *incGen) put(o op) { g.sc.Ops = append(g.sc.Ops, o) }

func (g *incGen) blit() int {
	v := 1 + g.r.n(g.sc.NV)
	if g.r.p(50) {
		return -v
	}
	return v
}

func (g *incGen) clause() []int {
	n := 0
	r := g.r.n(100)
	switch g.clen {
	case 0: // mostly ternary
		n = 3
		if r < 20 {
			n = 2
		} else if r < 25 {
			n = 1
		} else if r < 35 {
			n = 4
		}
	case 1:
		n = 2 + g.r.n(3)
	case 2:
		n = 1 + g.r.n(4)
	case 3:
		n = 3
	case 4:
		n = 3 + g.r.n(3)
	}
	if r == 99 && g.r.p(30) {
		n = 0
	}
	c := make([]int, 0, n)
	dup := g.r.p(8)
	for len(c) < n {
		l := g.blit()
		if !dup {
			bad := false
			for _, m := range c {
				if abs(m) == abs(l) {
					bad = true
				}
			}
			if bad {
				if n > g.sc.NV {
					n--
				}
				continue
			}
		}
		c = append(c, l)
	}
	if len(c) > 0 && g.r.p(2) { // the same, said at length
		for n := len(c) + g.r.n(4); len(c) < n*n*2; {
			c = append(c, c[g.r.n(len(c))])
		}
		k := g.r.n(len(c))
		c[0], c[k] = c[k], c[0]
	}
	return c
}

func (g *incGen) step() {
	p := g.pr
	r := g.r
	ws := []int{p.add, p.ass, p.solve, p.try, p.gosolve, p.val, p.why, p.test, p.untest, p.rsn, p.act, p.actw, p.deact, p.copy, p.part, p.gc, p.lit, p.state, p.write, p.load, p.async, p.inner}
	t := 0
	for _, w := range ws {
		t += w
	}
	k := r.n(t)
	i := 0
	for k >= ws[i] {
		k -= ws[i]
		i++
	}
	s := 0
	if g.nsol > 1 {
		s = r.n(g.nsol)
	}
	flag := r.n(8)
	switch i {
	case 0:
		for g.depth[s] > 0 && r.p(80) {
			g.put(op{O: "untest", S: s})
			g.depth[s]--
		}
		g.put(op{O: "add", S: s, L: g.clause()})
	case 1:
		n := 1 + r.n(3)
		l := []int{}
		for j := 0; j < n; j++ {
			if len(g.alive[s]) > 0 && r.p(60) {
				l = append(l, g.alive[s][r.n(len(g.alive[s]))])
			} else {
				l = append(l, g.blit())
			}
		}
		g.put(op{O: "ass", S: s, L: l, F: r.n(2)})
	case 2:
		g.put(op{O: "solve", S: s, F: flag})
		if r.p(10) {
			g.put(op{O: "solve", S: s, F: r.n(8)})
		}
	case 3:
		d := 20000000
		if r.p(40) {
			d = 1 + r.n(3)
		} else if r.p(40) {
			d = 1 + r.n(60)
		}
		g.put(op{O: "try", S: s, T: d, F: flag})
	case 4:
		g.put(op{O: "go", S: s, F: flag})
	case 5:
		g.put(op{O: "val", S: s})
	case 6:
		g.put(op{O: "why", S: s, F: r.n(4)})
	case 7:
		g.put(op{O: "test", S: s, F: flag})
		g.depth[s]++
	case 8:
		g.put(op{O: "untest", S: s})
		if g.depth[s] > 0 {
			g.depth[s]--
		}
	case 9:
		g.put(op{O: "rsn", S: s, F: r.n(2)})
	case 10, 11:
		for g.depth[s] > 0 {
			g.put(op{O: "untest", S: s})
			g.depth[s]--
		}
		if i == 10 {
			c := g.clause()
			if len(c) == 0 {
				c = []int{g.blit()}
			}
			g.nact++
			g.alive[s] = append(g.alive[s], actBase+g.nact)
			g.put(op{O: "act", S: s, L: c})
			return
		}
		if len(g.alive[s]) == 0 || r.p(30) {
			g.nact++
			g.alive[s] = append(g.alive[s], actBase+g.nact)
			g.put(op{O: "actl", S: s})
		}
		c := g.clause()
		if len(c) == 0 {
			c = []int{g.blit()}
		}
		g.put(op{O: "actw", S: s, T: g.alive[s][r.n(len(g.alive[s]))], L: c})
	case 12:
		if len(g.alive[s]) == 0 {
			return
		}
		for g.depth[s] > 0 {
			g.put(op{O: "untest", S: s})
			g.depth[s]--
		}
		j := r.n(len(g.alive[s]))
		g.put(op{O: "deact", S: s, T: g.alive[s][j]})
		g.alive[s] = append(append([]int{}, g.alive[s][:j]...), g.alive[s][j+1:]...)
	case 13:
		if g.nsol >= 3 {
			return
		}
		t := g.nsol
		g.nsol++
		g.depth[t] = g.depth[s]
		g.alive[t] = append([]int{}, g.alive[s]...)
		g.put(op{O: "copy", S: s, T: t})
	case 14:
		if g.depth[s] == 0 {
			g.put(op{O: "part", S: s, L: []int{g.blit()}})
		}
	case 15:
		g.put(op{O: "gc", S: s})
	case 17:
		g.put(op{O: "state", S: s})
	case 16:
		g.put(op{O: "lit", S: s})
	case 18:
		o := op{O: "write", S: s, F: r.n(8)}
		if o.F == 7 {
			o.T = r.n(80)
		}
		g.put(o)
	case 20:
		g.put(op{O: "gos", S: s})
		asyncOps(r, g.put, s, false)
	case 21:
		if r.p(30) {
			g.put(op{O: "finner", S: s, T: r.n(8)})
			return
		}
		l := []int{}
		for j := r.n(4); j > 0; j-- {
			l = append(l, g.blit())
		}
		g.put(op{O: "inner", S: s, L: l})
	case 19:
		if g.nsol >= 3 {
			return
		}
		t := g.nsol
		g.nsol++
		g.put(op{O: "load", S: s, T: t})
		g.alive[t] = append([]int{}, g.alive[s]...)
	}
}

// asyncOps: calls on a running solve up to its result
func asyncOps(r *rng, put func(op), s int, hard bool) {
	nap := func() {
		put(op{O: "cnap", S: s, T: []int{0, 0, 1, 5, 20, 80, 300}[r.n(7)]})
	}
	for r.p(65) {
		switch r.n(4) {
		case 0:
			nap()
		case 1:
			put(op{O: "ctest", S: s, F: r.n(8)})
		default:
			put(op{O: "cpause", S: s, F: r.n(8)})
			if r.p(40) {
				nap()
			}
			put(op{O: "cunpause", S: s})
		}
	}
	switch k := r.n(10); {
	case k < 5:
		put(op{O: "cstop", S: s, F: r.n(8)})
	case k < 7 || hard:
		d := 20000000
		if hard || r.p(60) {
			d = 1 + r.n(200)
		}
		put(op{O: "ctry", S: s, T: d, F: r.n(8)})
	default:
		put(op{O: "cwait", S: s, F: r.n(8)})
	}
}

// histories printed from IncMC: [[{o, m, l...}]]
var histPlans []struct {
	Ops []op
}
var histOnce sync.Once

func init() { gens["hist"] = genHist }

// genHist replays a history of the specification, possibly on a copy as well.
func genHist(seed, idx uint64, nv int) *script {
	histOnce.Do(func() {
		f, err := os.Open(os.Getenv("ZZHIST"))
		die(err)
		defer f.Close()
		sc := bufio.NewScanner(f)
		for sc.Scan() { // o m l...,o m l...
			var h struct{ Ops []op }
			for _, w := range strings.Split(sc.Text(), ",") {
				p := strings.Fields(w)
				o := op{O: p[0]}
				for j, x := range p[1:] {
					k, err := strconv.Atoi(x)
					die(err)
					if j == 0 {
						o.T = k
					} else {
						o.L = append(o.L, k)
					}
				}
				h.Ops = append(h.Ops, o)
			}
			histPlans = append(histPlans, h)
		}
		die(sc.Err())
	})
	ops := histPlans[idx%uint64(len(histPlans))].Ops
	r := newRng(seed, idx)
	s := &script{Id: int(idx), Kind: "hist", NV: 2}
	switch r.n(3) {
	case 0:
		s.Lazy = true
	case 1:
		s.Pre = true
	}
	for _, o := range ops {
		if o.O == "act" && !s.Lazy {
			s.Pre = true
		}
	}
	if r.p(30) {
		s.Tune = 1 + r.n(3)
	}
	if r.p(30) {
		s.Tick = 1 << uint(r.n(3))
	}
	if r.p(15) {
		s.Cap = 1 + r.n(3)
	}
	cp, both := -1, false
	if r.p(30) {
		cp, both = r.n(len(ops)), r.p(60)
	}
	for i, o := range ops {
		if i == cp {
			s.Ops = append(s.Ops, op{O: "copy", T: 1})
		}
		o.F = r.n(8)
		if o.O == "solve" && r.p(15) {
			o.O = "go"
		}
		if cp >= 0 && i >= cp {
			c := o
			c.S = 1
			c.F = r.n(8)
			if both && c.O != "act" && r.p(50) {
				s.Ops = append(s.Ops, c, o)
				continue
			}
			if !both && o.O != "act" && r.p(50) { // only one of them goes on
				o = c
			} else if both && c.O != "act" {
				s.Ops = append(s.Ops, o)
				o = c
			}
		}
		s.Ops = append(s.Ops, o)
		if r.p(12) {
			s.Ops = append(s.Ops, op{O: []string{"rsn", "why", "val", "state", "gc"}[r.n(5)], S: o.S, F: r.n(2)})
		}
	}
	n := 1
	if cp >= 0 {
		n = 2
	}
	for k := 0; k < n; k++ {
		if r.p(50) {
			s.Ops = append(s.Ops, op{O: "rsn", S: k}, op{O: "untest", S: k}, op{O: "untest", S: k})
		}
		s.Ops = append(s.Ops, op{O: "solve", S: k, F: r.n(8)}, op{O: "state", S: k}, op{O: "ass", S: k, L: []int{1 + r.n(2)}}, op{O: "solve", S: k, F: r.n(8)})
	}
	return s
}
