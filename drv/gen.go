package main

// Package gen: generated problems, and the stand-in solver.

import (
	"flag"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/go-air/gini/gen"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
)

func init() { cmds["gen"] = genMain }

// genDst records clauses
type genDst struct {
	cl  [][]int
	cur []int
	bad bool
}

func (d *genDst) Add(m z.Lit) {
	if m == z.LitNull {
		d.cl = append(d.cl, append([]int{}, d.cur...))
		d.cur = d.cur[:0]
		return
	}
	if m < 2 || len(d.cl) > 1<<20 {
		d.bad = true
		return
	}
	d.cur = append(d.cur, m.Dimacs())
}

type gx struct {
	r   *rng
	ev  []cev
	sus string
}

func (x *gx) emit(e cev) { x.ev = append(x.ev, e) }

func (x *gx) get(f func(dst inter.Adder)) [][]int {
	d := &genDst{cl: [][]int{}}
	f(d)
	if d.bad || len(d.cur) != 0 {
		x.emit(cev{"e": "open"})
	}
	return d.cl
}

// matrix of the variables of elements and parts
func partVars(n, k int) [][]int {
	v := make([][]int, n)
	for i := range v {
		v[i] = make([]int, k)
		for j := range v[i] {
			v[i][j] = gen.PartVar(i, j, n).Dimacs()
		}
	}
	return v
}

func trues(a map[int]bool) []int {
	l := []int{}
	for v, b := range a {
		if b {
			l = append(l, v)
		}
	}
	sort.Ints(l)
	return l
}

// cases: assignments over vars worth judging: random ones, models found by
// local search, the given objects, and all of these with a few changes
func (x *gx) cases(vars []int, cl [][]int, objs [][]int) [][]int {
	r := x.r
	if len(vars) == 0 {
		return [][]int{{}}
	}
	as := [][]int{{}, append([]int{}, vars...)}
	note := func(a map[int]bool) {
		as = append(as, trues(a))
		for k := 0; k < 2; k++ {
			b := map[int]bool{}
			for v, t := range a {
				b[v] = t
			}
			for j := 1 + r.n(2); j > 0; j-- {
				v := vars[r.n(len(vars))]
				b[v] = !b[v]
			}
			as = append(as, trues(b))
		}
	}
	for k := 0; k < 4; k++ {
		a := map[int]bool{}
		d := 5 + r.n(90)
		for _, v := range vars {
			a[v] = r.p(d)
		}
		if k == 0 {
			note(a)
			continue
		}
		for s := 0; s < 300; s++ {
			var un []int
			for i, c := range cl {
				ok := false
				for _, l := range c {
					if a[abs(l)] == (l > 0) {
						ok = true
						break
					}
				}
				if !ok && len(c) > 0 {
					un = append(un, i)
				}
			}
			if len(un) == 0 {
				break
			}
			c := cl[un[r.n(len(un))]]
			l := c[r.n(len(c))]
			a[abs(l)] = l > 0
		}
		note(a)
	}
	for _, o := range objs {
		a := map[int]bool{}
		for _, v := range o {
			a[v] = true
		}
		note(a)
	}
	return as
}

func flat(v [][]int) []int {
	l := []int{}
	for _, r := range v {
		l = append(l, r...)
	}
	return l
}

func (x *gx) random(kind string) {
	r := x.r
	small := r.p(60)
	switch kind {
	case "php":
		p, h := r.n(5), r.n(4)
		if !small {
			p, h = 1+r.n(9), 1+r.n(9)
		}
		if r.p(20) {
			h = p
		}
		cl := x.get(func(d inter.Adder) { gen.Php(d, p, h) })
		v := partVars(p, h)
		e := cev{"e": "php", "p": p, "h": h, "v": v, "cl": cl, "all": p*h <= 8, "as": [][]int{}}
		if p*h > 8 {
			objs := [][]int{}
			for k := 0; k < 2; k++ {
				perm := r.perm(h)
				o := []int{}
				for i := 0; i < p; i++ {
					o = append(o, v[i][perm[i%h]])
				}
				objs = append(objs, o)
			}
			e["as"] = x.cases(flat(v), cl, objs)
		}
		x.emit(e)
	case "part", "py":
		n, k := r.n(5), r.n(4)
		if !small {
			n, k = 1+r.n(9), 1+r.n(4)
			if kind == "py" {
				n = 5 + r.n(22)
			}
		}
		cl := x.get(func(d inter.Adder) {
			if kind == "py" {
				gen.PyTriples(d, n, k)
			} else {
				gen.Partition(d, n, k)
			}
		})
		v := partVars(n, k)
		e := cev{"e": kind, "n": n, "k": k, "v": v, "cl": cl, "all": n*k <= 8, "as": [][]int{}}
		if n*k > 8 {
			objs := [][]int{}
			for q := 0; q < 3; q++ {
				in := make([]int, n)
				for i := range in {
					in[i] = r.n(k)
				}
				for s := 0; s < 200 && kind == "py" && q < 2; s++ { // separate triples
					done := true
					for a := 1; a <= n; a++ {
						for b := a + 1; b <= n; b++ {
							for c := b + 1; c <= n; c++ {
								if a*a+b*b == c*c && in[a-1] == in[b-1] && in[b-1] == in[c-1] {
									done = false
									in[[]int{a, b, c}[r.n(3)]-1] = r.n(k)
								}
							}
						}
					}
					if done {
						break
					}
				}
				o := []int{}
				for i := range in {
					o = append(o, v[i][in[i]])
				}
				objs = append(objs, o)
			}
			e["as"] = x.cases(flat(v), cl, objs)
		}
		x.emit(e)
	case "py2":
		n := 1 + r.n(8)
		if !small {
			n = 1 + r.n(40)
		}
		cl := x.get(func(d inter.Adder) { gen.Py2Triples(d, n) })
		vars := []int{}
		for i := 1; i <= n; i++ {
			vars = append(vars, i)
		}
		e := cev{"e": "py2", "n": n, "cl": cl, "all": n <= 8, "as": [][]int{}}
		if n > 8 {
			e["as"] = x.cases(vars, cl, nil)
		}
		x.emit(e)
	case "color":
		n := r.n(7)
		m, k := r.n(n*(n-1)/2+2), r.n(4)
		if !small {
			n, k = 1+r.n(14), 1+r.n(5)
			m = r.n(n*(n-1)/2 + 1)
		}
		cl := x.get(func(d inter.Adder) { gen.RandColor(d, n, m, k) })
		x.emit(cev{"e": "color", "n": n, "m": m, "k": k, "cl": cl})
	case "graph":
		n := r.n(7)
		if !small {
			n = 1 + r.n(30)
		}
		m := r.n(n*(n-1)/2 + 2)
		x.graph(n, m)
		if r.p(5) { // every edge is possible
			n = 2 + r.n(4)
			seen := make([]map[int]bool, n)
			for i := range seen {
				seen[i] = map[int]bool{}
			}
			for k := 0; k < 600; k++ {
				for i, es := range gen.RandGraph(n, 1) {
					for _, j := range es {
						seen[i][j] = true
					}
				}
			}
			g := make([][]int, n)
			for i := range g {
				g[i] = trues(seen[i])
			}
			x.emit(cev{"e": "graphs", "n": n, "g": g})
		}
	case "rand":
		n, m := 3+r.n(10), r.n(30)
		if r.p(25) {
			cl := x.get(func(d inter.Adder) { gen.HardRand3Cnf(d, n) })
			x.emit(cev{"e": "rand", "n": n, "m": 4 * n, "cl": cl})
		} else {
			cl := x.get(func(d inter.Adder) { gen.Rand3Cnf(d, n, m) })
			x.emit(cev{"e": "rand", "n": n, "m": m, "cl": cl})
		}
		if r.p(10) { // every literal is possible
			cl := x.get(func(d inter.Adder) { gen.Rand3Cnf(d, n, 40*n) })
			x.emit(cev{"e": "rand", "n": n, "m": 40 * n, "cl": cl})
			x.emit(cev{"e": "lits", "n": n, "ms": litsOf(cl)})
		}
	case "cycle":
		n := 1 + r.n(8)
		if !small {
			n = 1 + r.n(60)
		}
		cl := x.get(func(d inter.Adder) { gen.BinCycle(d, n) })
		vars := []int{}
		for i := 1; i <= n; i++ {
			vars = append(vars, i)
		}
		e := cev{"e": "cycle", "n": n, "cl": cl, "all": n <= 8, "as": [][]int{}}
		if n > 8 {
			e["as"] = x.cases(vars, cl, nil)
		}
		x.emit(e)
	case "cube":
		max, mv := 1+r.n(6), 1+r.n(12)
		c := gen.NewRandCuber(max, z.Var(mv))
		n := 3
		if r.p(10) {
			n, max, mv = 1500, 1+r.n(3), 4+r.n(2)
			c = gen.NewRandCuber(max, z.Var(mv))
		}
		all, sizes := map[int]bool{}, map[int]bool{}
		var buf []z.Lit
		for i := 0; i < n; i++ {
			buf = c.RandCube(buf)
			l := ils(buf)
			if i < 3 {
				x.emit(cev{"e": "cube", "max": max, "mv": mv, "c": l})
			}
			sizes[len(l)] = true
			for _, m := range l {
				all[m] = true
			}
		}
		if n > 100 {
			x.emit(cev{"e": "lits", "n": mv, "ms": trues(all)})
			x.emit(cev{"e": "sizes", "max": max, "ms": trues(sizes)})
		}
	case "stand":
		x.stand()
	}
}

func (x *gx) graph(n, m int) {
	g := gen.RandGraph(n, m)
	e := cev{"e": "graph", "n": n, "m": m, "nil": g == nil, "g": [][]int{}}
	if g != nil {
		for i := range g {
			if g[i] == nil {
				g[i] = []int{}
			}
		}
		e["g"] = g
	}
	x.emit(e)
}

func litsOf(cl [][]int) []int {
	all := map[int]bool{}
	for _, c := range cl {
		for _, m := range c {
			all[m] = true
		}
	}
	return trues(all)
}

// the same seed gives the same problems; the generator is shared, so this
// runs alone
func (x *gx) seeds() {
	r := x.r
	for k := 0; k < 6; k++ {
		s, n, m := int64(r.n(1000))-300, 3+r.n(8), 1+r.n(12)
		ab := [2][][]int{}
		for i := range ab {
			gen.Seed(s)
			for j := 0; j <= k%3; j++ {
				ab[i] = append(ab[i], x.get(func(d inter.Adder) { gen.Rand3Cnf(d, n, m) })...)
			}
			if i == 0 && r.p(50) {
				x.get(func(d inter.Adder) { gen.Rand3Cnf(d, n, r.n(5)) })
			}
		}
		x.emit(cev{"e": "same", "a": ab[0], "b": ab[1]})
	}
	// several users at once
	var wg sync.WaitGroup
	cls := [4][][]int{}
	for g := range cls {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			d := &genDst{}
			gen.Rand3Cnf(d, 5, 40)
			cls[g] = d.cl
		}(g)
	}
	wg.Wait()
	for g := range cls {
		x.emit(cev{"e": "rand", "n": 5, "m": 40, "cl": cls[g]})
	}
}

func (x *gx) stand() {
	r := x.r
	res := r.n(3) - 1
	d := time.Duration(200+r.n(4000)) * time.Microsecond
	s := gen.RandS(d, res)
	mv := 0
	for k := 0; k < 6; k++ {
		switch r.n(5) {
		case 0:
			t0 := time.Now()
			v := s.Solve()
			x.emit(cev{"e": "solve", "res": res, "r": v, "d": int(d.Milliseconds()), "ms": int(time.Since(t0).Milliseconds())})
		case 1:
			v := r.n(20)
			if v > 0 {
				s.Add(z.Var(v).Pos())
			}
			s.Add(z.LitNull)
			if v > mv {
				mv = v
			}
			if r.p(30) {
				mv++
				s.Lit()
			}
			x.emit(cev{"e": "maxvar", "r": int(s.MaxVar()), "w": mv})
		case 2:
			if r.p(50) {
				s = s.SCopy()
			}
		default:
			c := s.GoSolve()
			x.emit(cev{"e": "gos"})
			fin, paused := false, false
			for j := 0; !fin; j++ {
				e := cev{"e": "ctl", "exp": false, "res": res}
				v := 0
				o := r.n(10)
				if j > 6 {
					o = 7 + r.n(3)
				}
				switch {
				case paused:
					time.Sleep(time.Duration(r.n(300)) * time.Microsecond)
					c.Unpause()
					paused = false
					e["op"] = "unpause"
				case o < 3:
					v, fin = c.Test()
					e["op"] = "test"
				case o < 6:
					v, paused = c.Pause()
					fin = !paused
					e["op"] = "pause"
				case o < 7:
					time.Sleep(time.Duration(r.n(500)) * time.Microsecond)
					continue
				case o == 7:
					v, fin = c.Wait(), true
					e["op"] = "wait"
				case o == 8:
					v, fin = c.Stop(), true
					e["op"] = "stop"
				default:
					t := time.Duration(r.n(5000)) * time.Microsecond
					t0 := time.Now()
					v, fin = c.Try(t), true
					e["op"] = "try"
					e["exp"] = time.Since(t0) >= t
				}
				e["r"], e["fin"] = v, fin
				x.emit(e)
			}
		}
	}
}

func runGen(kind string, seed, idx uint64) *gx {
	x := &gx{r: newRng(seed, idx)}
	done := make(chan bool)
	var y *gx
	go func() {
		defer close(done)
		w := &gx{r: x.r}
		defer func() {
			if p := recover(); p != nil {
				w.emit(cev{"e": "panic", "what": fmt.Sprint(p)})
				w.sus = "panic"
			}
			y = w
		}()
		switch kind {
		case "seed":
			w.seeds()
		case "stand":
			w.stand()
		default:
			ks := []string{"php", "part", "py", "py2", "color", "graph", "rand", "cycle", "cube"}
			for k := 0; k < 5; k++ {
				w.random(ks[(int(idx)+k*2)%len(ks)])
			}
		}
	}()
	select {
	case <-done:
		return y
	case <-time.After(20 * time.Second):
		x.emit(cev{"e": "hang"})
		x.sus = "hang"
		return x
	}
}

func genMain(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	kind := fs.String("kind", "cnf", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 1000, "")
	keep := fs.Int("keep", 100, "")
	base := fs.Uint64("base", 0, "")
	budget := fs.Duration("budget", 10*time.Second, "")
	out := fs.String("out", "", "")
	fs.Parse(args)
	var alone sync.Mutex
	collect(*n, *keep, *budget, *out, func(idx uint64) (string, map[string]interface{}) {
		if *kind == "seed" {
			alone.Lock()
			defer alone.Unlock()
		}
		x := runGen(*kind, *seed, idx)
		return x.sus, map[string]interface{}{"ev": x.ev}
	}, *base)
}
