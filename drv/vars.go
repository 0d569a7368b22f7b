package main

// Package z: the two-way map of outer and inner variables, and literals.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"time"

	"github.com/go-air/gini/z"
)

func init() { cmds["vars"] = varsMain }

type vx struct {
	r    *rng
	ev   []cev
	sus  string
	vs   []*z.Vars
	inn  []map[int]bool // allocated inner variables
	seen []map[int]int  // outer variable -> inner variable
	back []map[int]int  // the reverse
	ask  [][]int        // inner variables ever seen
}

func (x *vx) add(v *z.Vars) {
	x.vs = append(x.vs, v)
	x.inn = append(x.inn, map[int]bool{})
	x.seen = append(x.seen, map[int]int{})
	x.back = append(x.back, map[int]int{})
	x.ask = append(x.ask, nil)
}

func (x *vx) note(c bool, s string) {
	if c && x.sus == "" {
		x.sus = s
	}
}

func dl(i int) z.Lit { return z.Dimacs2Lit(i) }

func sgn(l, v int) int {
	if l < 0 {
		return -v
	}
	return v
}

func (x *vx) bind(s, m, r int) {
	o, i := abs(m), abs(r)
	if m == 0 {
		x.note(r != 0, "null mapped")
		return
	}
	if old, ok := x.seen[s][o]; ok {
		x.note(r != sgn(m, old), "remapped")
		return
	}
	x.note(r == 0 || (r < 0) != (m < 0) || x.inn[s][i], "collision")
	if p, ok := x.back[s][i]; ok {
		x.note(p != o, "two outers")
	}
	x.seen[s][o], x.back[s][i] = i, o
	x.ask[s] = append(x.ask[s], i)
}

func (x *vx) in(s, m int) {
	r := x.vs[s].ToInner(dl(m)).Dimacs()
	x.ev = append(x.ev, cev{"e": "in", "s": s, "m": m, "r": r})
	x.bind(s, m, r)
}

func (x *vx) out(s, m int) {
	r := x.vs[s].ToOuter(dl(m)).Dimacs()
	x.ev = append(x.ev, cev{"e": "out", "s": s, "m": m, "r": r})
	if o, ok := x.back[s][abs(m)]; ok || m == 0 {
		x.note(r != sgn(m, o), "outer differs")
	} else if r != 0 {
		x.note(x.inn[s][abs(m)] || x.seen[s][abs(r)] != 0, "inner has an outer")
		x.seen[s][abs(r)], x.back[s][abs(m)] = abs(m), abs(r)
	}
}

func (x *vx) inner(s int) {
	r := x.vs[s].Inner().Dimacs()
	x.ev = append(x.ev, cev{"e": "inner", "s": s, "r": r})
	x.note(r <= 0 || x.inn[s][r] || x.back[s][r] != 0, "inner in use")
	x.inn[s][r] = true
	x.ask[s] = append(x.ask[s], r)
}

func (x *vx) allocated(s int) []int {
	l := []int{}
	for v := range x.inn[s] {
		l = append(l, v)
	}
	sort.Ints(l)
	return l
}

func (x *vx) free(s, v int, neg bool) {
	m := z.Var(v).Pos()
	if neg {
		m = m.Not()
	}
	x.vs[s].Free(m)
	x.ev = append(x.ev, cev{"e": "free", "s": s, "m": v})
	delete(x.inn[s], v)
}

func (x *vx) ins(s int, ms []int) {
	ls := []z.Lit{}
	for _, m := range ms {
		ls = append(ls, dl(m))
	}
	rs := []int{}
	for _, r := range x.vs[s].ToInners(ls) {
		rs = append(rs, r.Dimacs())
	}
	x.ev = append(x.ev, cev{"e": "ins", "s": s, "ms": ms, "rs": rs})
	x.note(len(rs) != len(ms), "lengths")
	for i := range rs {
		if i < len(ms) {
			x.bind(s, ms[i], rs[i])
		}
	}
}

func (x *vx) outs(s int, ms []int) {
	ls := []z.Lit{}
	w := []int{}
	for _, m := range ms {
		ls = append(ls, dl(m))
		if o, ok := x.back[s][abs(m)]; ok {
			w = append(w, sgn(m, o))
		}
	}
	rs := []int{}
	for _, r := range x.vs[s].ToOuters(ls) {
		rs = append(rs, r.Dimacs())
	}
	x.note(fmt.Sprint(rs) != fmt.Sprint(w), "outs differ")
	x.ev = append(x.ev, cev{"e": "outs", "s": s, "ms": ms, "rs": rs})
}

func (x *vx) copyOf(s int) {
	t := len(x.vs)
	x.add(x.vs[s].Copy())
	for k := range x.inn[s] {
		x.inn[t][k] = true
	}
	for k, v := range x.seen[s] {
		x.seen[t][k] = v
		x.back[t][v] = k
	}
	x.ask[t] = append(x.ask[t], x.ask[s]...)
	x.ev = append(x.ev, cev{"e": "copy", "s": s, "t": t})
}

// known: inner variables that certainly mean something
func (x *vx) known(s int) []int {
	l := x.allocated(s)
	for v := range x.back[s] {
		l = append(l, v)
	}
	sort.Ints(l)
	return l
}

func (x *vx) random() {
	r := x.r
	x.add(z.NewVars())
	span := 1 + r.n(12)
	sg := func(v int) int {
		if r.p(50) {
			return -v
		}
		return v
	}
	outer := func() int {
		if r.p(3) {
			return 0
		}
		if r.p(4) {
			return sg(1 + r.n(200))
		}
		return sg(1 + r.n(span))
	}
	n := 5 + r.n(40)
	for i := 0; i < n; i++ {
		s := r.n(len(x.vs))
		switch k := r.n(20); {
		case k < 6:
			x.in(s, outer())
		case k < 8:
			ms := []int{}
			for j := r.n(5); j > 0; j-- {
				ms = append(ms, outer())
			}
			x.ins(s, ms)
		case k < 11:
			x.inner(s)
		case k < 13:
			if l := x.allocated(s); len(l) > 0 {
				x.free(s, l[r.n(len(l))], r.p(30))
			}
		case k < 16:
			if l := x.ask[s]; len(l) > 0 && r.p(85) {
				x.out(s, sg(l[r.n(len(l))]))
			} else {
				x.out(s, sg(r.n(20)))
			}
		case k < 19:
			if l := x.known(s); len(l) > 0 {
				ms := []int{}
				for j := r.n(6); j > 0; j-- {
					ms = append(ms, sg(l[r.n(len(l))]))
				}
				x.outs(s, ms)
			}
		default:
			if len(x.vs) < 3 {
				x.copyOf(s)
			}
		}
	}
}

type planStep struct {
	Op string `json:"o"`
	A  int    `json:"a"`
}

var varPlans [][]planStep

func (x *vx) plan(p []planStep) {
	x.add(z.NewVars())
	flip := func(m int) int { // the signs are free
		if x.r.p(40) {
			return -m
		}
		return m
	}
	for _, st := range p {
		switch st.Op {
		case "in":
			x.in(0, flip(st.A))
		case "out":
			x.out(0, flip(st.A))
		case "inner":
			x.inner(0)
		case "free":
			if l := x.allocated(0); st.A <= len(l) {
				x.free(0, l[st.A-1], x.r.p(30))
			}
		}
	}
	for v := 1; v <= 4; v++ { // everything once more
		x.in(0, v)
	}
	x.outs(0, x.known(0))
}

func word(m z.Lit) []int { return []int{int(uint32(m) >> 16), int(uint32(m) & 0xffff)} }

func (x *vx) conv() {
	r := x.r
	for i := 0; i < 12; i++ {
		var d int
		switch r.n(4) {
		case 0:
			d = 1 + r.n(20)
		case 1:
			d = 1<<uint(r.n(31)) + r.n(3) - 1
		case 2:
			d = 1<<31 - 1 - r.n(3)
		default:
			d = 1 + r.n(1<<31-1)
		}
		if d == 0 {
			d = 1
		}
		if r.p(50) {
			d = -d
		}
		m := z.Dimacs2Lit(d)
		e := cev{"e": "conv", "s": 0, "d": d, "lit": word(m), "back": m.Dimacs(), "v": int(m.Var()), "not": word(m.Not()),
			"nn": word(m.Not().Not()), "vn": int(m.Not().Var()), "sign": int(m.Sign()), "pos": m.IsPos(),
			"vpos": word(m.Var().Pos()), "vneg": word(m.Var().Neg()), "str": m.String(), "vstr": m.Var().String()}
		x.note(m.Dimacs() != d || m.Not().Dimacs() != -d || int(m.Var()) != abs(d) || m.IsPos() != (d > 0), "conversion")
		x.ev = append(x.ev, e)
	}
}

func runVars(kind string, seed, idx uint64) (x *vx) {
	x = &vx{r: newRng(seed, idx)}
	defer func() {
		if p := recover(); p != nil {
			x.ev = append(x.ev, cev{"e": "panic", "s": 0, "msg": fmt.Sprint(p)})
			x.sus = "panic"
		}
	}()
	switch kind {
	case "seq":
		x.random()
	case "plan":
		x.plan(varPlans[idx%uint64(len(varPlans))])
	case "conv":
		x.conv()
	}
	return
}

func varsMain(args []string) {
	fs := flag.NewFlagSet("vars", flag.ExitOnError)
	kind := fs.String("kind", "seq", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 1000, "")
	keep := fs.Int("keep", 100, "")
	base := fs.Uint64("base", 0, "")
	budget := fs.Duration("budget", 10*time.Second, "")
	out := fs.String("out", "", "")
	fs.Parse(args)
	if *kind == "plan" {
		b, err := os.ReadFile(os.Getenv("ZZPLANS"))
		die(err)
		die(json.Unmarshal(b, &varPlans))
	}
	collect(*n, *keep, *budget, *out, func(idx uint64) (string, map[string]interface{}) {
		x := runVars(*kind, *seed, idx)
		return x.sus, map[string]interface{}{"ev": x.ev}
	}, *base)
}
