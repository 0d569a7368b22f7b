package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/bits"
	"os"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"
)

func init() { cmds["circ"] = circMain }

type cev map[string]interface{}

func il(m z.Lit) int {
	if m == z.LitNull {
		return 0
	}
	return m.Dimacs()
}
func ils(ms []z.Lit) []int {
	r := make([]int, len(ms))
	for i, m := range ms {
		r[i] = il(m)
	}
	return r
}

// one circuit under test with the functions we expect (triage only)
type circ struct {
	id   int
	c    *logic.C
	s    *logic.S // nil for a plain circuit
	lits []z.Lit  // literals handed out
	ins  []z.Lit
	lats []z.Lit
	fn   map[z.Var]uint64
	init map[z.Lit]z.Lit
	next map[z.Lit]z.Lit
	mark map[int][]int8
	cls  map[int][][]z.Lit
	need map[int]map[z.Var]bool
}

type cx struct {
	r     *rng
	ev    []cev
	sus   string
	lanes int
	mask  uint64
	maxIn int
	nid   int
	exh   bool
}

func (x *cx) emit(e cev) { x.ev = append(x.ev, e) }
func (x *cx) bad(s string) {
	if x.sus == "" {
		x.sus = s
	}
}
func laneList(u uint64) []int {
	r := []int{}
	for i := 0; i < 64; i++ {
		if u>>uint(i)&1 == 1 {
			r = append(r, i)
		}
	}
	return r
}

func newCx(r *rng, maxIn int) *cx {
	x := &cx{r: r, maxIn: maxIn}
	if maxIn <= 6 && r.p(80) {
		x.exh = true
		x.lanes = 1 << uint(maxIn)
	} else {
		x.lanes = r.rng(16, 64)
	}
	if x.lanes == 64 {
		x.mask = ^uint64(0)
	} else {
		x.mask = (1 << uint(x.lanes)) - 1
	}
	return x
}

// the function of the k'th free variable
func (x *cx) pattern(k int) uint64 {
	if x.exh && k < 6 {
		u := uint64(0)
		for l := 0; l < x.lanes; l++ {
			if l>>uint(k)&1 == 1 {
				u |= 1 << uint(l)
			}
		}
		return u
	}
	return x.r.u64() & x.mask
}

func (x *cx) newCirc(seq bool) *circ {
	c := &circ{fn: map[z.Var]uint64{}, init: map[z.Lit]z.Lit{}, next: map[z.Lit]z.Lit{}, mark: map[int][]int8{},
		cls: map[int][][]z.Lit{}, need: map[int]map[z.Var]bool{}}
	x.nid++
	c.id = x.nid
	hint := []int{0, 1, 2, 3, 5, 8, 16, 40, 128, 256}[x.r.n(10)]
	if seq {
		if x.r.p(30) {
			c.s = logic.NewS()
		} else {
			c.s = logic.NewSCap(hint)
		}
		c.c = &c.s.C
	} else if x.r.p(30) {
		c.c = logic.NewC()
	} else {
		c.c = logic.NewCCap(hint)
	}
	x.emit(cev{"e": "new", "r": c.id, "T": il(c.c.T)})
	c.fn[c.c.T.Var()] = x.mask
	if !c.c.T.IsPos() {
		c.fn[c.c.T.Var()] = 0
	}
	if c.c.F != c.c.T.Not() {
		x.bad("F")
	}
	c.lits = append(c.lits, c.c.T, c.c.F)
	return c
}

func (c *circ) val(x *cx, m z.Lit) uint64 {
	u := c.fn[m.Var()]
	if m.IsPos() {
		return u
	}
	return ^u & x.mask
}

func (c *circ) bind(x *cx, r z.Lit, e uint64, what string) {
	if u, ok := c.fn[r.Var()]; ok {
		if !r.IsPos() {
			u = ^u & x.mask
		}
		if u != e {
			x.bad(what)
		}
	} else {
		if !r.IsPos() {
			e = ^e & x.mask
		}
		c.fn[r.Var()] = e
	}
	c.lits = append(c.lits, r)
}

func (c *circ) free() int { return len(c.ins) + len(c.lats) }

func (c *circ) newIn(x *cx) {
	if c.free() >= x.maxIn {
		return
	}
	p := x.pattern(c.free())
	m := c.c.Lit()
	x.emit(cev{"e": "in", "c": c.id, "r": il(m), "pat": laneList(p)})
	if _, ok := c.fn[m.Var()]; ok || !m.IsPos() {
		x.bad("fresh")
	}
	c.fn[m.Var()] = p
	c.ins = append(c.ins, m)
	c.lits = append(c.lits, m)
}

func (c *circ) newLatch(x *cx) {
	if c.free() >= x.maxIn {
		return
	}
	p := x.pattern(c.free())
	ini := []z.Lit{c.s.F, c.s.T, z.LitNull}[x.r.n(3)]
	m := c.s.Latch(ini)
	x.emit(cev{"e": "latch", "c": c.id, "r": il(m), "pat": laneList(p)})
	if _, ok := c.fn[m.Var()]; ok || !m.IsPos() {
		x.bad("fresh")
	}
	c.fn[m.Var()] = p
	c.lats = append(c.lats, m)
	c.lits = append(c.lits, m)
	c.init[m] = ini
	c.next[m] = m
}

func (c *circ) pick(x *cx) z.Lit {
	var m z.Lit
	switch {
	case x.r.p(8):
		m = c.c.T
	case x.r.p(40) && len(c.lits) > 6:
		m = c.lits[len(c.lits)-1-x.r.n(6)]
	default:
		m = c.lits[x.r.n(len(c.lits))]
	}
	if x.r.p(45) {
		m = m.Not()
	}
	return m
}

func (c *circ) picks(x *cx, n int) []z.Lit {
	r := make([]z.Lit, n)
	for i := range r {
		r[i] = c.pick(x)
	}
	return r
}

func (c *circ) op(x *cx, name string, a []z.Lit) z.Lit {
	v := make([]uint64, len(a))
	for i := range a {
		v[i] = c.val(x, a[i])
	}
	var r z.Lit
	var e uint64
	args := ils(a)
	cp := append([]z.Lit{}, a...)
	switch name {
	case "and":
		r, e = c.c.And(a[0], a[1]), v[0]&v[1]
	case "or":
		r, e = c.c.Or(a[0], a[1]), v[0]|v[1]
	case "xor":
		r, e = c.c.Xor(a[0], a[1]), v[0]^v[1]
	case "implies":
		r, e = c.c.Implies(a[0], a[1]), (^v[0]&x.mask)|v[1]
	case "choice":
		r, e = c.c.Choice(a[0], a[1], a[2]), (v[0]&v[1])|(^v[0]&x.mask&v[2])
	case "ands":
		e = x.mask
		for _, u := range v {
			e &= u
		}
		r = c.c.Ands(cp...)
	case "ors":
		for _, u := range v {
			e |= u
		}
		r = c.c.Ors(cp...)
	}
	kept := ils(cp) // the caller's slice afterwards
	for i := range a {
		if cp[i] != a[i] {
			x.bad("kept")
		}
	}
	x.emit(cev{"e": "op", "c": c.id, "op": name, "a": args, "r": il(r), "kept": kept})
	c.bind(x, r, e, "gate")
	return r
}

func (x *cx) arity() int {
	if x.r.p(6) {
		return x.r.rng(6, 40)
	}
	return x.r.n(6)
}

func (c *circ) randOp(x *cx) {
	switch x.r.n(9) {
	case 0, 1:
		c.op(x, "and", c.picks(x, 2))
	case 2:
		c.op(x, "or", c.picks(x, 2))
	case 3:
		c.op(x, "xor", c.picks(x, 2))
	case 4:
		c.op(x, "implies", c.picks(x, 2))
	case 5:
		c.op(x, "choice", c.picks(x, 3))
	case 6:
		c.op(x, "ands", c.picks(x, x.arity()))
	case 7:
		c.op(x, "ors", c.picks(x, x.arity()))
	case 8: // the same gate again, arguments swapped
		a := c.picks(x, 2)
		c.op(x, "and", a)
		c.op(x, "and", []z.Lit{a[1], a[0]})
	}
}

func (c *circ) nodes() [][]int {
	n := c.c.Len()
	r := make([][]int, 0, n)
	for v := 1; v < n; v++ {
		m := c.c.At(v)
		if c.s != nil {
			switch c.s.Type(m) {
			case logic.SConst:
				r = append(r, []int{3, 0, 0})
			case logic.SInput:
				r = append(r, []int{0, 0, 0})
			case logic.SLatch:
				r = append(r, []int{2, il(c.s.Init(m)), il(c.s.Next(m))})
			default:
				a, b := c.s.Ins(m)
				r = append(r, []int{1, il(a), il(b)})
			}
			continue
		}
		a, b := c.c.Ins(m)
		switch {
		case m.Var() == c.c.T.Var():
			r = append(r, []int{3, 0, 0})
		case a == z.LitNull && b == z.LitNull:
			r = append(r, []int{0, 0, 0})
		default:
			r = append(r, []int{1, il(a), il(b)})
		}
	}
	return r
}

// functions by structure (triage)
func structFn(x *cx, ns [][]int, free map[int]uint64) []uint64 {
	g := make([]uint64, len(ns)+1)
	val := func(m int) uint64 {
		if m < 0 {
			return ^g[-m] & x.mask
		}
		return g[m]
	}
	for i, n := range ns {
		v := i + 1
		switch n[0] {
		case 3:
			g[v] = x.mask
		case 1:
			if abs(n[1]) >= v || abs(n[2]) >= v {
				x.bad("topo")
				return g
			}
			g[v] = val(n[1]) & val(n[2])
		default:
			g[v] = free[v]
		}
	}
	return g
}

func (c *circ) dump(x *cx) [][]int {
	ns := c.nodes()
	at := make([]int, 0, len(ns))
	for i := 1; i < c.c.Len(); i++ {
		at = append(at, il(c.c.At(i)))
	}
	var dst []int
	if x.r.p(50) {
		dst = make([]int, x.r.n(4), 3+x.r.n(8))
	}
	inpos := c.c.InPos(dst)
	x.emit(cev{"e": "dump", "c": c.id, "nodes": ns, "at": at, "inpos": inpos})
	free := map[int]uint64{}
	for _, m := range c.ins {
		free[int(m.Var())] = c.fn[m.Var()]
	}
	for _, m := range c.lats {
		free[int(m.Var())] = c.fn[m.Var()]
	}
	if len(inpos) != len(c.ins) {
		x.bad("inpos")
	}
	g := structFn(x, ns, free)
	for v, u := range c.fn {
		if int(v) >= len(g) || g[v] != u {
			x.bad("struct")
		}
	}
	return ns
}

func (c *circ) eval(x *cx) {
	n := c.c.Len()
	lane := x.r.n(x.lanes)
	vs := make([]bool, n)
	for i := range vs {
		vs[i] = x.r.p(50)
	}
	for _, m := range append(append([]z.Lit{}, c.ins...), c.lats...) {
		vs[m.Var()] = c.fn[m.Var()]>>uint(lane)&1 == 1
	}
	c.c.Eval(vs)
	o := make([]int, n-1)
	for i := 1; i < n; i++ {
		if vs[i] {
			o[i-1] = 1
		}
	}
	x.emit(cev{"e": "eval", "c": c.id, "lane": lane, "vs": o})
	for v, u := range c.fn {
		if vs[v] != (u>>uint(lane)&1 == 1) {
			x.bad("eval")
		}
	}
}

func (c *circ) eval64(x *cx) {
	n := c.c.Len()
	vs := make([]uint64, n)
	for i := range vs {
		vs[i] = x.r.u64()
	}
	for _, m := range append(append([]z.Lit{}, c.ins...), c.lats...) {
		vs[m.Var()] = c.fn[m.Var()]
		if x.lanes <= 32 { // fill the upper lanes too; the mask moves them down below
			vs[m.Var()] |= c.fn[m.Var()] << uint(64-x.lanes)
		}
	}
	c.c.Eval64(vs)
	for _, up := range []bool{false, true} {
		if up && x.lanes > 32 {
			break
		}
		o := make([][]int, n-1)
		for i := 1; i < n; i++ {
			u := vs[i]
			if up {
				u >>= uint(64 - x.lanes)
			}
			o[i-1] = laneList(u & x.mask)
		}
		x.emit(cev{"e": "eval64", "c": c.id, "vs": o})
		for v, u := range c.fn {
			w := vs[v]
			if up {
				w >>= uint(64 - x.lanes)
			}
			if w&x.mask != u {
				x.bad("eval64")
			}
		}
	}
}

func (x *cx) copyOf(c *circ) *circ {
	d := &circ{fn: map[z.Var]uint64{}, init: map[z.Lit]z.Lit{}, next: map[z.Lit]z.Lit{}, mark: map[int][]int8{},
		cls: map[int][][]z.Lit{}, need: map[int]map[z.Var]bool{}}
	x.nid++
	d.id = x.nid
	if c.s != nil {
		d.s = c.s.Copy()
		d.c = &d.s.C
	} else {
		d.c = c.c.Copy()
	}
	x.emit(cev{"e": "copy", "c": c.id, "r": d.id})
	for k, v := range c.fn {
		d.fn[k] = v
	}
	for k, v := range c.init {
		d.init[k] = v
	}
	for k, v := range c.next {
		d.next[k] = v
	}
	for k, v := range c.mark {
		d.mark[k] = append([]int8{}, v...)
	}
	for k, v := range c.cls {
		d.cls[k] = append([][]z.Lit{}, v...)
	}
	for k, v := range c.need {
		d.need[k] = map[z.Var]bool{}
		for a := range v {
			d.need[k][a] = true
		}
	}
	d.lits = append(d.lits, c.lits...)
	d.ins = append(d.ins, c.ins...)
	d.lats = append(d.lats, c.lats...)
	return d
}

type clsSink struct {
	cls  [][]z.Lit
	cur  []z.Lit
	open bool
}

func (s *clsSink) Add(m z.Lit) {
	if m == z.LitNull {
		s.cls = append(s.cls, s.cur)
		s.cur = nil
		s.open = false
		return
	}
	s.cur = append(s.cur, m)
	s.open = true
}

// translate to clauses: set k accumulates CnfSince steps, 0 are fresh sets
func (c *circ) cnf(x *cx, k int) {
	ns := c.dump(x)
	snk := &clsSink{}
	var roots []z.Lit
	all := false
	ttl := -1
	if k == 0 {
		x.nid++
		k = -x.nid
		if x.r.p(40) {
			all = true
			c.c.ToCnf(snk)
		} else {
			roots = c.picks(x, x.r.n(4))
			c.c.ToCnfFrom(snk, roots...)
		}
	} else {
		roots = c.picks(x, x.r.n(4))
		mk := c.mark[k]
		if mk != nil && x.r.p(20) { // room to spare, with garbage in it
			t := make([]int8, len(mk), len(mk)+x.r.n(60))
			for i := range t[:cap(t)] {
				t[:cap(t)][i] = 1
			}
			copy(t, mk)
			mk = t
		}
		rcp := append([]z.Lit{}, roots...)
		var m2 []int8
		m2, ttl = c.c.CnfSince(snk, mk, rcp...)
		for i := range rcp {
			if rcp[i] != roots[i] {
				x.bad("kept")
			}
		}
		c.mark[k] = m2
	}
	cls := make([][]int, len(snk.cls))
	for i := range snk.cls {
		cls[i] = ils(snk.cls[i])
	}
	if snk.open {
		cls = append(cls, ils(snk.cur))
		x.bad("cnf open")
	}
	x.emit(cev{"e": "cnf", "c": c.id, "k": k, "all": all, "roots": ils(roots), "cls": cls, "ttl": ttl})
	// triage
	free := map[int]uint64{}
	for _, m := range c.ins {
		free[int(m.Var())] = c.fn[m.Var()]
	}
	for _, m := range c.lats {
		free[int(m.Var())] = c.fn[m.Var()]
	}
	g := structFn(x, ns, free)
	val := func(m z.Lit) uint64 {
		if int(m.Var()) >= len(g) {
			x.bad("cnfvars")
			return 0
		}
		if m.IsPos() {
			return g[m.Var()]
		}
		return ^g[m.Var()] & x.mask
	}
	for _, cl := range snk.cls {
		u := uint64(0)
		for _, m := range cl {
			u |= val(m)
		}
		if u != x.mask {
			x.bad("cnfsound")
		}
	}
	c.cls[k] = append(c.cls[k], snk.cls...)
	before := 0
	if c.need[k] == nil {
		c.need[k] = map[z.Var]bool{}
	}
	need := c.need[k]
	gates := func() (n int) {
		for v := range need {
			if ns[v-1][0] == 1 || ns[v-1][0] == 3 {
				n++
			}
		}
		return
	}
	before = gates()
	need[1] = true
	var reach func(m int)
	seen := map[int]bool{}
	reach = func(v int) {
		if seen[v] {
			return
		}
		seen[v] = true
		need[z.Var(v)] = true
		if ns[v-1][0] == 1 {
			reach(abs(ns[v-1][1]))
			reach(abs(ns[v-1][2]))
		}
	}
	if all {
		for v := 1; v <= len(ns); v++ {
			reach(v)
		}
	}
	for _, m := range roots {
		reach(int(m.Var()))
	}
	if ttl >= 0 && ttl != gates()-before {
		x.bad("cnfcount")
	}
	once := map[string]bool{}
	for _, cl := range c.cls[k] {
		a := ils(cl)
		sort.Ints(a)
		s := fmt.Sprint(a)
		if once[s] {
			x.bad("cnfonce")
		}
		once[s] = true
	}
	p := make([]uint64, len(g))
	q := make([]uint64, len(g))
	for v, u := range free {
		p[v], q[v] = u, ^u&x.mask
	}
	for ch := true; ch; {
		ch = false
		for _, cl := range c.cls[k] {
			for i, m := range cl {
				f := x.mask
				for j, o := range cl {
					if i != j {
						if int(o.Var()) >= len(p) {
							return
						}
						if o.IsPos() {
							f &= q[o.Var()]
						} else {
							f &= p[o.Var()]
						}
					}
				}
				if m.IsPos() {
					if f&^p[m.Var()] != 0 {
						p[m.Var()] |= f
						ch = true
					}
				} else if f&^q[m.Var()] != 0 {
					q[m.Var()] |= f
					ch = true
				}
			}
		}
	}
	for v := range need {
		if p[v]|q[v] != x.mask {
			x.bad("cnfunique")
		}
	}
}

func (c *circ) card(x *cx, n int) {
	ms := c.picks(x, n)
	cp := append([]z.Lit{}, ms...)
	var cs *logic.CardSort
	if x.r.p(50) {
		cs = c.c.CardSort(cp)
	} else {
		cs = logic.NewCardSort(cp, c.c)
	}
	kept := ils(cp)
	for i := range ms {
		if cp[i] != ms[i] {
			x.bad("kept")
		}
	}
	if x.r.p(30) {
		for i := range cp { // the caller may reuse its slice
			cp[i] = c.c.T
		}
	}
	cd := cs
	q := []cev{}
	cnt := make([]int, x.lanes)
	for _, m := range ms {
		u := c.val(x, m)
		for l := range cnt {
			cnt[l] += int(u >> uint(l) & 1)
		}
	}
	ask := func(op string, b int) {
		var r z.Lit
		e := uint64(0)
		for l := range cnt {
			var t bool
			switch op {
			case "leq":
				t = cnt[l] <= b
			case "geq":
				t = cnt[l] >= b
			case "less":
				t = cnt[l] < b
			case "gr":
				t = cnt[l] > b
			}
			if t {
				e |= 1 << uint(l)
			}
		}
		switch op {
		case "leq":
			r = cd.Leq(b)
		case "geq":
			r = cd.Geq(b)
		case "less":
			r = cd.Less(b)
		case "gr":
			r = cd.Gr(b)
		}
		q = append(q, cev{"op": op, "b": b, "r": il(r)})
		c.bind(x, r, e, "card")
	}
	ops := []string{"leq", "geq", "less", "gr"}
	if n <= 9 {
		for b := -1; b <= n+1; b++ {
			for _, o := range ops {
				ask(o, b)
			}
		}
	} else {
		for k := 0; k < 16; k++ {
			b := x.r.n(n + 1)
			if x.r.p(30) {
				b = []int{-2, -1, 0, 1, n - 1, n, n + 1, n + 3, 1 << (bits.Len(uint(n - 1)))}[x.r.n(9)]
			}
			ask(ops[x.r.n(4)], b)
		}
	}
	if cs.N() != n {
		x.bad("card")
	}
	x.emit(cev{"e": "card", "c": c.id, "ms": ils(ms), "n": cs.N(), "q": q, "kept": kept})
}

func (c *circ) setNexts(x *cx) {
	for _, m := range c.lats {
		if x.r.p(85) {
			n := c.pick(x)
			c.s.SetNext(m, n)
			c.next[m] = n
		}
		if x.r.p(15) {
			ini := []z.Lit{c.s.F, c.s.T, z.LitNull}[x.r.n(3)]
			c.s.SetInit(m, ini)
			c.init[m] = ini
		}
	}
	l := [][]int{}
	for _, m := range c.s.Latches {
		l = append(l, []int{il(m), il(c.init[m]), il(c.next[m]), il(c.s.Init(m)), il(c.s.Next(m))})
		if c.init[m] != c.s.Init(m) || c.next[m] != c.s.Next(m) {
			x.bad("seq")
		}
	}
	if len(l) != len(c.lats) {
		x.bad("seq")
	}
	x.emit(cev{"e": "seq", "c": c.id, "l": l})
}

func (c *circ) roll(x *cx) {
	D := x.r.rng(0, 5)
	u := logic.NewRoll(c.s)
	q := [][]int{}
	ask := func(m z.Lit, d int) {
		q = append(q, []int{il(m), d, il(u.At(m, d))})
	}
	ll := []cev{}
	lens := func() {
		max := u.MaxLen()
		l := []int{}
		m2 := 0
		for i := 1; i < c.c.Len(); i++ {
			m := c.c.At(i)
			if x.r.p(50) {
				m = m.Not()
			}
			l = append(l, u.Len(m))
			if l[i-1] > m2 {
				m2 = l[i-1]
			}
		}
		if m2 != max {
			x.bad("rollmax")
		}
		for _, a := range q {
			if l[abs(a[0])-1] <= a[1] {
				x.bad("rolllen")
			}
		}
		ll = append(ll, cev{"max": max, "l": l, "nq": len(q)})
	}
	for k := x.r.n(12); k > 0; k-- {
		ask(c.pick(x), x.r.n(D+1))
	}
	if x.r.p(30) { // the sequential circuit grows while it is being unrolled
		for k := x.r.rng(1, 6); k > 0; k-- {
			if x.r.p(25) {
				c.newIn(x)
			} else {
				c.randOp(x)
			}
		}
		for k := x.r.n(8); k > 0; k-- {
			ask(c.pick(x), x.r.n(D+1))
		}
	}
	if x.r.p(50) {
		lens()
	}
	type fd struct{ m, d int }
	var fr []fd
	for d := 0; d <= D; d++ {
		for _, m := range c.ins {
			fr = append(fr, fd{il(m), d})
		}
	}
	for _, m := range c.lats {
		if c.init[m] == z.LitNull {
			fr = append(fr, fd{il(m), 0})
		}
	}
	for i := range fr {
		j := x.r.n(i + 1)
		fr[i], fr[j] = fr[j], fr[i]
	}
	for _, f := range fr {
		ask(z.Dimacs2Lit(f.m), f.d)
	}
	for k := x.r.n(16); k > 0; k-- {
		ask(c.pick(x), x.r.n(D+1))
	}
	for _, m := range c.lats { // every latch at the last step
		ask(m, D)
	}
	if x.r.p(50) && len(q) > 0 { // repeatedly
		for k := 0; k < 5; k++ {
			a := q[x.r.n(len(q))]
			ask(z.Dimacs2Lit(a[0]), a[1])
		}
	}
	ns := c.dump(x)
	// the unrolled circuit
	uc := &circ{c: u.C}
	un := uc.nodes()
	uin := []int{}
	pat := [][]int{}
	free := map[int]uint64{}
	nfree := 0
	for i, n := range un {
		if n[0] == 0 {
			nfree++
			p := x.r.u64() & x.mask
			if x.exh {
				p = x.pattern(nfree - 1)
				if nfree > x.maxIn {
					p = x.r.u64() & x.mask
				}
			}
			free[i+1] = p
			uin = append(uin, i+1)
			pat = append(pat, laneList(p))
		}
	}
	x.emit(cev{"e": "roll", "c": c.id, "D": D, "q": q, "u": un, "uin": uin, "pat": pat, "lens": ll})
	// triage
	g := structFn(x, un, free)
	lv := func(f []uint64, m int) uint64 {
		if m < 0 {
			return ^f[-m] & x.mask
		}
		return f[m]
	}
	at := map[fd]int{}
	for _, k := range q {
		n := ns[abs(k[0])-1]
		if n[0] == 0 || (n[0] == 2 && k[1] == 0 && n[1] == 0) {
			r := k[2]
			if k[0] < 0 {
				r = -r
			}
			if o, ok := at[fd{abs(k[0]), k[1]}]; ok && o != r {
				x.bad("rollin")
			}
			at[fd{abs(k[0]), k[1]}] = r
		}
	}
	used := map[int]bool{}
	for _, r := range at {
		if used[abs(r)] || un[abs(r)-1][0] != 0 {
			x.bad("rollin")
		}
		used[abs(r)] = true
	}
	var frames [][]uint64
	for d := 0; d <= D; d++ {
		f := make([]uint64, len(ns)+1)
		for i, n := range ns {
			v := i + 1
			switch n[0] {
			case 3:
				f[v] = x.mask
			case 1:
				f[v] = lv(f, n[1]) & lv(f, n[2])
			case 0:
				f[v] = lv(g, at[fd{v, d}])
			case 2:
				if d > 0 {
					f[v] = lv(frames[d-1], n[2])
				} else if n[1] == 1 {
					f[v] = x.mask
				} else if n[1] == 0 {
					f[v] = lv(g, at[fd{v, 0}])
				}
			}
		}
		frames = append(frames, f)
	}
	for _, k := range q {
		if lv(g, k[2]) != lv(frames[k[1]], k[0]) {
			x.bad("roll")
		}
	}
}

func runCirc(kind string, seed, idx uint64) (x *cx) {
	r := newRng(seed, idx*2654435761+uint64(len(kind))*7919+uint64(kind[0]))
	maxIn := r.rng(1, 6)
	big := r.p(6)
	if r.p(15) || big {
		maxIn = r.rng(7, 20)
	}
	if kind == "roll" {
		maxIn = r.rng(1, 5)
	}
	x = newCx(r, maxIn)
	defer func() {
		if p := recover(); p != nil {
			x.emit(cev{"e": "panic", "c": 1, "msg": fmt.Sprint(p)})
			x.bad("panic")
		}
	}()
	seq := kind == "roll" || r.p(20)
	cs := []*circ{x.newCirc(seq)}
	n := r.rng(3, 30)
	if big {
		n = r.rng(60, 220)
	}
	if kind == "roll" {
		n = r.rng(2, 18)
		if r.p(8) {
			n = r.rng(30, 60)
		}
	}
	if kind == "card" {
		n = r.rng(1, 6)
	}
	cs[0].newIn(x)
	for k := 0; k < n; k++ {
		c := cs[r.n(len(cs))]
		switch {
		case r.p(18) || (c.free() < x.maxIn && c.free() < 3 && r.p(50)):
			if c.s != nil && r.p(50) {
				c.newLatch(x)
			} else {
				c.newIn(x)
			}
		case r.p(4) && len(cs) < 3:
			cs = append(cs, x.copyOf(c))
		case r.p(6):
			c.eval(x)
		case c.s != nil && len(c.lats) > 0 && r.p(12):
			c.setNexts(x)
		case r.p(4):
			c.eval64(x)
		case kind == "cnf" && r.p(15):
			c.cnf(x, r.n(3))
		case kind == "card" && r.p(35):
			m := r.n(7)
			if r.p(25) {
				m = r.rng(7, 36)
			}
			if r.p(3) {
				m = r.rng(37, 70)
			}
			c.card(x, m)
		default:
			c.randOp(x)
		}
	}
	for _, c := range cs {
		switch kind {
		case "cnf":
			if c.s != nil {
				c.setNexts(x)
			}
			c.cnf(x, r.n(3))
			c.cnf(x, 1)
		case "card":
			c.card(x, r.n(10))
		case "roll":
			if c.free() == 0 || len(c.lats) == 0 {
				c.newLatch(x)
			}
			c.setNexts(x)
			c.roll(x)
		}
		c.eval(x)
		c.eval64(x)
		c.dump(x)
	}
	return x
}

type circRec struct {
	Sus   string                 `json:"sus,omitempty"`
	Idx   uint64                 `json:"idx"`
	Trace map[string]interface{} `json:"trace"`
}

// collect runs n indices on all cores and writes the suspicious ones and a
// sample of the others.
// atExit cleans up
var atExit func()

func collect(n, keep int, budget time.Duration, out string, one func(idx uint64) (string, map[string]interface{}), base uint64) {
	f, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(w)
	var mu sync.Mutex
	var wg sync.WaitGroup
	next, done, nsus := uint64(0), 0, 0
	t0 := time.Now()
	journal, _ := os.Create(out + ".cur")
	over := false
	var once sync.Once
	finish := func() {
		once.Do(func() {
			w.Flush()
			f.Close()
			b, _ := json.Marshal(map[string]int{"executed": done, "suspicious": nsus})
			fmt.Println(string(b))
			os.Remove(out + ".cur")
			if atExit != nil {
				atExit()
			}
			os.Exit(0)
		})
	}
	go limitMemory()
	for g := 0; g < runtime.NumCPU(); g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				stop := i >= uint64(n) || (i >= uint64(keep) && time.Since(t0) > budget)
				mu.Unlock()
				if stop {
					return
				}
				if journal != nil {
					journal.WriteAt([]byte(fmt.Sprintf("%-23d\n", base+i)), int64(24*g))
				}
				sus, tr, ok := guarded(one, base+i)
				mu.Lock()
				if over {
					mu.Unlock()
					return
				}
				done++
				if i < uint64(keep) || (sus != "" && nsus < 20) {
					if sus != "" {
						nsus++
					}
					if err := enc.Encode(circRec{sus, base + i, tr}); err != nil {
						panic(err)
					}
				}
				over = over || !ok
				mu.Unlock()
				if !ok { // what hangs may eat the machine: end here
					finish()
				}
			}
		}(g)
	}
	wg.Wait()
	finish()
}

// guarded runs one index; what does not end is reported and not waited for.
func guarded(one func(idx uint64) (string, map[string]interface{}), idx uint64) (string, map[string]interface{}, bool) {
	type res struct {
		sus string
		tr  map[string]interface{}
	}
	c := make(chan res, 1)
	go func() {
		s, t := one(idx)
		c <- res{s, t}
	}()
	select {
	case r := <-c:
		return r.sus, r.tr, true
	case <-time.After(90 * time.Second):
		return "hang", map[string]interface{}{"lanes": 1, "in": []int{}, "lim": -1,
			"ev": []cev{{"e": "panic", "c": 1, "s": 0, "msg": "does not end"}}}, false
	}
}

// limitMemory ends the process before it takes the machine's memory.
func limitMemory() {
	for {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 8<<30 {
			fmt.Fprintln(os.Stderr, "out of memory")
			os.Exit(97)
		}
		time.Sleep(500 * time.Millisecond)
	}
}

func circMain(args []string) {
	fs := flag.NewFlagSet("circ", flag.ExitOnError)
	kind := fs.String("kind", "gate", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 1000, "")
	keep := fs.Int("keep", 100, "")
	base := fs.Uint64("base", 0, "")
	budget := fs.Duration("budget", 10*time.Second, "")
	out := fs.String("out", "", "")
	fs.Parse(args)
	collect(*n, *keep, *budget, *out, func(idx uint64) (string, map[string]interface{}) {
		x := runCirc(*kind, *seed, idx)
		return x.sus, map[string]interface{}{"lanes": x.lanes, "ev": x.ev}
	}, *base)
}
