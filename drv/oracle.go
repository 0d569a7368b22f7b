package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// The oracle is used for triage only: it marks traces that look wrong so that
// they are among those handed to TLC, which decides.  It mirrors IncSat.tla.

type bset []uint64

func (b bset) clone() bset { return append(bset(nil), b...) }
func (b bset) empty() bool {
	for _, w := range b {
		if w != 0 {
			return false
		}
	}
	return true
}
func (b bset) and(c bset) {
	for i := range b {
		b[i] &= c[i]
	}
}
func (b bset) or(c bset) {
	for i := range b {
		b[i] |= c[i]
	}
}
func (b bset) has(i int) bool { return b[i>>6]>>(uint(i)&63)&1 == 1 }
func (b bset) count() (n int) {
	for _, w := range b {
		n += bits.OnesCount64(w)
	}
	return
}

type osol struct {
	mods   bset
	groups map[int]bset
	cls    [][]int
	pend   []int
	ass    []int
	scopes [][]int
	last   int
	pos    int
	posB   []int
	lastA  []int
	lastW  []int
	ph     string
}

type oracle struct {
	nv   int
	big  bool
	lits map[int]bset // base literal -> assignments satisfying it
	s    map[int]*osol
	wit  [][]int
}

func newOracle(nv int) *oracle {
	o := &oracle{nv: nv, lits: map[int]bset{}, s: map[int]*osol{}}
	n := 1 << uint(nv)
	for v := 1; v <= nv; v++ {
		p, q := make(bset, (n+63)/64), make(bset, (n+63)/64)
		for a := 0; a < n; a++ {
			if a>>uint(v-1)&1 == 1 {
				p[a>>6] |= 1 << (uint(a) & 63)
			} else {
				q[a>>6] |= 1 << (uint(a) & 63)
			}
		}
		o.lits[v], o.lits[-v] = p, q
	}
	return o
}

// big problems: assignments are the planted ones only.
func newBigOracle(nv int, wit [][]int) *oracle {
	o := &oracle{nv: nv, big: true, lits: map[int]bset{}, s: map[int]*osol{}, wit: wit}
	for v := 1; v <= nv; v++ {
		p, q := make(bset, 1), make(bset, 1)
		for i, w := range wit {
			if w[v-1] == 1 {
				p[0] |= 1 << uint(i)
			} else {
				q[0] |= 1 << uint(i)
			}
		}
		o.lits[v], o.lits[-v] = p, q
	}
	return o
}

func (o *oracle) full() bset {
	if o.big {
		b := make(bset, 1)
		for i := range o.wit {
			b[0] |= 1 << uint(i)
		}
		return b
	}
	n := 1 << uint(o.nv)
	b := make(bset, (n+63)/64)
	for a := 0; a < n; a++ {
		b[a>>6] |= 1 << (uint(a) & 63)
	}
	return b
}

func (o *oracle) newSolver(id int) {
	o.s[id] = &osol{mods: o.full(), groups: map[int]bset{}, last: 2}
}

func (o *oracle) clause(c []int) bset {
	b := make(bset, len(o.full()))
	for _, l := range c {
		b.or(o.lits[l])
	}
	return b
}

func (o *oracle) part(s int, c []int) { o.s[s].pend = append(o.s[s].pend, c...) }
func (o *oracle) take(s int, c []int) []int {
	p := o.s[s]
	r := append(append([]int{}, p.pend...), c...)
	p.pend = nil
	return r
}
func (o *oracle) add(s int, c []int) {
	c = o.take(s, c)
	p := o.s[s]
	p.mods.and(o.clause(c))
	p.cls = append(p.cls, c)
	p.last = 2
}
func (o *oracle) assume(s int, l []int) { o.s[s].ass = append(o.s[s].ass, l...) }
func (o *oracle) actl(s, id int)        { o.s[s].groups[id] = o.full() }
func (o *oracle) act(s, id int, c []int) {
	o.actl(s, id)
	o.actw(s, id, c)
}
func (o *oracle) actw(s, id int, c []int) {
	c = o.take(s, c)
	p := o.s[s]
	g := p.groups[id].clone()
	g.and(o.clause(c))
	p.groups[id] = g
	p.cls = append(p.cls, append(c, -id))
	p.last = 2
}
func (o *oracle) mayActPanic(s int, c []int) bool {
	p := o.s[s]
	m := p.mods.clone()
	m.and(o.clause(append(append([]int{}, p.pend...), c...)))
	return m.empty()
}
func (o *oracle) deact(s, id int) {
	p := o.s[s]
	delete(p.groups, id)
	j := 0
	n := [][]int{}
	for _, c := range p.cls {
		if c == nil || len(c) == 0 || c[len(c)-1] != -id {
			n = append(n, c)
			j++
		}
	}
	p.cls = n
	p.last = 2
}
func (o *oracle) copy(s, t int) {
	p := *o.s[s]
	p.mods = p.mods.clone()
	g := map[int]bset{}
	for k, v := range p.groups {
		g[k] = v
	}
	p.groups = g
	p.cls = append([][]int(nil), p.cls...)
	p.pend = append([]int(nil), p.pend...)
	p.ass = append([]int(nil), p.ass...)
	p.scopes = append([][]int(nil), p.scopes...)
	o.s[t] = &p
}

func (o *oracle) load(s, t int) {
	o.copy(s, t)
	p := o.s[t]
	p.pend, p.ass, p.scopes, p.last, p.lastA = nil, nil, nil, 2, nil
}

// wrote: the written file states the clauses in force, other variables apart.
func (o *oracle) wrote(s int, text string, vm []int) string {
	p := o.s[s]
	ls := strings.Split(strings.TrimRight(text, "\n"), "\n")
	nv, nc := 0, 0
	if n, _ := fmt.Sscanf(ls[0], "p cnf %d %d", &nv, &nc); n != 2 || nc != len(ls)-1 {
		return "write: header"
	}
	file := o.full()
	acts := map[int]bset{}
	for a := range p.groups {
		acts[a] = o.full()
	}
	for _, l := range ls[1:] {
		b := make(bset, len(file))
		act, free := 0, false
		for _, w := range strings.Fields(l) {
			var m int
			fmt.Sscan(w, &m)
			if m == 0 {
				break
			}
			x := 0
			if abs(m) <= len(vm) {
				x = vm[abs(m)-1]
			}
			if m < 0 {
				x = -x
			}
			switch {
			case abs(m) > nv:
				return "write: variable"
			case x < -actBase:
				act = -x
			case x == 0 || x > actBase:
				free = true
			default:
				b.or(o.lits[x])
			}
		}
		switch {
		case free:
		case act != 0:
			acts[act].and(b)
		default:
			file.and(b)
		}
	}
	if fmt.Sprint(file) != fmt.Sprint(p.mods) {
		return "write: models"
	}
	for a, g := range p.groups {
		x, y := g.clone(), acts[a].clone()
		x.and(p.mods)
		y.and(p.mods)
		if fmt.Sprint(x) != fmt.Sprint(y) {
			return "write: activated"
		}
	}
	return ""
}

func (p *osol) inforce() []int {
	var r []int
	for _, s := range p.scopes {
		r = append(r, s...)
	}
	return append(r, p.ass...)
}

// incons: the clauses of p are inconsistent with the literals ls.
func (o *oracle) incons(p *osol, ls []int) bool {
	m := p.mods.clone()
	pos := map[int]bool{}
	for _, l := range ls {
		if abs(l) > actBase {
			pos[l] = true
			if pos[-l] {
				return true
			}
			if l > 0 {
				if g, ok := p.groups[l]; ok {
					m.and(g)
				}
			}
			continue
		}
		if b, ok := o.lits[l]; ok {
			m.and(b)
		} else {
			return false // unknown literal
		}
	}
	if o.big {
		// only the planted assignments are known
		has := map[int]bool{}
		for _, l := range ls {
			has[l] = true
			if has[-l] {
				return true
			}
		}
	}
	return m.empty()
}

func (o *oracle) modelOk(p *osol, e ev, A []int) string {
	at := map[int]bool{}
	for _, a := range e["at"].([]int) {
		at[a] = true
	}
	val := func(l int) bool {
		if abs(l) > actBase {
			return at[abs(l)] == (l > 0)
		}
		if o.big {
			return e["pos"].([]int)[abs(l)-1] == 1 == (l > 0)
		}
		return e["pos"].(int)>>uint(abs(l)-1)&1 == 1 == (l > 0)
	}
	if o.big {
		pos, neg := e["pos"].([]int), e["neg"].([]int)
		for i := range pos {
			if pos[i]+neg[i] != 1 {
				return "values of a literal and its negation agree"
			}
		}
	} else if e["pos"].(int)^e["neg"].(int) != 1<<uint(o.nv)-1 {
		return "values of a literal and its negation agree"
	}
	for _, l := range A {
		if !val(l) {
			return fmt.Sprintf("assumption %d false in model", l)
		}
	}
	for _, c := range p.cls {
		ok := false
		for _, l := range c {
			if val(l) {
				ok = true
				break
			}
		}
		if !ok {
			return fmt.Sprintf("clause %v false in model", c)
		}
	}
	return ""
}

func (o *oracle) whyOk(p *osol, e ev, A []int) string {
	if e["prefix"] == false || e["kept"] == false {
		return "why lost the prefix of its argument, or changed an earlier list"
	}
	in := map[int]bool{}
	for _, a := range A {
		in[a] = true
	}
	w := e["why"].([]int)
	for _, l := range w {
		if !in[l] {
			return fmt.Sprintf("why reports %d, not assumed", l)
		}
	}
	if !o.incons(p, w) {
		return fmt.Sprintf("why %v is consistent", w)
	}
	return ""
}

func (o *oracle) outcome(p *osol, e ev, A []int) string {
	p.last = e["r"].(int)
	p.lastA = A
	switch p.last {
	case 1:
		if o.incons(p, A) && !o.big {
			return "sat but inconsistent"
		}
		if !o.big {
			p.pos = e["pos"].(int)
		} else {
			p.posB = e["pos"].([]int)
		}
		return o.modelOk(p, e, A)
	case -1:
		if !o.incons(p, A) {
			return "unsat but consistent"
		}
		if e["hw"] == true {
			return o.whyOk(p, e, A)
		}
	}
	return ""
}

func (o *oracle) solved(s int, e ev, exp bool) string {
	p := o.s[s]
	A := p.inforce()
	p.ass = nil
	if m := o.outcome(p, e, A); m != "" {
		return m
	}
	if p.last == 0 && !exp {
		return "unknown without reason"
	}
	if e["late"] == true {
		return "late"
	}
	return ""
}
func (o *oracle) reval(s int, e ev) string {
	p := o.s[s]
	if !o.big && p.pos != e["pos"].(int) {
		return "model changed"
	}
	if o.big {
		for i, v := range e["pos"].([]int) {
			if p.posB[i] != v {
				return "model changed"
			}
		}
	}
	return ""
}
func (o *oracle) rewhy(s int, e ev) string {
	p := o.s[s]
	return o.whyOk(p, e, p.lastA)
}

func (o *oracle) bcp(p *osol, A []int) (map[int]bool, bool) {
	t := map[int]bool{}
	for _, l := range A {
		if t[-l] {
			return t, true
		}
		t[l] = true
	}
	for ch := true; ch; {
		ch = false
		for _, c := range p.cls {
			u, nu, sat := 0, 0, false
			for _, l := range c {
				if t[l] {
					sat = true
					break
				}
				if !t[-l] && l != u {
					nu++
					u = l
				}
			}
			if sat {
				continue
			}
			if nu == 0 {
				return t, true
			}
			if nu == 1 {
				t[u] = true
				ch = true
			}
		}
	}
	return t, false
}

func (o *oracle) tested(s int, e ev) string {
	if e["nkept"] == false {
		return "test changed an earlier list"
	}
	p := o.s[s]
	old := []int{}
	for _, sc := range p.scopes {
		old = append(old, sc...)
	}
	p.scopes = append(p.scopes, p.ass)
	p.ass = nil
	A := p.inforce()
	if m := o.outcome(p, e, A); m != "" {
		return m
	}
	if p.last == -1 {
		return ""
	}
	q, x := o.bcp(p, A)
	if x {
		return "test missed a propagation conflict"
	}
	if e["hn"] != true {
		if len(e["ns"].([]int)) != 0 {
			return "nil dst but literals"
		}
		return ""
	}
	in := map[int]bool{}
	for _, l := range e["ns"].([]int) {
		in[l] = true
		if o.big {
			continue
		}
		if l == 0 {
			return "test reports unknown variable"
		}
		if abs(l) > actBase {
			if _, ok := p.groups[abs(l)]; !ok {
				continue
			}
		}
		if !o.incons(p, append(append([]int{}, A...), -l)) {
			if abs(l) > actBase && l < 0 { // -a follows iff its group is refuted
				if o.incons(p, append(append([]int{}, A...), -l)) {
					continue
				}
			}
			return fmt.Sprintf("test reports %d which does not follow", l)
		}
	}
	if !o.big {
		for l := range q {
			if !in[l] && !o.incons(p, append(append([]int{}, old...), -l)) {
				return fmt.Sprintf("test does not report %d", l)
			}
		}
	}
	return ""
}

func (o *oracle) untested(s int, r int) string {
	p := o.s[s]
	p.scopes = p.scopes[:len(p.scopes)-1]
	p.last = 2
	A := []int{}
	for _, sc := range p.scopes {
		A = append(A, sc...)
	}
	if r == -1 {
		if !o.incons(p, A) {
			return "untest unsat but consistent"
		}
		return ""
	}
	if r != 0 {
		return "untest result"
	}
	if _, x := o.bcp(p, A); x {
		return "untest missed a conflict"
	}
	return ""
}

func (o *oracle) reasons(s int, rs [][]int) string {
	p := o.s[s]
	A := []int{}
	for _, sc := range p.scopes {
		A = append(A, sc...)
	}
	g := map[int][]int{}
	for _, r := range rs {
		g[r[0]] = r[1:]
		if o.big {
			continue
		}
		for _, l := range r[1:] {
			if l == 0 || !o.incons(p, append(append([]int{}, A...), -l)) {
				if abs(l) > actBase {
					if _, ok := p.groups[abs(l)]; !ok {
						continue
					}
				}
				return fmt.Sprintf("reason %v: %d is not true", r, l)
			}
		}
		if len(r) > 1 {
			if !o.incons(p, append(append([]int{}, r[1:]...), -r[0])) {
				return fmt.Sprintf("reasons %v insufficient", r)
			}
		} else {
			isA := false
			for _, a := range A {
				isA = isA || a == r[0]
			}
			if !isA && !o.incons(p, []int{-r[0]}) {
				return fmt.Sprintf("no reasons for %d", r[0])
			}
		}
	}
	st := map[int]int{}
	var cyc func(l int) bool
	cyc = func(l int) bool {
		switch st[l] {
		case 1:
			return true
		case 2:
			return false
		}
		st[l] = 1
		for _, m := range g[l] {
			if cyc(m) {
				return true
			}
		}
		st[l] = 2
		return false
	}
	for l := range g {
		if cyc(l) {
			return "cyclic reasons"
		}
	}
	return ""
}

func (o *oracle) state(s int, e ev) string {
	p := o.s[s]
	if o.big {
		return ""
	}
	known := func(c []int) bool {
		for _, l := range c {
			if l == 0 {
				return false
			}
			if abs(l) > actBase {
				if _, ok := p.groups[abs(l)]; !ok {
					return false
				}
			}
		}
		return true
	}
	follows := func(c []int) bool {
		if !known(c) {
			return true
		}
		n := []int{}
		for _, l := range c {
			n = append(n, -l)
		}
		return o.incons(p, n)
	}
	for _, k := range []string{"learnt", "rsn"} {
		for _, c := range e[k].([][]int) {
			if !follows(c) {
				return fmt.Sprintf("%s %v does not follow", k, c)
			}
		}
	}
	for _, l := range e["fixed"].([]int) {
		if !follows([]int{l}) {
			return fmt.Sprintf("fixed %d does not follow", l)
		}
	}
	base := o.full()
	gm := map[int]bset{}
	for m := range p.groups {
		gm[m] = o.full()
	}
	for _, c := range e["added"].([][]int) {
		plain, ok := []int{}, true
		var acts []int
		for _, l := range c {
			if l == 0 {
				ok = false
			} else if abs(l) > actBase {
				ok = false
				acts = append(acts, l)
			} else {
				plain = append(plain, l)
			}
		}
		if ok {
			base.and(o.clause(plain))
		}
		for _, l := range acts {
			if b, ok := gm[-l]; ok {
				b.and(o.clause(plain))
			}
		}
	}
	eq := func(a, b bset) bool {
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	if !eq(base, p.mods) {
		return "given clauses changed"
	}
	for m, b := range gm {
		b.and(p.mods)
		c := p.groups[m].clone()
		c.and(p.mods)
		if !eq(b, c) {
			return fmt.Sprintf("activated clauses of %d changed", m)
		}
	}
	return ""
}
