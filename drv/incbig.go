package main

import (
	"encoding/json"
	"os"
	"sync"
)

func init() {
	gens["big"] = genBig
	gens["fix"] = genFix
	gens["restart"] = genRestart
	gens["plan"] = genPlan
	gens["asyncbig"] = genAsyncBig
	gens["hardtry"] = genHardTry
}

// genPlan: a sequence of calls on connections that the specification CtlPlan
// allows, on a problem that is solved at once, after a while, or never, each
// plan is followed by ordinary solves and another asynchronous one.
func genPlan(seed, idx uint64, nvFix int) *script {
	plansOnce.Do(func() {
		b, err := os.ReadFile(os.Getenv("ZZPLANS"))
		die(err)
		die(json.Unmarshal(b, &plans))
	})
	pl := plans[idx%uint64(len(plans))]
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: "plan", Big: true}
	b := &bigGen{r: r, sc: sc, async: true}
	if r.p(80) {
		sc.Tick = 1 << uint(r.n(10))
	}
	hard := false
	switch pl[0] {
	case "easy":
		sc.NV = r.rng(6, 12)
		if r.p(60) {
			b.witnesses(1)
		}
		for i := 0; i < sc.NV*4; i++ {
			b.put(op{O: "add", L: b.clause(3)})
		}
	case "mid":
		sc.NV = r.rng(60, 100)
		if r.p(50) {
			b.witnesses(1)
		}
		for i := 0; i < sc.NV*43/10; i++ {
			b.put(op{O: "add", L: b.clause(3)})
		}
	case "hard":
		hard = true
		b.hardPhp(10)
	}
	nap := []int{0, 1, 10, 100, 1000}[r.n(5)]
	play := func() {
		if hard {
			b.put(op{O: "ass", L: []int{sc.NV}})
		} else if r.p(50) {
			b.assume()
		}
		b.put(op{O: "gos"})
		for _, a := range pl[1:] {
			switch a {
			case "test":
				b.put(op{O: "ctest", F: r.n(8)})
			case "pause":
				b.put(op{O: "cpause", F: r.n(8)})
				if r.p(30) {
					b.put(op{O: "cnap", T: nap})
				}
				b.put(op{O: "cunpause"})
			case "nap":
				b.put(op{O: "cnap", T: nap})
			case "stop":
				b.put(op{O: "cstop", F: r.n(8)})
			case "wait":
				b.put(op{O: "cwait", F: r.n(8)})
			case "try":
				b.put(op{O: "ctry", T: 20000000, F: r.n(8)})
			case "trynow":
				b.put(op{O: "ctry", T: 1 + r.n(50), F: r.n(8)})
			}
		}
	}
	play()
	if hard {
		b.put(op{O: "ass", L: []int{-sc.NV}})
	}
	b.put(op{O: "solve", F: r.n(8)})
	play()
	return sc
}

var (
	plans     [][]string
	plansOnce sync.Once
)

// genAsyncBig: asynchronous solves of problems that take a while
func genAsyncBig(seed, idx uint64, nvFix int) *script {
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: "asyncbig", Big: true, Pre: r.p(50)}
	if r.p(70) {
		sc.Tick = 1 << uint(r.n(14))
	}
	if r.p(40) {
		sc.Rst = 1 << uint(r.n(7))
	}
	b := &bigGen{r: r, sc: sc, async: true}
	if r.p(50) {
		b.planted()
	} else {
		b.threshold()
	}
	return sc
}

// genHardTry: problems that no solve will finish, with limits and stops, and
// an easy part selected by assumption.
func genHardTry(seed, idx uint64, nvFix int) *script {
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: "hardtry", Big: true}
	b := &bigGen{r: r, sc: sc, async: true, hard: true}
	b.hardPhp(11)
	for i := 0; i < 3; i++ {
		b.tryHard()
	}
	return sc
}

// hardPhp: pigeons 0..h over h holes unless the last variable is false
func (b *bigGen) hardPhp(h int) {
	p := h + 1
	b.sc.NV = p*h + 1
	w := make([]int, b.sc.NV)
	b.sc.Wit = [][]int{w}
	v := func(i, j int) int { return i*h + j + 1 }
	for i := 0; i < p; i++ {
		c := []int{-b.sc.NV}
		for j := 0; j < h; j++ {
			c = append(c, v(i, j))
		}
		b.put(op{O: "add", L: c})
	}
	for j := 0; j < h; j++ {
		for i := 0; i < p; i++ {
			for k := 0; k < i; k++ {
				b.put(op{O: "add", L: []int{-v(i, j), -v(k, j)}})
			}
		}
	}
}

func (b *bigGen) tryHard() {
	r := b.r
	hard := func() {
		if r.p(30) {
			l := b.lit()
			if l != -b.sc.NV {
				b.put(op{O: "ass", L: []int{-abs(l)}})
			}
		}
		b.put(op{O: "ass", L: []int{b.sc.NV}})
	}
	hard()
	if r.p(30) {
		b.put(op{O: "test", F: r.n(8)})
		b.dep++
	}
	switch r.n(3) {
	case 0:
		b.put(op{O: "gos"})
		asyncOps(r, b.put, 0, true)
	default:
		b.put(op{O: "try", T: 1 + r.n(40000), F: r.n(8)})
	}
	for b.dep > 0 {
		b.dep--
		b.put(op{O: "untest"})
	}
	switch r.n(2) {
	case 0:
		b.put(op{O: "ass", L: []int{-b.sc.NV}})
		b.put(op{O: "solve"})
	case 1:
		hard()
		b.put(op{O: "try", T: 1 + r.n(4000)})
	}
}

// genRestart: hard problems under assumptions, long enough for restarts and
// several clause collections within one solve.
func genRestart(seed, idx uint64, nvFix int) *script {
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: "restart", Big: true, Pre: r.p(50)}
	if r.p(50) {
		sc.Tune = 1 << uint(3+r.n(9))
	}
	b := &bigGen{r: r, sc: sc}
	sc.NV = r.rng(120, 175)
	if r.p(40) {
		b.witnesses(1)
	}
	m := sc.NV * r.rng(405, 430) / 100
	for i := 0; i < m; i++ {
		b.put(op{O: "add", L: b.clause(3)})
	}
	for i := 0; i < 3; i++ {
		b.assume()
		if r.p(30) {
			b.put(op{O: "test", F: r.n(8)})
			b.dep++
			b.assume()
		}
		b.put(op{O: "solve", F: r.n(4)})
		for b.dep > 0 {
			b.put(op{O: "solve", F: r.n(4)})
			b.put(op{O: "untest"})
			b.dep--
		}
		for j := r.n(4); j > 0; j-- {
			b.put(op{O: "add", L: b.clause(3)})
		}
	}
	return sc
}

// genBig makes problems with tens to hundreds of variables and up to
// thousands of conflicts.  Their assignments cannot be enumerated; instead
// some satisfying assignments ("witnesses") are planted, which refute wrong
// unsat answers and wrong failed assumptions, and sat answers are judged by
// their models.
func genBig(seed, idx uint64, nvFix int) *script {
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: "big", Big: true, Pre: r.p(50)}
	if r.p(60) {
		sc.Tune = 1 << uint(r.n(9))
	}
	if r.p(40) {
		sc.Rst = 1 << uint(r.n(7))
	}
	if r.p(25) {
		sc.Cap = 1 + r.n(40)
	}
	b := &bigGen{r: r, sc: sc}
	switch k := r.n(10); {
	case k < 4:
		b.planted()
	case k < 6:
		b.long()
	case k < 7:
		b.threshold()
	case k < 8:
		b.php()
	case k < 9:
		b.fixing()
	default:
		b.xor()
	}
	return sc
}

type bigGen struct {
	r    *rng
	sc   *script
	acts []int
	nact int
	dep  int

	async, hard bool
}

func (b *bigGen) put(o op) { b.sc.Ops = append(b.sc.Ops, o) }

func (b *bigGen) lit() int {
	v := 1 + b.r.n(b.sc.NV)
	if b.r.p(50) {
		return -v
	}
	return v
}

func (b *bigGen) witnesses(k int) {
	for i := 0; i < k; i++ {
		w := make([]int, b.sc.NV)
		for j := range w {
			w[j] = b.r.n(2)
		}
		b.sc.Wit = append(b.sc.Wit, w)
	}
}

func (b *bigGen) ok(c []int) bool {
	for _, w := range b.sc.Wit {
		sat := false
		for _, l := range c {
			if (w[abs(l)-1] == 1) == (l > 0) {
				sat = true
				break
			}
		}
		if !sat {
			return false
		}
	}
	return true
}

// a clause of n different variables which the witnesses satisfy
func (b *bigGen) clause(n int) []int {
	if n > b.sc.NV {
		n = b.sc.NV
	}
	for try := 0; ; try++ {
		c := make([]int, 0, n)
		used := map[int]bool{}
		for len(c) < n {
			l := b.lit()
			if used[abs(l)] {
				continue
			}
			used[abs(l)] = true
			c = append(c, l)
		}
		if b.ok(c) {
			return c
		}
		if try > 50 && n < b.sc.NV {
			n++
		}
	}
}

func (b *bigGen) assume() {
	n := 1 + b.r.n(6)
	l := []int{}
	wit := -1
	if len(b.sc.Wit) > 0 && b.r.p(75) {
		wit = b.r.n(len(b.sc.Wit))
		if b.r.p(30) {
			n = b.sc.NV / 3
		}
	}
	for i := 0; i < n; i++ {
		x := b.lit()
		if wit >= 0 && !b.r.p(3) {
			if b.sc.Wit[wit][abs(x)-1] == 1 {
				x = abs(x)
			} else {
				x = -abs(x)
			}
		}
		l = append(l, x)
	}
	if len(b.acts) > 0 && b.r.p(70) {
		for i := 0; i < 1+b.r.n(3); i++ {
			l = append(l, b.acts[b.r.n(len(b.acts))])
		}
	}
	b.put(op{O: "ass", L: l, F: b.r.n(2)})
}

// rounds interleaves queries with further clauses.
func (b *bigGen) rounds(n int, add func() []int) {
	r := b.r
	for i := 0; i < n; i++ {
		if r.p(70) {
			b.assume()
		}
		switch {
		case r.p(15):
			b.put(op{O: "test", F: r.n(8)})
			b.dep++
			b.assume()
			b.put(op{O: "solve", F: r.n(8)})
			if r.p(50) {
				b.put(op{O: "rsn"})
			}
		case r.p(15):
			b.put(op{O: "go", F: r.n(8)})
		case b.async && r.p(80):
			b.put(op{O: "gos"})
			asyncOps(r, b.put, 0, b.hard)
		case r.p(10):
			b.put(op{O: "try", T: 1 + r.n(3000), F: r.n(8)})
		default:
			b.put(op{O: "solve", F: r.n(8)})
		}
		if r.p(10) {
			b.put(op{O: "gc"})
		}
		for b.dep > 0 && r.p(70) {
			b.put(op{O: "untest"})
			b.dep--
		}
		if add == nil || r.p(30) {
			continue
		}
		for b.dep > 0 {
			b.put(op{O: "untest"})
			b.dep--
		}
		for k := r.n(6); k > 0; k-- {
			switch {
			case r.p(60):
				b.put(op{O: "add", L: add()})
			case r.p(50) || len(b.acts) == 0:
				b.nact++
				b.put(op{O: "act", L: add()})
				b.acts = append(b.acts, actBase+b.nact)
			case r.p(60):
				b.put(op{O: "actw", T: b.acts[r.n(len(b.acts))], L: add()})
			default:
				j := r.n(len(b.acts))
				b.put(op{O: "deact", T: b.acts[j]})
				b.acts = append(append([]int{}, b.acts[:j]...), b.acts[j+1:]...)
			}
		}
	}
}

func (b *bigGen) planted() {
	r := b.r
	b.sc.NV = r.rng(40, 150)
	if b.sc.Rst > 0 {
		b.sc.NV = r.rng(40, 100)
	}
	b.witnesses(r.rng(1, 3))
	m := b.sc.NV * r.rng(36, 46) / 10
	f := func() []int { return b.clause(3) }
	for i := 0; i < m; i++ {
		b.put(op{O: "add", L: f()})
		if r.p(1) {
			b.put(op{O: "solve", F: r.n(8)})
		}
	}
	b.rounds(r.rng(3, 12), f)
}

func genFix(seed, idx uint64, nvFix int) *script {
	sc := &script{Id: int(idx), Kind: "fix", Big: true}
	(&bigGen{r: newRng(seed, idx), sc: sc}).fixing()
	return sc
}

// fixing: after much was learned, literals get fixed one by one, between
// solves under assumptions which mostly fail.
func (b *bigGen) fixing() {
	r := b.r
	b.sc.Tune = 1 << uint(r.n(9))
	b.sc.NV = r.rng(40, 90)
	b.witnesses(1)
	for i := 0; i < b.sc.NV*r.rng(38, 42)/10; i++ {
		b.put(op{O: "add", L: b.clause(3)})
	}
	some := func(n int) {
		l := []int{}
		for i := 0; i < n; i++ {
			l = append(l, b.lit())
		}
		b.put(op{O: "ass", L: l})
		b.put(op{O: "solve", F: r.n(8)})
	}
	for i := r.rng(5, 40); i > 0; i-- {
		some(r.rng(1, 4))
	}
	for i := r.rng(10, 30); i > 0; i-- {
		for k := r.n(3); k >= 0; k-- {
			v := 1 + r.n(b.sc.NV)
			if b.sc.Wit[0][v-1] == 0 {
				v = -v
			}
			b.put(op{O: "add", L: []int{v}})
		}
		if r.p(50) {
			b.put(op{O: "gc"})
		}
		for k := r.n(3); k > 0; k-- {
			some(r.rng(1, 3))
		}
		some(r.rng(1, 6))
		if r.p(30) {
			b.put(op{O: "why"})
		}
	}
}

func (b *bigGen) long() {
	r := b.r
	b.sc.NV = r.rng(70, 300)
	b.witnesses(r.rng(1, 2))
	f := func() []int {
		if r.p(60) {
			return b.clause(r.rng(2, 4))
		}
		if r.p(50) {
			return b.clause([]int{29, 30, 31, 32, 33, 62, 63, 64, 65, 66}[r.n(10)])
		}
		return b.clause(r.rng(4, 70))
	}
	for i := 0; i < b.sc.NV*2; i++ {
		b.put(op{O: "add", L: f()})
	}
	b.rounds(r.rng(3, 14), f)
}

func (b *bigGen) threshold() {
	r := b.r
	b.sc.NV = r.rng(60, 170)
	if b.sc.Rst > 0 { // restarts make these hard
		b.sc.NV = r.rng(50, 90)
	}
	f := func() []int { return b.clause(3) }
	for i := 0; i < b.sc.NV*43/10; i++ {
		b.put(op{O: "add", L: f()})
	}
	b.rounds(r.rng(3, 8), f)
}

// pigeon hole: p pigeons, h holes; satisfiable iff p <= h
func (b *bigGen) php() {
	r := b.r
	h := r.rng(4, 7)
	p := h + r.n(3) - 1
	b.sc.NV = p * h
	v := func(i, j int) int { return i*h + j + 1 }
	if p <= h {
		w := make([]int, b.sc.NV)
		for i := 0; i < p; i++ {
			w[v(i, i)-1] = 1
		}
		b.sc.Wit = [][]int{w}
	}
	var cs [][]int
	for i := 0; i < p; i++ {
		c := []int{}
		for j := 0; j < h; j++ {
			c = append(c, v(i, j))
		}
		cs = append(cs, c)
	}
	for j := 0; j < h; j++ {
		for i := 0; i < p; i++ {
			for k := 0; k < i; k++ {
				cs = append(cs, []int{-v(i, j), -v(k, j)})
			}
		}
	}
	for i := range cs {
		j := i + r.n(len(cs)-i)
		cs[i], cs[j] = cs[j], cs[i]
	}
	for i, c := range cs {
		b.put(op{O: "add", L: c})
		if i%(1+len(cs)/3) == len(cs)/3 {
			b.assume()
			b.put(op{O: "solve", F: r.n(8)})
		}
	}
	b.rounds(3, nil)
}

// a random system of xors of size 3, with or without a planted solution
func (b *bigGen) xor() {
	r := b.r
	b.sc.NV = r.rng(12, 60)
	if r.p(60) {
		b.witnesses(1)
	}
	m := b.sc.NV * r.rng(8, 12) / 10
	for i := 0; i < m; i++ {
		x, y, z := 1+r.n(b.sc.NV), 1+r.n(b.sc.NV), 1+r.n(b.sc.NV)
		if x == y || y == z || x == z {
			continue
		}
		p := r.n(2)
		if len(b.sc.Wit) > 0 {
			w := b.sc.Wit[0]
			p = (w[x-1] + w[y-1] + w[z-1]) & 1
		}
		for s := 0; s < 8; s++ {
			if (s&1+s>>1&1+s>>2&1)&1 == p {
				continue
			}
			// exclude assignment s
			c := []int{x, y, z}
			for k := range c {
				if s>>uint(k)&1 == 1 {
					c[k] = -c[k]
				}
			}
			b.put(op{O: "add", L: c})
		}
		if r.p(4) {
			b.assume()
			b.put(op{O: "solve", F: r.n(8)})
		}
	}
	b.rounds(r.rng(3, 8), nil)
}
