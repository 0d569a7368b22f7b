package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/go-air/gini"
	axp "github.com/go-air/gini/ax"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
)

// axShared is what the solvers of one service share: when their solves may
// end, and how many run.
type axShared struct {
	mu      sync.Mutex
	started int
	run     int
	maxRun  int
	busy    int               // solves begun while the solver was solving
	wait    []axWait          // accepted requests whose solve has not begun
	mayEnd  func(id int) bool // asked with mu held; id 0 for unknown requests
	delay   func() time.Duration
}

type axWait struct {
	id  int
	key string
}

// axProbe is a solver whose solves end when the script wants.
type axProbe struct {
	inter.S
	sh   *axShared
	pend []z.Lit
	cur  *axProbeSolve
}

func (p *axProbe) SCopy() inter.S {
	return &axProbe{S: p.S.SCopy(), sh: p.sh}
}

func (p *axProbe) Assume(ms ...z.Lit) {
	p.pend = append(p.pend, ms...)
	p.S.Assume(ms...)
}

func litKey(ms []z.Lit) string {
	l := []int{}
	for _, m := range ms {
		l = append(l, m.Dimacs())
	}
	sort.Ints(l)
	return fmt.Sprint(l)
}

func (p *axProbe) GoSolve() inter.Solve {
	sh := p.sh
	sh.mu.Lock()
	s := &axProbeSolve{p: p, t0: time.Now()}
	key := litKey(p.pend)
	for i, w := range sh.wait {
		if w.key == key {
			s.id = w.id
			sh.wait = append(sh.wait[:i:i], sh.wait[i+1:]...)
			break
		}
	}
	p.pend = nil
	if p.cur != nil && !p.cur.done {
		sh.busy++
	}
	p.cur = s
	sh.started++
	if sh.run++; sh.run > sh.maxRun {
		sh.maxRun = sh.run
	}
	if sh.delay != nil {
		s.after = sh.delay()
	}
	sh.mu.Unlock()
	s.in = p.S.GoSolve()
	return s
}

func (p *axProbe) Solve() int {
	s := p.GoSolve()
	for {
		if r, ok := s.Test(); ok {
			return r
		}
		time.Sleep(50 * time.Microsecond)
	}
}

func (p *axProbe) Try(d time.Duration) int { return p.GoSolve().Try(d) }

type axProbeSolve struct {
	p     *axProbe
	in    inter.Solve
	id    int
	t0    time.Time
	after time.Duration
	done  bool
}

func (s *axProbeSolve) held() bool {
	sh := s.p.sh
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if sh.mayEnd != nil {
		return !sh.mayEnd(s.id)
	}
	return time.Since(s.t0) < s.after
}

func (s *axProbeSolve) end() {
	sh := s.p.sh
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if !s.done {
		s.done = true
		sh.run--
	}
}

func (s *axProbeSolve) Test() (int, bool) {
	if s.held() {
		return 0, false
	}
	r, ok := s.in.Test()
	if ok {
		s.end()
	}
	return r, ok
}

func (s *axProbeSolve) Stop() int {
	h := s.held()
	r := s.in.Stop()
	s.end()
	if h {
		return 0
	}
	return r
}

func (s *axProbeSolve) Try(d time.Duration) int {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if r, ok := s.Test(); ok {
			return r
		}
		time.Sleep(50 * time.Microsecond)
	}
	return s.Stop()
}

func (s *axProbeSolve) Pause() (int, bool) { return s.in.Pause() }
func (s *axProbeSolve) Unpause()           { s.in.Unpause() }

// axReq is a request offered to the service.
type axReq struct {
	id   int
	r    *axp.Request
	l    []int
	t    time.Time // offered
	lim  time.Duration
	free bool // may be answered, for the specification
	rel  bool // its solve may end
	open bool
}

type axSvc struct {
	x       *xec
	t       axp.T
	cap     int
	mv      int
	single  bool
	sh      *axShared
	mu      sync.Mutex // of the events
	reqs    []*axReq
	byPtr   map[*axp.Request]*axReq
	order   []*axReq // accepted
	resps   []axKept
	base    int
	stopped bool
	broken  bool
	cls     [][]int
	done    map[int]bool
	gen     *axp.RequestGen
	buf     []z.Lit
}

// axGlobal is held while the generator of the package is set and used.
var axGlobal sync.Mutex

type axKept struct {
	r  *axp.Response
	ms []z.Lit
}

var axBase int

const axBlock = 6 * time.Second

func (x *xec) axNew(o op) {
	so := x.sols[0]
	a := &axSvc{x: x, cap: o.T, single: o.F&1 != 0, byPtr: map[*axp.Request]*axReq{}, done: map[int]bool{}}
	a.sh = &axShared{}
	var proto inter.S
	if so == nil {
		proto = gini.New()
	} else {
		proto = so.s
		a.mv = int(so.s.MaxVar())
	}
	for _, e := range x.evs {
		if e["e"] == "add" {
			a.cls = append(a.cls, e["c"].([]int))
		}
	}
	if o.F&2 == 0 {
		proto = &axProbe{S: proto, sh: a.sh}
	}
	if a.single && o.F&2 == 0 {
		a.sh.mayEnd = func(id int) bool {
			if id == 0 || id > len(a.reqs) {
				return false
			}
			return a.reqs[id-1].rel
		}
	}
	// goroutines of an earlier script may be about to end
	if n := runtime.NumGoroutine(); axBase == 0 || n < axBase {
		axBase = n
	}
	a.base = axBase
	a.t = axp.NewT(proto, a.cap)
	x.ax = a
	x.emit(ev{"e": "axnew", "cap": a.cap, "single": a.single})
}

// newReq makes a request; single: with assumptions nobody else has at the moment
func (a *axSvc) newReq(l []int, f int, lim time.Duration) *axReq {
	ms := []z.Lit{}
	for _, m := range l {
		ms = append(ms, z.Dimacs2Lit(m))
	}
	fl := axp.ReqFlag(0)
	if f&1 != 0 {
		fl |= axp.ReqModel
	}
	if f&2 != 0 {
		fl |= axp.ReqWhy
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	a.sh.mu.Lock()
	defer a.sh.mu.Unlock()
	q := &axReq{id: len(a.reqs) + 1, l: l, lim: lim, t: time.Now()}
	// requests come from a literal, from a generator of this service, or from the one of the package; a
	// generator is given a slice which the caller goes on to use.
	how := (q.id + len(a.x.sc.Ops)) % 3
	switch how {
	case 0:
		q.r = &axp.Request{Id: q.id, Flag: fl, Limit: lim, Ms: ms}
	case 1:
		if a.gen == nil {
			a.gen = axp.NewRequestGen()
			a.x.emit(ev{"e": "axgen", "model": a.gen.Flag().Model(), "why": a.gen.Flag().Why()})
		}
		a.gen.SetFlag(fl)
		a.gen.Limit(lim)
		a.buf = append(a.buf[:0], ms...)
		q.r = a.gen.New(a.buf...)
	case 2:
		axGlobal.Lock()
		axp.SetFlag(fl)
		axp.Limit(lim)
		a.buf = append(a.buf[:0], ms...)
		q.r = axp.NewRequest(a.buf...)
		if axp.Flag() != fl {
			a.x.suspect("package flag")
		}
		axGlobal.Unlock()
	}
	for i := range a.buf {
		a.buf[i] = z.Var(1 + i).Pos()
	}
	e := ev{"e": "axreq", "id": q.id, "how": how, "gid": q.r.Id, "l": cp(l), "ms": dimacsOf(q.r.Ms), "lim": int(lim / time.Microsecond),
		"glim": int(q.r.Limit / time.Microsecond), "model": fl.Model(), "why": fl.Why(), "gmodel": q.r.Flag.Model(), "gwhy": q.r.Flag.Why()}
	if q.r.Flag != fl || q.r.Limit != lim || fmt.Sprint(q.r.Ms) != fmt.Sprint(ms) {
		a.x.suspect("the request is another one")
	}
	a.x.emit(e)
	q.r.Id = q.id
	a.reqs = append(a.reqs, q)
	a.byPtr[q.r] = q
	return q
}

func (a *axSvc) emitCall(q *axReq) {
	if q == nil {
		a.x.emit(ev{"e": "axcall", "id": 0})
		return
	}
	a.x.emit(ev{"e": "axcall", "id": q.id, "l": cp(q.l), "lim": int(q.lim / time.Microsecond), "model": q.r.Flag.Model(), "why": q.r.Flag.Why()})
}

// call makes one call; f as for script operations: 1 try
func (a *axSvc) call(q *axReq, try, must bool) (ok bool) {
	a.mu.Lock()
	a.emitCall(q)
	a.sh.mu.Lock()
	if q != nil {
		a.sh.wait = append(a.sh.wait, axWait{q.id, litKey(q.r.Ms)})
	}
	a.sh.mu.Unlock()
	a.mu.Unlock()
	var r *axp.Request
	id := 0
	if q != nil {
		r, id = q.r, q.id
	}
	var resp *axp.Response
	sub, some := false, false
	t0 := time.Now()
	done := make(chan struct{})
	go func() {
		defer close(done)
		if try {
			for {
				resp, some = a.t.TryEx(r)
				if some || !must || time.Since(t0) > axBlock {
					break
				}
				time.Sleep(20 * time.Microsecond)
			}
		} else {
			resp = a.t.Ex(r)
			some = true
		}
	}()
	lim := axBlock
	if !a.single {
		lim = 30 * time.Second
	}
	tm := time.NewTimer(lim + time.Second)
	select {
	case <-done:
		tm.Stop()
	case <-tm.C:
		a.mu.Lock()
		defer a.mu.Unlock()
		a.x.emit(ev{"e": "axblock", "id": id})
		a.x.suspect("a call of the exchanger blocks")
		a.broken = true
		return false
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.broken {
		return false
	}
	out := "none"
	if resp != nil {
		out = "resp"
	} else if q != nil && some && !a.stopped {
		out, sub = "sub", true
	}
	if resp != nil {
		a.answer(resp, t0)
	}
	a.sh.mu.Lock()
	if sub {
		if !a.done[q.id] {
			q.open = true
			a.order = append(a.order, q)
			q.free = q.free || q.lim > 0
		}
	} else if q != nil {
		for i, w := range a.sh.wait {
			if w.id == q.id {
				a.sh.wait = append(a.sh.wait[:i:i], a.sh.wait[i+1:]...)
				break
			}
		}
	}
	a.sh.mu.Unlock()
	a.x.emit(ev{"e": "axret", "id": id, "out": out, "try": try})
	if out == "none" && (!try || must) && !a.stopped {
		a.x.suspect("no exchange")
	}
	return true
}

func (a *axSvc) answer(resp *axp.Response, t0 time.Time) {
	now := time.Now()
	e := ev{"e": "axresp", "id": -1, "same": false, "r": resp.Res, "who": resp.Who, "pend": resp.Pending, "exp": false, "late": false,
		"ms": []int{}, "mv": a.mv}
	q := a.byPtr[resp.Req]
	if q == nil && resp.Req != nil && resp.Req.Id >= 1 && resp.Req.Id <= len(a.reqs) {
		q = a.reqs[resp.Req.Id-1]
	} else if q != nil {
		e["same"] = resp.Req.Id == q.id
	}
	ms := []int{}
	for _, m := range resp.Ms {
		ms = append(ms, m.Dimacs())
	}
	e["ms"] = ms
	if q != nil {
		e["id"] = q.id
		if q.lim > 0 {
			e["exp"] = now.Sub(q.t) >= q.lim
			due := q.t.Add(q.lim)
			if due.Before(t0) {
				due = t0
			}
			// the solve may begin only when another one is answered
			e["late"] = a.single && len(a.order) <= a.cap && now.Sub(due) > 4*time.Second
		}
		if a.done[q.id] {
			a.x.suspect("answered twice")
		}
		a.done[q.id] = true
		q.open = false
		n := 0
		for _, p := range a.order {
			if p.open {
				n++
			}
		}
		if a.single && n != resp.Pending {
			a.x.suspect("pending")
		}
		a.triage(q, resp.Res, ms, e["exp"].(bool))
	} else {
		a.x.suspect("answer to nothing")
	}
	if e["late"].(bool) {
		a.x.suspect("late")
	}
	a.resps = append(a.resps, axKept{resp, append([]z.Lit(nil), resp.Ms...)})
	a.x.emit(e)
	a.x.stats.Solves++
}

// triage for small problems
func (a *axSvc) triage(q *axReq, r int, ms []int, exp bool) {
	x := a.x
	if r == 0 && !(q.lim > 0 && exp) {
		x.suspect("unknown")
	}
	in := map[int]bool{}
	for _, m := range ms {
		in[m] = true
	}
	if r == 1 && q.r.Flag.Model() {
		for v := 1; v <= a.mv; v++ {
			if in[v] == in[-v] {
				x.suspect("model is not one")
			}
		}
		for _, c := range append(a.cls, nil) {
			ok := c == nil
			for _, l := range c {
				ok = ok || in[l]
			}
			if !ok {
				x.suspect("model does not satisfy a clause")
			}
		}
		for _, l := range q.l {
			if !in[l] {
				x.suspect("model does not satisfy an assumption")
			}
		}
	}
	as := map[int]bool{}
	for _, l := range q.l {
		as[l] = true
	}
	why := r == -1 && q.r.Flag.Why()
	if why {
		for _, m := range ms {
			if !as[m] {
				x.suspect("failed assumption which is none")
			}
		}
	}
	if x.sc.Big {
		return
	}
	sat, wsat := false, false
	for m := 0; m < 1<<uint(x.sc.NV); m++ {
		val := func(l int) bool {
			v := abs(l)
			return (m>>uint(v-1)&1 == 1) == (l > 0)
		}
		ok := true
		for _, c := range a.cls {
			o := false
			for _, l := range c {
				o = o || val(l)
			}
			ok = ok && o
		}
		if !ok {
			continue
		}
		s, w := true, true
		for _, l := range q.l {
			s = s && val(l)
		}
		for _, l := range ms {
			if abs(l) <= x.sc.NV && l != 0 {
				w = w && val(l)
			}
		}
		sat, wsat = sat || s, wsat || w
	}
	if (r == 1 && !sat) || (r == -1 && sat) {
		x.suspect("verdict")
	}
	if why && wsat {
		x.suspect("failed assumptions do not suffice")
	}
}

// must: an exchange is possible (one caller)
func (a *axSvc) must(sub bool) bool {
	n, f := 0, 0
	for _, q := range a.order {
		if q.open {
			n++
			if q.free {
				f++
			}
		}
	}
	return f > 0 && (n <= a.cap || n-f < a.cap) || sub && n <= a.cap || a.stopped
}

func (a *axSvc) uniq(l []int) bool {
	k := litKey(lits(l))
	for _, q := range a.order {
		if q.open && litKey(q.r.Ms) == k {
			return false
		}
	}
	return true
}

func lits(l []int) []z.Lit {
	r := []z.Lit{}
	for _, m := range l {
		r = append(r, z.Dimacs2Lit(m))
	}
	return r
}

func (a *axSvc) release(newest bool) {
	var q *axReq
	for _, p := range a.order {
		if p.open && !p.rel && (q == nil || newest) {
			q = p
		}
	}
	if q == nil {
		return
	}
	a.sh.mu.Lock()
	q.free, q.rel = true, true
	a.sh.mu.Unlock()
	a.x.emit(ev{"e": "axfin", "id": q.id})
}

// finish answers everything, if it is to be, and stops the service
func (a *axSvc) finish(drain bool) {
	x := a.x
	if a.broken {
		return
	}
	if !a.stopped && drain {
		for {
			n := 0
			for _, q := range a.order {
				if q.open {
					n++
					a.release(false)
				}
			}
			if n == 0 {
				break
			}
			if !a.call(nil, false, true) {
				return
			}
		}
		for i := 0; i < 3; i++ { // nothing more comes
			r, ok := a.t.TryEx(nil)
			if ok || r != nil {
				a.mu.Lock()
				a.emitCall(nil)
				if r != nil {
					a.answer(r, time.Now())
				}
				a.x.emit(ev{"e": "axret", "id": 0, "out": "resp", "try": true})
				a.mu.Unlock()
			}
			time.Sleep(50 * time.Microsecond)
		}
		x.emit(ev{"e": "axdone"})
	}
	a.stop()
	if a.broken {
		return
	}
	for t := time.Now(); ; time.Sleep(100 * time.Microsecond) {
		a.sh.mu.Lock()
		n := a.sh.run
		a.sh.mu.Unlock()
		if n == 0 || time.Since(t) > 10*time.Second {
			break
		}
	}
	ok := quiet(a.base)
	a.sh.mu.Lock()
	defer a.sh.mu.Unlock()
	x.emit(ev{"e": "axload", "run": a.sh.maxRun, "busy": a.sh.busy})
	if a.sh.maxRun > a.cap || a.sh.busy > 0 {
		x.suspect("load")
	}
	x.emit(ev{"e": "axquiet", "ok": ok && a.sh.run == 0})
	if !ok || a.sh.run != 0 {
		x.suspect("something goes on after the stop")
	}
	kept := true
	for _, k := range a.resps {
		kept = kept && fmt.Sprint(k.ms) == fmt.Sprint(append([]z.Lit(nil), k.r.Ms...))
	}
	for _, q := range a.reqs {
		kept = kept && fmt.Sprint(lits(q.l)) == fmt.Sprint(q.r.Ms) && q.r.Limit == q.lim && q.r.Id == q.id
	}
	x.emit(ev{"e": "axkept", "ok": kept})
	if !kept {
		x.suspect("requests or answers changed")
	}
}

func (a *axSvc) stop() {
	a.mu.Lock()
	was := a.stopped
	a.stopped = true
	if !was {
		a.x.emit(ev{"e": "axstopping"})
	}
	a.mu.Unlock()
	if was {
		return
	}
	done := make(chan struct{})
	go func() { a.t.Stop(); close(done) }()
	ok := true
	select {
	case <-done:
	case <-time.After(axBlock):
		ok = false
		a.broken = true
		a.x.suspect("stop blocks")
	}
	a.mu.Lock()
	a.x.emit(ev{"e": "axstop", "ok": ok})
	a.mu.Unlock()
}

func (x *xec) stepAx(o op) bool {
	a := x.ax
	if a == nil || a.broken {
		return true
	}
	switch o.O {
	case "axsub", "axlim", "axtry":
		if a.single && (!a.uniq(o.L) || (o.O != "axtry" && !a.must(true))) {
			return false
		}
		lim := time.Duration(0)
		if o.O == "axlim" || o.T > 0 {
			lim = time.Duration(o.T) * time.Microsecond
		}
		must := a.must(true) && (o.O != "axtry" || !a.stopped)
		a.call(a.newReq(o.L, o.F, lim), o.O == "axtry", must)
	case "axrecv":
		if a.must(false) {
			a.call(nil, false, true)
		}
	case "axtryrecv":
		a.call(nil, true, a.must(false) && !a.stopped)
	case "axfinO", "axfinN":
		a.release(o.O == "axfinN")
	case "axstop":
		a.stop()
	case "axrun":
		a.free(o)
	case "axend":
		a.finish(o.F&1 != 0)
	}
	return a.broken
}

// free: several clients at once
func (a *axSvc) free(o op) {
	clients, each, maxDelay, stopAt := o.L[0], o.L[1], o.L[2], o.L[3]
	r0 := newRng(uint64(o.T), 7)
	if maxDelay > 0 {
		a.sh.delay = func() time.Duration { return time.Duration(r0.n(maxDelay)) * time.Microsecond }
	}
	var wg sync.WaitGroup
	for c := 0; c < clients; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			r := newRng(uint64(o.T), uint64(c)+11)
			for k := 0; k < each; k++ {
				a.mu.Lock()
				end := a.stopped || a.broken
				a.mu.Unlock()
				if end {
					return
				}
				if r.p(20) {
					if !a.call(nil, true, false) {
						return
					}
					continue
				}
				l := []int{}
				for j := r.n(4); j > 0; j-- {
					v := r.n(a.x.sc.NV) + 1
					if r.p(50) {
						v = -v
					}
					l = append(l, v)
				}
				lim := time.Duration(0)
				if r.p(25) || o.F&1 != 0 {
					lim = time.Duration(r.rng(1, o.L[4])) * time.Microsecond
				}
				if !a.call(a.newReq(l, r.n(4), lim), r.p(25), false) {
					return
				}
			}
		}(c)
	}
	if stopAt > 0 {
		time.Sleep(time.Duration(r0.n(stopAt)) * time.Microsecond)
		a.stop()
	}
	wg.Wait()
	if a.broken {
		return
	}
	a.finish(stopAt == 0)
}

// ---------------------------------------------------------------- generators

func init() {
	gens["ax"] = genAx
	gens["axplan"] = genAxPlan
	gens["axfree"] = genAxFree
	gens["axhard"] = genAxHard
}

func axProblem(r *rng, sc *script, nv int) {
	sc.NV = nv
	n := r.rng(0, nv*4)
	for i := 0; i < n; i++ {
		c := []int{}
		for j := r.rng(1, 3); j > 0 || len(c) == 0; j-- {
			if len(c) == 0 && n > 4 && j == 1 && r.p(70) {
				j++
			}
			v := r.n(nv) + 1
			if r.p(50) {
				v = -v
			}
			c = append(c, v)
		}
		sc.Ops = append(sc.Ops, op{O: "add", L: c})
	}
}

func axAss(r *rng, nv, max int) []int {
	l := []int{}
	for j := r.n(max + 1); j > 0; j-- {
		v := r.n(nv) + 1
		if r.p(50) {
			v = -v
		}
		l = append(l, v)
	}
	return l
}

func genAx(seed, idx uint64, nvFix int) *script {
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: "ax"}
	axProblem(r, sc, r.rng(3, 7))
	sc.Ops = append(sc.Ops, op{O: "axnew", T: r.rng(1, 4), F: 1})
	for n := r.rng(4, 40); n > 0; n-- {
		switch f := r.n(20); {
		case f < 6:
			sc.Ops = append(sc.Ops, op{O: "axsub", L: axAss(r, sc.NV, 4), F: r.n(4)})
		case f < 8:
			sc.Ops = append(sc.Ops, op{O: "axtry", L: axAss(r, sc.NV, 4), F: r.n(4), T: []int{0, 0, 300}[r.n(3)]})
		case f < 9:
			sc.Ops = append(sc.Ops, op{O: "axlim", L: axAss(r, sc.NV, 4), F: r.n(4), T: r.rng(1, 1500)})
		case f < 12:
			sc.Ops = append(sc.Ops, op{O: "axrecv"})
		case f < 14:
			sc.Ops = append(sc.Ops, op{O: "axtryrecv"})
		default:
			sc.Ops = append(sc.Ops, op{O: []string{"axfinO", "axfinN"}[r.n(2)]})
		}
	}
	sc.Ops = append(sc.Ops, op{O: "axend", F: b2i(r.p(70))})
	return sc
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var axPlans [][]string
var axPlansOnce sync.Once

func genAxPlan(seed, idx uint64, nvFix int) *script {
	axPlansOnce.Do(func() {
		b, err := os.ReadFile(os.Getenv("ZZAXPLANS"))
		die(err)
		die(json.Unmarshal(b, &axPlans))
	})
	pl := axPlans[idx%uint64(len(axPlans))]
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: "axplan"}
	axProblem(r, sc, r.rng(3, 5))
	sc.Ops = append(sc.Ops, op{O: "axnew", T: 1 + int(idx%3), F: 1})
	seen := map[string]bool{}
	for _, o := range pl {
		q := op{O: "ax" + o}
		switch o {
		case "sub", "try", "lim":
			for k := 0; k < 20; k++ {
				q.L = axAss(r, sc.NV, 3)
				if key := litKey(lits(q.L)); !seen[key] {
					seen[key] = true
					break
				}
			}
			q.F = r.n(4)
			if o == "lim" {
				q.T = r.rng(1, 600)
			}
		}
		sc.Ops = append(sc.Ops, q)
	}
	sc.Ops = append(sc.Ops, op{O: "axend", F: r.n(2)})
	return sc
}

func genAxFree(seed, idx uint64, nvFix int) *script {
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: "axfree"}
	axProblem(r, sc, r.rng(3, 8))
	sc.Ops = append(sc.Ops, op{O: "axnew", T: r.rng(1, 5), F: 0})
	stop := 0
	if r.p(25) {
		stop = 2000
	}
	sc.Ops = append(sc.Ops, op{O: "axrun", T: int(r.u64() % 1000000), L: []int{r.rng(1, 4), r.rng(2, 15), []int{0, 300, 2000}[r.n(3)], stop, 1500}})
	return sc
}

// real solves which take a while, with limits
func genAxHard(seed, idx uint64, nvFix int) *script {
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: "axhard", Big: true, Tick: []int{1, 100, 2000}[r.n(3)]}
	b := &bigGen{r: r, sc: &script{}}
	b.hardPhp(r.rng(7, 9))
	sc.NV = b.sc.NV
	for _, o := range b.sc.Ops {
		if o.O == "add" {
			sc.Ops = append(sc.Ops, op{O: "add", L: o.L})
		}
	}
	stop := 0
	if r.p(30) {
		stop = 20000
	}
	sc.Ops = append(sc.Ops, op{O: "axnew", T: r.rng(1, 4), F: 2 * r.n(2)})
	sc.Ops = append(sc.Ops, op{O: "axrun", T: int(r.u64() % 1000000), F: 1, L: []int{r.rng(1, 3), r.rng(2, 6), 0, stop, 20000}})
	return sc
}

func (s *axProbeSolve) Wait() int {
	for {
		if r, ok := s.Test(); ok {
			return r
		}
		time.Sleep(50 * time.Microsecond)
	}
}

func dimacsOf(ms []z.Lit) []int {
	r := []int{}
	for _, m := range ms {
		r = append(r, m.Dimacs())
	}
	return r
}
