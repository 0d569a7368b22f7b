package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
)

// actBase: literals above it are logical activation literals.
const actBase = 1000

type op struct {
	O string `json:"o"`
	S int    `json:"s,omitempty"`
	L []int  `json:"l,omitempty"`
	T int    `json:"t,omitempty"`
	F int    `json:"f,omitempty"`
}

type script struct {
	Id     int     `json:"id"`
	Kind   string  `json:"k"`
	NV     int     `json:"nv"`
	Lazy   bool    `json:"lazy,omitempty"` // variables are obtained with Lit() at first use
	Pre    bool    `json:"pre,omitempty"`  // all NV variables are obtained with Lit() first
	Tune   int     `json:"tune,omitempty"`
	Big    bool    `json:"big,omitempty"`
	Tick   int     `json:"tick,omitempty"` // propagations between control ticks
	Rst    int     `json:"rst,omitempty"`  // conflicts per unit between restarts
	Cap    int     `json:"cap,omitempty"`
	Sv     bool    `json:"sv,omitempty"`     // wrapped, with inner variables
	Remote bool    `json:"remote,omitempty"` // clients of a server
	Spread int     `json:"spread,omitempty"` // distance of raw variables (raw connections)
	Proxy  bool    `json:"proxy,omitempty"`  // remote: the connection goes through a proxy the script can cut
	Ops    []op    `json:"ops"`
	Wit    [][]int `json:"wit,omitempty"` // planted assignments (Big)
}

type ev map[string]interface{}

// one solver under test with the API-level bookkeeping needed to stay legal.
type sol struct {
	s       inter.S
	g       *gini.Gini
	raw     map[int]z.Var // base var / act id -> variable
	log     map[z.Var]int // variable -> base var / newest act id
	depth   int
	noTest  bool // test panics by contract until untest returns 0
	pendLit int  // literals of a not yet terminated clause
	acts    []int
	pend    map[int]bool // act literals assumed for the next solve or test
	dead    map[int]bool
	failed  bool
	lastNs  []int
	scopeNs [][]int
	last    int // last verdict (2: none)
	lastMut bool
	conf    int64
	mx      z.Var
	noAct   bool // loaded from dimacs: variables are given by number, no activation literals of its own
	next    z.Var
	inner   []z.Lit
	conn    inter.Solve // a running asynchronous solve
	paused  bool
	rw      *rawConn
	kept    map[string][]keptLits // results which are the caller's
}

type keptLits struct{ ms, was []z.Lit }

// keep checks that the earlier results of a kind of call are what they were, and remembers ms.
func (so *sol) keep(kind string, ms []z.Lit) bool {
	ok := true
	for _, k := range so.kept[kind] {
		for i := range k.was {
			ok = ok && k.ms[i] == k.was[i]
		}
	}
	if so.kept == nil {
		so.kept = map[string][]keptLits{}
	}
	l := so.kept[kind]
	if len(l) > 5 {
		l = l[1:]
	}
	so.kept[kind] = append(l[:len(l):len(l)], keptLits{ms, append([]z.Lit(nil), ms...)})
	return ok
}

type xec struct {
	sc    *script
	sols  map[int]*sol
	nAct  int
	evs   []ev
	jrnl  func(op, int) // called before every op
	sus   string        // triage: why this trace looks suspicious
	orc   *oracle
	stats execStats
	base  int // goroutines without connections
	ax    *axSvc
}

type execStats struct {
	Solves, Sat, Unsat, Unk, Conf int
}

func newExec(sc *script) *xec {
	x := &xec{sc: sc, sols: map[int]*sol{}}
	if !sc.Big {
		x.orc = newOracle(sc.NV)
	} else {
		x.orc = newBigOracle(sc.NV, sc.Wit)
	}
	return x
}

func (x *xec) emit(e ev) { x.evs = append(x.evs, e) }

func (x *xec) suspect(f string, a ...interface{}) {
	if x.sus == "" {
		x.sus = fmt.Sprintf(f, a...)
	}
}

func newTarget(sc *script) inter.S {
	var g *gini.Gini
	switch {
	case sc.Sv && sc.Cap > 0:
		return gini.NewSvVars(z.NewVars())
	case sc.Sv:
		return gini.NewSv()
	case sc.Cap > 0:
		g = gini.NewVc(sc.Cap, sc.Cap*2)
	default:
		g = gini.New()
	}
	return g
}

func (x *xec) newSol(id int, s inter.S) *sol {
	so := &sol{s: s, raw: map[int]z.Var{}, log: map[z.Var]int{}, dead: map[int]bool{}, pend: map[int]bool{}, last: 2}
	if g, ok := s.(*gini.Gini); ok {
		so.g = g
		if x.sc.Tune > 0 {
			hookTune(g, x.sc.Tune)
		}
	}
	x.sols[id] = so
	if x.sc.Pre {
		for i := 1; i <= x.sc.NV; i++ {
			v := s.Lit().Var()
			so.raw[i] = v
			so.log[v] = i
		}
	}
	return so
}

func (so *sol) clone() *sol {
	o := *so
	o.raw = map[int]z.Var{}
	for k, v := range so.raw {
		o.raw[k] = v
	}
	o.log = map[z.Var]int{}
	for k, v := range so.log {
		o.log[k] = v
	}
	o.dead = map[int]bool{}
	for k, v := range so.dead {
		o.dead[k] = v
	}
	o.pend = map[int]bool{}
	for k, v := range so.pend {
		o.pend[k] = v
	}
	o.acts = append([]int(nil), so.acts...)
	o.inner = append([]z.Lit(nil), so.inner...)
	o.scopeNs = append([][]int(nil), so.scopeNs...)
	o.kept = nil
	return &o
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

func (x *xec) lit(so *sol, l int) z.Lit {
	v := abs(l)
	rv, ok := so.raw[v]
	if !ok {
		switch {
		case so.noAct:
			rv = so.fresh()
		case x.sc.Lazy:
			rv = so.s.Lit().Var()
		default:
			rv = z.Var(v)
		}
		so.raw[v] = rv
		so.log[rv] = v
	}
	if l < 0 {
		return rv.Neg()
	}
	return rv.Pos()
}

// fresh: a variable number unused so far in a loaded solver
func (so *sol) fresh() z.Var {
	if m := so.s.MaxVar(); so.next <= m {
		so.next = m + 1
	}
	for _, rv := range so.raw {
		if so.next <= rv {
			so.next = rv + 1
		}
	}
	so.next++
	return so.next - 1
}

// unlit maps an observed literal back; 0 if the variable is unknown.
func (x *xec) unlit(so *sol, m z.Lit) int {
	l := so.log[m.Var()]
	if !m.IsPos() {
		return -l
	}
	return l
}

func (x *xec) unlits(so *sol, ms []z.Lit) []int {
	r := make([]int, 0, len(ms))
	for _, m := range ms {
		r = append(r, x.unlit(so, m))
	}
	return r
}

func (x *xec) model(so *sol, e ev) {
	s := so.s
	mx := so.mx // variables known when the answer was given
	if x.sc.Big {
		pos := make([]int, x.sc.NV)
		neg := make([]int, x.sc.NV)
		for i := 1; i <= x.sc.NV; i++ {
			rv, ok := so.raw[i]
			if !ok {
				rv = z.Var(i)
			}
			neg[i-1] = 1
			if (ok || !x.sc.Lazy && !so.noAct) && rv <= mx {
				if s.Value(rv.Pos()) {
					pos[i-1] = 1
				}
				if !s.Value(rv.Neg()) {
					neg[i-1] = 0
				}
			}
		}
		e["pos"], e["neg"] = pos, neg
	} else {
		pos, neg := 0, 0
		for i := 1; i <= x.sc.NV; i++ {
			rv, ok := so.raw[i]
			if !ok {
				rv = z.Var(i)
			}
			if (!ok && (x.sc.Lazy || so.noAct)) || rv > mx {
				neg |= 1 << uint(i-1)
				continue
			}
			if s.Value(rv.Pos()) {
				pos |= 1 << uint(i-1)
			}
			if s.Value(rv.Neg()) {
				neg |= 1 << uint(i-1)
			}
		}
		e["pos"], e["neg"] = pos, neg
	}
	at := []int{}
	for _, a := range so.acts {
		if so.dead[a] {
			continue
		}
		if rv := so.raw[a]; rv <= mx && s.Value(rv.Pos()) {
			at = append(at, a)
		}
	}
	e["at"] = at
}

// why reads the failed assumptions, sometimes into a slice with a prefix.
func (x *xec) why(so *sol, e ev, f int) {
	pre := []z.Lit{}
	if f&1 != 0 {
		pre = append(make([]z.Lit, 0, 8), z.Var(1).Pos(), z.Var(2).Neg())
	} else if f&2 != 0 {
		pre = nil
	}
	ms := so.s.Why(pre)
	e["kept"] = so.keep("why", ms)
	if len(ms) < len(pre) || (len(pre) > 0 && (ms[0] != pre[0] || ms[1] != pre[1])) {
		e["prefix"] = false
	} else {
		e["prefix"] = true
		ms = ms[len(pre):]
	}
	e["why"] = x.unlits(so, ms)
}

func (x *xec) verdict(so *sol, e ev, r int, f int) {
	e["r"] = r
	so.last = r
	so.mx = so.s.MaxVar()
	if so.g != nil {
		c := hookConflicts(so.g)
		x.stats.Conf += int(c - so.conf)
		so.conf = c
	}
	switch r {
	case 1:
		x.stats.Sat++
		x.model(so, e)
	case -1:
		x.stats.Unsat++
		if f&4 == 0 {
			x.why(so, e, f)
			e["hw"] = true
		} else {
			e["hw"] = false
			e["why"] = []int{}
			e["prefix"] = true
			e["kept"] = true
		}
	case 0:
		x.stats.Unk++
	}
}

type panicked struct {
	msg string
}

func (x *xec) guarded(f func()) (p *panicked) {
	defer func() {
		if r := recover(); r != nil {
			p = &panicked{msg: fmt.Sprint(r)}
		}
	}()
	f()
	return nil
}

// run executes the whole script; illegal ops are skipped.
func (x *xec) run() {
	hookLimits(x.sc.Tick, x.sc.Rst)
	if x.sc.Remote {
		defer func() {
			if x.base > 0 {
				x.hangUp()
			}
		}()
	}
	defer func() { // end what is still running
		for _, so := range x.sols {
			if so.conn != nil && !x.sc.Remote {
				if so.paused {
					so.conn.Unpause()
				}
				so.conn.Stop()
			}
		}
	}()
	for i, o := range x.sc.Ops {
		if x.jrnl != nil {
			x.jrnl(o, i)
		}
		n0 := len(x.evs)
		stop := false
		p := x.guarded(func() { stop = x.step(o) })
		if p != nil {
			x.evs = x.evs[:n0]
			x.emit(ev{"e": "panic", "s": o.S, "op": o.O, "msg": p.msg})
			x.suspect("panic in %s: %s", o.O, p.msg)
			return
		}
		if stop {
			return
		}
	}
}

func (x *xec) step(o op) (stop bool) {
	if strings.HasPrefix(o.O, "ax") {
		if o.O == "axnew" {
			x.axNew(o)
			return
		}
		return x.stepAx(o)
	}
	so := x.sols[o.S]
	if so == nil && x.sc.Remote {
		switch o.O {
		case "quit", "drop", "rdrop", "reset", "rfin", "refuse":
			return
		}
		if strings.HasSuffix(o.O, "?") {
			return
		}
		if o.O[0] == 'c' || !x.dial(o.S, o.O[0] == 'r') {
			return o.O[0] != 'c'
		}
		so = x.sols[o.S]
	}
	if so != nil && so.rw != nil {
		if strings.HasSuffix(o.O, "?") { // only if it is in order
			o.O = strings.TrimSuffix(o.O, "?")
			if !so.rw.inOrder(o.O[1:]) {
				return
			}
		}
		x.stepRaw(so, o)
		return
	}
	if so == nil {
		if o.S != 0 || len(x.sols) > 0 {
			return
		}
		so = x.newSol(0, newTarget(x.sc))
		x.orc.newSolver(0)
	}
	s := so.s
	orc := x.orc
	for _, l := range o.L { // every act id mentioned must exist (and be alive)
		if abs(l) > actBase {
			if _, ok := so.raw[abs(l)]; !ok || so.dead[abs(l)] {
				return
			}
		}
	}
	if (so.conn != nil) != (o.O[0] == 'c' && o.O != "copy" && o.O != "cut") {
		return
	}
	if x.stepRemote(so, o) {
		return
	}
	switch o.O {
	case "gos":
		so.conn, so.paused = s.GoSolve(), false
		x.emit(ev{"e": "gos", "s": o.S})
	case "cnap":
		if o.T == 0 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Duration(o.T) * time.Microsecond)
		}
	case "ctest", "cpause", "cunpause", "cwait", "cstop", "ctry":
		if so.paused != (o.O == "cunpause") {
			return
		}
		e := ev{"e": "ctl", "s": o.S, "op": o.O[1:], "fin": false, "exp": false, "r": 0}
		r, fin := 0, false
		switch o.O {
		case "ctest":
			r, fin = so.conn.Test()
		case "cpause":
			r, so.paused = so.conn.Pause()
			fin = !so.paused
		case "cunpause":
			so.conn.Unpause()
			so.paused = false
		case "cwait":
			r, fin = so.conn.Wait(), true
		case "cstop":
			r, fin = so.conn.Stop(), true
		case "ctry":
			d := time.Duration(o.T) * time.Microsecond
			t0 := time.Now()
			r, fin = so.conn.Try(d), true
			e["exp"] = time.Since(t0) >= d
		}
		e["r"], e["fin"] = r, fin
		if fin {
			so.conn = nil
			x.stats.Solves++
			so.pend = map[int]bool{}
			x.verdict(so, e, r, o.F)
			if r == -1 && so.depth > 0 {
				so.noTest = true
			}
		}
		x.emit(e)
		if fin {
			if msg := orc.solved(o.S, e, o.O == "cstop" || e["exp"] == true); msg != "" {
				x.suspect("%s", msg)
			}
		} else if r != 0 {
			x.suspect("a result without end")
		}
	case "part": // literals of a clause, not terminated yet
		if so.depth > 0 {
			return
		}
		for _, l := range o.L {
			s.Add(x.lit(so, l))
		}
		so.pendLit += len(o.L)
		if x.sc.Remote {
			so.last = 2
		}
		orc.part(o.S, o.L)
		x.emit(ev{"e": "part", "s": o.S, "c": cp(o.L)})
	case "add":
		if so.depth > 0 {
			return
		}
		for _, l := range o.L {
			s.Add(x.lit(so, l))
		}
		s.Add(z.LitNull)
		so.pendLit = 0
		orc.add(o.S, o.L)
		x.emit(ev{"e": "add", "s": o.S, "c": cp(o.L)})
		so.last = 2
	case "ass":
		ms := make([]z.Lit, 0, len(o.L))
		for _, l := range o.L {
			ms = append(ms, x.lit(so, l))
		}
		if o.F == 1 {
			for _, m := range ms {
				s.Assume(m)
			}
		} else {
			s.Assume(ms...)
		}
		kept := true
		for i, l := range o.L {
			kept = kept && ms[i] == x.lit(so, l)
		}
		if !kept {
			x.suspect("assume changed its argument")
		}
		for _, l := range o.L {
			so.pend[abs(l)] = true
		}
		if _, ok := s.(*remote); ok && len(ms) > 0 {
			so.last = 2 // answers are gone
		}
		orc.assume(o.S, o.L)
		x.emit(ev{"e": "ass", "s": o.S, "l": cp(o.L), "kept": kept})
	case "solve", "try", "go":
		e := ev{"e": o.O, "s": o.S}
		r := 0
		exp := false
		switch o.O {
		case "solve":
			r = s.Solve()
		case "go":
			r = s.GoSolve().Wait()
		case "try":
			d := time.Duration(o.T) * time.Microsecond
			t0 := time.Now()
			r = s.Try(d)
			el := time.Since(t0)
			exp = el >= d
			e["d"] = o.T
			e["exp"] = exp
			e["late"] = el > d+3*time.Second
		}
		x.stats.Solves++
		so.pend = map[int]bool{}
		x.verdict(so, e, r, o.F)
		x.emit(e)
		if msg := orc.solved(o.S, e, exp); msg != "" {
			x.suspect("%s", msg)
		}
		if r == -1 && so.depth > 0 {
			so.noTest = true
		} else if r == -1 {
			// outside of any scope test is allowed again
		}
	case "val":
		if so.last != 1 {
			return
		}
		e := ev{"e": "val", "s": o.S}
		x.model(so, e)
		x.emit(e)
		if msg := orc.reval(o.S, e); msg != "" {
			x.suspect("%s", msg)
		}
	case "why":
		if so.last != -1 {
			return
		}
		e := ev{"e": "why", "s": o.S}
		x.why(so, e, o.F)
		x.emit(e)
		if msg := orc.rewhy(o.S, e); msg != "" {
			x.suspect("%s", msg)
		}
	case "test":
		if so.noTest {
			return
		}
		var dst []z.Lit
		hn := true
		switch o.F & 3 {
		case 0:
			dst = make([]z.Lit, 0, 4)
		case 1:
			dst = append(make([]z.Lit, 0, 16), z.Var(1).Pos())
		default:
			hn = false
		}
		r, ns := s.Test(dst)
		so.pend = map[int]bool{}
		so.depth++
		e := ev{"e": "test", "s": o.S, "hn": hn, "nkept": so.keep("test", ns)}
		x.verdict(so, e, r, o.F)
		if r == -1 {
			so.noTest = true
			so.scopeNs = append(so.scopeNs, nil)
			e["ns"] = []int{}
		} else {
			l := x.unlits(so, ns)
			e["ns"] = l
			so.scopeNs = append(so.scopeNs, l)
		}
		x.emit(e)
		if msg := orc.tested(o.S, e); msg != "" {
			x.suspect("%s", msg)
		}
	case "untest":
		if so.depth == 0 {
			return
		}
		r := s.Untest()
		so.depth--
		so.scopeNs = so.scopeNs[:len(so.scopeNs)-1]
		so.noTest = r == -1
		so.last = 2
		if so.depth == 0 {
			so.noTest = so.noTest && r == -1
		}
		e := ev{"e": "untest", "s": o.S, "r": r}
		x.emit(e)
		if msg := orc.untested(o.S, r); msg != "" {
			x.suspect("%s", msg)
		}
	case "rsn": // reasons of everything reported in the open scopes
		if so.depth == 0 || so.noTest {
			return
		}
		ps, kept := [][]int{}, true
		rs := [][]int{}
		for _, ns := range so.scopeNs {
			for _, l := range ns {
				if l == 0 {
					continue
				}
				ps = append(ps, []int{l})
				var dst []z.Lit
				if o.F&1 == 0 {
					dst = make([]z.Lit, 0, 2)
				}
				got := s.Reasons(dst, x.lit(so, l))
				kept = so.keep("rsn", got) && kept
				rs = append(rs, x.unlits(so, got))
			}
		}
		for i := range ps {
			ps[i] = append(ps[i], rs[i]...)
		}
		e := ev{"e": "rsn", "s": o.S, "rs": ps, "kept": kept}
		x.emit(e)
		if !kept {
			x.suspect("earlier reasons changed")
		}
		if msg := orc.reasons(o.S, ps); msg != "" {
			x.suspect("%s", msg)
		}
	case "act", "actw", "actl":
		if so.depth > 0 || so.g == nil || so.noAct {
			return
		}
		if o.O == "actl" {
			m := so.g.ActivationLit()
			x.regAct(so, o.S, m, ev{"e": "actl", "s": o.S})
			return
		}
		if o.O == "actw" {
			if _, ok := so.raw[o.T]; !ok || so.dead[o.T] {
				return
			}
		}
		for _, l := range o.L {
			s.Add(x.lit(so, l))
		}
		if p := x.guarded(func() {
			if o.O == "act" {
				m := so.g.Activate()
				x.regAct(so, o.S, m, ev{"e": "act", "s": o.S, "c": cp(o.L)})
			} else {
				so.g.ActivateWith(so.raw[o.T].Pos())
				x.emit(ev{"e": "actw", "s": o.S, "m": o.T, "c": cp(o.L)})
				orc.actw(o.S, o.T, o.L)
			}
		}); p != nil {
			empty := strings.Contains(p.msg, "empty clause")
			x.emit(ev{"e": "actpanic", "s": o.S, "c": cp(o.L), "empty": empty, "msg": p.msg})
			if !orc.mayActPanic(o.S, o.L) || !empty {
				x.suspect("activate panicked: %s", p.msg)
			}
			return true // documented: subsequent behaviour is undefined
		}
		so.last = 2
		so.pendLit = 0
	case "deact":
		if so.depth > 0 || so.g == nil || so.noAct {
			return
		}
		rv, ok := so.raw[o.T]
		if !ok || so.dead[o.T] || so.pend[o.T] { // not while it is assumed
			return
		}
		so.g.Deactivate(rv.Pos())
		so.dead[o.T] = true
		so.last = 2
		orc.deact(o.S, o.T)
		x.emit(ev{"e": "deact", "s": o.S, "m": o.T})
	case "copy":
		if _, ok := x.sols[o.T]; ok {
			return
		}
		c := s.SCopy()
		n := so.clone()
		n.s = c
		n.g, _ = c.(*gini.Gini)
		if n.g != nil {
			n.conf = hookConflicts(n.g)
			if x.sc.Tune > 0 {
				hookTune(n.g, x.sc.Tune)
			}
		}
		x.sols[o.T] = n
		orc.copy(o.S, o.T)
		x.emit(ev{"e": "copy", "s": o.S, "t": o.T})
	case "lit":
		if !x.sc.Lazy || so.noAct {
			return
		}
		m := s.Lit()
		v := 0
		for i := 1; i <= x.sc.NV; i++ {
			if _, ok := so.raw[i]; !ok {
				v = i
				break
			}
		}
		old := so.log[m.Var()]
		if v != 0 {
			so.raw[v] = m.Var()
			so.log[m.Var()] = v
		}
		x.emit(ev{"e": "lit", "s": o.S, "raw": int(m.Var()), "pos": m.IsPos(), "used": old, "max": int(s.MaxVar())})
		if old != 0 {
			x.suspect("lit not fresh")
		}
	case "state":
		if so.g == nil {
			return
		}
		st := hookState(so.g)
		if st == nil {
			return
		}
		cls := func(cs [][]z.Lit) [][]int {
			r := [][]int{}
			for _, c := range cs {
				r = append(r, x.unlits(so, c))
			}
			return r
		}
		fixed := []int{}
		rsn := [][]int{}
		for i, m := range st.Trail {
			if st.Levels[i] == 0 {
				fixed = append(fixed, x.unlit(so, m))
			}
			if st.Reasons[i] != nil {
				rsn = append(rsn, x.unlits(so, st.Reasons[i]))
			}
		}
		if st.Bot {
			rsn = append(rsn, []int{})
		}
		e := ev{"e": "state", "s": o.S, "learnt": cls(st.Learnt), "added": cls(st.Added), "fixed": fixed, "rsn": rsn}
		x.emit(e)
		if msg := orc.state(o.S, e); msg != "" {
			x.suspect("%s", msg)
		}
	case "write", "load": // dimacs
		if so.g == nil {
			return
		}
		if o.F == 7 { // the destination fails after T bytes
			w := &limited{left: o.T}
			err := so.g.Write(w)
			x.emit(ev{"e": "wfail", "s": o.S, "full": !w.failed, "err": err != nil})
			if w.failed && err == nil {
				x.suspect("write error lost")
			}
			return
		}
		var buf bytes.Buffer
		var dst io.Writer = &buf
		if o.F == 6 {
			dst = struct{ io.Writer }{&buf}
		}
		err := so.g.Write(dst)
		mx := 0
		for rv := range so.log {
			if int(rv) > mx {
				mx = int(rv)
			}
		}
		vm := make([]int, mx)
		for rv := 1; rv <= mx; rv++ {
			l, ok := so.log[z.Var(rv)]
			if ok && !(l > actBase && so.dead[l]) {
				vm[rv-1] = l
			}
		}
		if !x.sc.Lazy && !so.noAct { // variables are given by number
			for rv := len(vm) + 1; rv <= x.sc.NV; rv++ {
				vm = append(vm, 0)
			}
			for rv := 1; rv <= x.sc.NV; rv++ {
				if _, ok := so.raw[rv]; !ok && vm[rv-1] == 0 {
					vm[rv-1] = rv
				}
			}
		}
		e := ev{"e": "write", "s": o.S, "by": byteInts(buf.Bytes()), "vm": vm, "ok": err == nil}
		x.emit(e)
		if msg := orc.wrote(o.S, buf.String(), vm); msg != "" {
			x.suspect("%s", msg)
		}
		if o.O == "write" || x.sols[o.T] != nil {
			return
		}
		g, err := gini.NewDimacs(&buf)
		x.emit(ev{"e": "load", "s": o.S, "t": o.T, "ok": err == nil && g != nil})
		if err != nil || g == nil {
			x.suspect("load failed")
			return true
		}
		n := so.clone()
		n.s, n.g, n.noAct = g, g, true
		n.depth, n.noTest, n.pendLit, n.last, n.mx = 0, false, 0, 2, 0
		n.pend = map[int]bool{}
		n.scopeNs, n.lastNs = nil, nil
		if !x.sc.Lazy && !so.noAct {
			for v := 1; v <= x.sc.NV; v++ {
				if _, ok := n.raw[v]; !ok {
					n.raw[v] = z.Var(v)
					n.log[z.Var(v)] = v
				}
			}
		}
		n.conf = hookConflicts(g)
		x.sols[o.T] = n
		orc.load(o.S, o.T)
	case "inner": // an inner variable, used if it can be
		sv, ok := s.(inter.Sv)
		if !ok || so.depth > 0 || so.pendLit > 0 {
			return
		}
		y := sv.Inner()
		e := ev{"e": "inner", "s": o.S, "pos": y.IsPos(), "v": int(y.Var()), "live": vars0(so.inner)}
		for _, m := range so.inner {
			if m.Var() == y.Var() {
				x.suspect("inner variable in use")
			}
		}
		so.inner = append(so.inner, y)
		x.emit(e)
		ms := []z.Lit{}
		for _, l := range o.L {
			ms = append(ms, x.lit(so, l))
		}
		hookInner(sv, y, ms)
		if len(ms) > 0 {
			so.last = 2
		}
	case "finner":
		sv, ok := s.(inter.Sv)
		if !ok || len(so.inner) == 0 {
			return
		}
		k := o.T % len(so.inner)
		y := so.inner[k]
		sv.FreeInner(y)
		so.inner = append(append([]z.Lit{}, so.inner[:k]...), so.inner[k+1:]...)
		x.emit(ev{"e": "finner", "s": o.S, "v": int(y.Var())})
	case "gc":
		if so.g != nil {
			hookGc(so.g)
		}
	default:
		panic("script: unknown op " + o.O)
	}
	return
}

func (x *xec) regAct(so *sol, sid int, m z.Lit, e ev) {
	x.nAct++
	id := actBase + x.nAct
	old := so.log[m.Var()] // what the variable meant before
	if old != 0 && !so.dead[old] {
		e["clash"] = old
		x.suspect("activation literal in use")
	} else {
		e["clash"] = 0
	}
	e["m"] = id
	e["pos"] = m.IsPos()
	so.raw[id] = m.Var()
	so.log[m.Var()] = id
	so.acts = append(so.acts, id)
	x.emit(e)
	c, _ := e["c"].([]int)
	if e["e"] == "act" {
		x.orc.act(sid, id, c)
	} else {
		x.orc.actl(sid, id)
	}
}

// limited fails after a number of bytes
type limited struct {
	left   int
	failed bool
}

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.left {
		l.failed = true
		n := l.left
		l.left = 0
		return n, errBroken
	}
	l.left -= len(p)
	return len(p), nil
}

func cp(l []int) []int { return append([]int{}, l...) }

func vars0(ms []z.Lit) []int {
	r := []int{}
	for _, m := range ms {
		r = append(r, int(m.Var()))
	}
	return r
}
