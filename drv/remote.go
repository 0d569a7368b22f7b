package main

import (
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/inter"
	gnet "github.com/go-air/gini/inter/net"
	"github.com/go-air/gini/z"
)

// A solver reached through a CRISP client, as an inter.S.  Errors the session
// must not give are panics, which the driver records.

var (
	srvOnce sync.Once
	srvAddr string

	baseOnce   sync.Once
	goroutines int // of the process without connections
)

// crispServer starts the server of this process.
func crispServer() string {
	srvOnce.Do(func() {
		log.SetOutput(io.Discard)
		srvAddr = fmt.Sprintf("@zz%d.sock", os.Getpid())
		s, err := crisp.NewServer(srvAddr)
		die(err)
		go s.Serve()
	})
	return srvAddr
}

// quiet: the process has no more goroutines than n, soon
func quiet(n int) bool {
	for d := time.Duration(0); d < 10*time.Second; {
		if runtime.NumGoroutine() <= n {
			return true
		}
		t := 50 * time.Microsecond
		if d > time.Millisecond {
			t = time.Millisecond
		}
		time.Sleep(t)
		d += t
	}
	return false
}

// proxy is a connection to the server which can be cut, and delivers in chunks.
type proxy struct {
	a, b net.Conn
	wg   sync.WaitGroup
}

func (p *proxy) cut() {
	p.a.Close()
	p.b.Close()
	p.wg.Wait()
}

var nproxy int

func dialProxy(r *rng) (*crisp.Client, *proxy, error) {
	nproxy++
	a := fmt.Sprintf("zzp%d-%d.sock", os.Getpid(), nproxy)
	l, err := net.Listen("unix", a)
	die(err)
	defer l.Close()
	p := &proxy{}
	up := make(chan error, 1)
	seed := r.u64()
	go func() {
		var err error
		if p.a, err = l.Accept(); err == nil {
			p.b, err = net.Dial("unix", strings.TrimPrefix(crispServer(), "@"))
		}
		up <- err
		if err != nil {
			return
		}
		pump := func(dst, src net.Conn, r *rng) {
			defer p.wg.Done()
			b := make([]byte, 1+r.n(6)*40)
			for {
				n, err := src.Read(b)
				if n > 0 {
					dst.Write(b[:n])
				}
				if err != nil {
					dst.Close()
					return
				}
			}
		}
		p.wg.Add(2)
		go pump(p.a, p.b, newRng(seed, 1))
		go pump(p.b, p.a, newRng(seed, 2))
	}()
	c, err := crisp.Dial("@" + a)
	if e := <-up; e != nil && err == nil {
		err = e
	}
	return c, p, err
}

// errLost: the connection was cut
type errLost struct{ error }

type remote struct {
	c     *crisp.Client
	p     *proxy
	cut   bool
	known z.Var // greatest variable of a terminated clause or assumption
	part  z.Var
}

func dialRemote(r *rng) (*remote, error) {
	if r != nil {
		c, p, err := dialProxy(r)
		return &remote{c: c, p: p}, err
	}
	c, err := crisp.Dial(crispServer())
	return &remote{c: c}, err
}

func (r *remote) close() {
	r.c.Close()
	if r.p != nil {
		r.p.cut()
	}
}

func must(err error) {
	if err != nil {
		panic("client: " + err.Error())
	}
}

func (r *remote) Add(m z.Lit) {
	must(r.c.Add(m))
	if m == z.LitNull {
		if r.part > r.known {
			r.known = r.part
		}
		r.part = 0
	} else if m.Var() > r.part {
		r.part = m.Var()
	}
}
func (r *remote) Assume(ms ...z.Lit) {
	must(r.c.Assume(ms...))
	for _, m := range ms {
		if m.Var() > r.known {
			r.known = m.Var()
		}
	}
}
func (r *remote) Solve() int {
	v, err := r.c.Solve()
	must(err)
	return v
}
func (r *remote) Try(d time.Duration) int { return r.GoSolve().Try(d) }
func (r *remote) GoSolve() inter.Solve    { return &remoteSolve{s: r.c.GoSolve()} }
func (r *remote) Value(m z.Lit) bool {
	v, err := r.c.Value(m)
	if err != nil && m.Var() > r.known {
		return !m.IsPos()
	}
	must(err)
	return v
}
func (r *remote) Why(dst []z.Lit) []z.Lit {
	ms, err := r.c.Why(dst)
	must(err)
	return ms
}
func (r *remote) MaxVar() z.Var                              { return r.c.MaxVar() }
func (r *remote) Lit() z.Lit                                 { panic("no lit") }
func (r *remote) Test(dst []z.Lit) (int, []z.Lit)            { panic("no test") }
func (r *remote) Untest() int                                { panic("no untest") }
func (r *remote) Reasons(dst []z.Lit, implied z.Lit) []z.Lit { panic("no reasons") }
func (r *remote) SCopy() inter.S                             { panic("no copy") }

type remoteSolve struct{ s gnet.Solve }

func (r *remoteSolve) Test() (int, bool) {
	v, fin, err := r.s.Test()
	must(err)
	return v, fin
}
func (r *remoteSolve) Try(d time.Duration) int {
	v, err := r.s.Try(d)
	must(err)
	return v
}
func (r *remoteSolve) Stop() int {
	v, err := r.s.Stop()
	must(err)
	return v
}
func (r *remoteSolve) Wait() int          { return r.Try(20 * time.Second) }
func (r *remoteSolve) Pause() (int, bool) { panic("no pause") }
func (r *remoteSolve) Unpause()           { panic("no pause") }

// dial opens connection id; false if that failed
func (x *xec) dial(id int, raw bool) bool {
	x.orc.newSolver(id)
	if x.base == 0 {
		baseOnce.Do(func() {
			if c, err := crisp.Dial(crispServer()); err == nil {
				c.Quit()
				c.Close()
			}
			for i, n := 0, 0; i < 20; i++ { // settled
				if m := runtime.NumGoroutine(); m != n {
					n, i = m, 0
				}
				time.Sleep(500 * time.Microsecond)
				goroutines = n
			}
		})
		x.base = goroutines
	}
	if raw {
		c := dialRaw()
		x.emit(ev{"e": "dial", "s": id, "ok": c != nil})
		if c == nil {
			x.suspect("no greeting")
			return false
		}
		x.sols[id] = &sol{rw: c}
		return true
	}
	var rg *rng
	if x.sc.Proxy {
		rg = newRng(uint64(x.sc.Id), uint64(len(x.evs)))
	}
	r, err := dialRemote(rg)
	x.emit(ev{"e": "dial", "s": id, "ok": err == nil})
	if err != nil {
		x.suspect("dial: %s", err)
		return false
	}
	x.newSol(id, r)
	return true
}

// hangUp ends all connections and waits until nothing is left of them
func (x *xec) hangUp() {
	for id, so := range x.sols {
		if so.conn != nil {
			so.conn.Stop()
		}
		if r, ok := so.s.(*remote); ok {
			if id%2 == 0 {
				r.c.Quit()
			}
			r.close()
		}
		if so.rw != nil {
			so.rw.conn.Close()
		}
	}
	ok := quiet(x.base)
	x.emit(ev{"e": "quiet", "s": 0, "ok": ok})
	if !ok {
		x.suspect("something goes on after all connections were closed")
	}
}

// stepRemote: the operations of clients only; false if o is none of them
func (x *xec) stepRemote(so *sol, o op) bool {
	r, ok := so.s.(*remote)
	if !ok {
		return false
	}
	if o.O == "cut" || o.O == "ccut" {
		if r.p != nil && !r.cut {
			r.p.cut()
			r.cut = true
		}
		return true
	}
	if r.cut {
		return x.stepCut(so, r, o)
	}
	switch o.O {
	case "test", "untest", "rsn", "copy", "lit", "act", "actl", "actw", "deact", "gc", "state", "write", "load",
		"cpause", "cunpause", "inner", "finner":
		return true
	case "mod": // the whole model as a slice
		if so.last != 1 {
			return true
		}
		var dst []bool
		switch o.F & 3 {
		case 0:
			dst = make([]bool, 2)
		case 1:
			dst = make([]bool, 100, 200)
			for i := range dst {
				dst[i] = true
			}
		}
		dst, err := r.c.Model(dst)
		must(err)
		e := ev{"e": "val", "s": o.S, "at": []int{}}
		get := func(v int) bool { return v < len(dst) && z.Var(v) <= so.mx && dst[v] }
		if x.sc.Big {
			pos, neg := make([]int, x.sc.NV), make([]int, x.sc.NV)
			for v := 1; v <= x.sc.NV; v++ {
				if get(v) {
					pos[v-1] = 1
				} else {
					neg[v-1] = 1
				}
			}
			e["pos"], e["neg"] = pos, neg
		} else {
			pos := 0
			for v := 1; v <= x.sc.NV; v++ {
				if get(v) {
					pos |= 1 << uint(v-1)
				}
			}
			e["pos"], e["neg"] = pos, 1<<uint(x.sc.NV)-1-pos
		}
		x.emit(e)
		if msg := x.orc.reval(o.S, e); msg != "" {
			x.suspect("%s", msg)
		}
	case "mfor": // the values of some literals
		if so.last != 1 {
			return true
		}
		ms := []z.Lit{}
		for _, l := range o.L {
			ms = append(ms, x.lit(so, l))
		}
		var dst []bool
		switch o.F & 3 {
		case 0:
			dst = make([]bool, 3)
		case 1:
			dst = make([]bool, 80, 200)
			for i := range dst {
				dst[i] = true
			}
		}
		dst, err := r.c.ModelFor(dst, ms)
		must(err)
		bits := []int{}
		for i := 1; i < len(dst); i++ {
			if dst[i] {
				bits = append(bits, i)
			}
		}
		x.emit(ev{"e": "mfor", "s": o.S, "l": cp(o.L), "bits": bits})
		if msg := x.orc.mfor(o.S, o.L, bits); msg != "" {
			x.suspect("%s", msg)
		}
	case "wsel": // those of some literals which are failed assumptions
		if so.last != -1 {
			return true
		}
		ms := []z.Lit{}
		for _, l := range o.L {
			ms = append(ms, x.lit(so, l))
		}
		var pre []z.Lit
		if o.F&1 != 0 {
			pre = append(make([]z.Lit, 0, 8), z.Var(3).Pos())
		}
		got, err := r.c.WhySelect(pre, ms)
		must(err)
		if len(got) < len(pre) || len(pre) > 0 && got[0] != pre[0] {
			x.suspect("prefix")
			x.emit(ev{"e": "wsel", "s": o.S, "l": cp(o.L), "ls": []int{0}})
			return true
		}
		ls := x.unlits(so, got[len(pre):])
		x.emit(ev{"e": "wsel", "s": o.S, "l": cp(o.L), "ls": ls})
		if msg := x.orc.wsel(o.S, o.L, ls); msg != "" {
			x.suspect("%s", msg)
		}
	case "refuse": // questions without an answer to them
		if so.last == 3 {
			return true
		}
		var err error
		what := "why"
		switch o.T % 5 {
		case 0:
			if so.last == -1 {
				return true
			}
			_, err = r.c.Why(nil)
		case 1:
			if so.last == -1 {
				return true
			}
			what = "whyselect"
			_, err = r.c.WhySelect(nil, []z.Lit{z.Var(1).Pos()})
		case 2:
			if so.last == 1 {
				return true
			}
			what = "model"
			_, err = r.c.Model(nil)
		case 3:
			if so.last == 1 {
				return true
			}
			what = "modelfor"
			_, err = r.c.ModelFor(nil, []z.Lit{z.Var(1).Pos()})
		default:
			if so.last == 1 {
				return true
			}
			what = "value"
			_, err = r.c.Value(z.Var(1).Pos())
		}
		x.emit(ev{"e": "refuse", "s": o.S, "op": what, "err": err != nil})
		if err == nil {
			x.suspect("%s answered", what)
		}
	case "mx":
		x.emit(ev{"e": "mx", "s": o.S, "v": int(r.c.MaxVar())})
	case "ext":
		n, err := r.c.GetExts()
		must(err)
		x.emit(ev{"e": "ext", "s": o.S, "n": n})
	case "reset":
		must(r.c.Reset())
		r.known, r.part = 0, 0
		x.emit(ev{"e": "reset", "s": o.S})
		x.orc.newSolver(o.S)
		so.last, so.pendLit, so.mx = 2, 0, 0
		so.pend = map[int]bool{}
	case "dim": // clauses as dimacs text
		n := 0
		mx := 0
		for _, l := range o.L {
			if abs(l) > mx {
				mx = abs(l)
			}
			if l == 0 {
				n++
			}
		}
		if so.pendLit > 0 || n == 0 {
			return true
		}
		var b strings.Builder
		fmt.Fprintf(&b, "p cnf %d %d\n", mx, n)
		var c []int
		var cs [][]int
		for _, l := range o.L {
			if l == 0 {
				b.WriteString("0\n")
				cs = append(cs, c)
				c = []int{}
				continue
			}
			c = append(c, l)
			b.WriteString(fmt.Sprint(int(x.lit(so, l).Dimacs()), " "))
		}
		must(r.c.Dimacs(strings.NewReader(b.String())))
		if z.Var(mx) > r.known {
			r.known = z.Var(mx)
		}
		for _, c := range cs {
			x.orc.add(o.S, c)
			x.emit(ev{"e": "add", "s": o.S, "c": cp(c)})
		}
		so.last = 2
		if allTaut(cs) {
			// whether such clauses are sent is up to the client
			so.last = 3
		}
	case "quit", "drop":
		if o.O == "quit" {
			must(r.c.Quit())
		}
		r.close()
		delete(x.sols, o.S)
		x.emit(ev{"e": "gone", "s": o.S})
	default:
		return false
	}
	return true
}

// allTaut: every clause has a literal and its negation
func allTaut(cs [][]int) bool {
	for _, c := range cs {
		t := false
		for _, l := range c {
			for _, k := range c {
				t = t || l == -k
			}
		}
		if !t {
			return false
		}
	}
	return true
}

// stepCut: a cut connection gives no answers
func (x *xec) stepCut(so *sol, r *remote, o op) bool {
	var err error
	switch o.O {
	case "cstop", "ctry", "cwait":
		v := 0
		v, err = so.conn.(*remoteSolve).s.Stop()
		so.conn = nil
		if err == nil && v != 0 { // may have come before
			err = errLost{}
		}
	case "solve", "go", "try":
		_, err = r.c.Solve()
	case "mod", "val":
		_, err = r.c.Model(nil)
	case "mfor":
		_, err = r.c.ModelFor(nil, []z.Lit{z.Var(1).Pos()})
	case "why":
		_, err = r.c.Why(nil)
	case "wsel":
		_, err = r.c.WhySelect(nil, []z.Lit{z.Var(1).Pos()})
	case "reset":
		err = r.c.Reset()
	case "ext":
		_, err = r.c.GetExts()
	case "quit", "drop":
		r.close()
		delete(x.sols, o.S)
		x.emit(ev{"e": "gone", "s": o.S})
		return true
	case "ass":
		r.c.Assume(z.Var(1).Pos())
		return true
	case "add":
		r.c.Add(z.Var(1).Pos())
		r.c.Add(0)
		return true
	default:
		return true
	}
	x.emit(ev{"e": "refuse", "s": o.S, "op": o.O, "err": err != nil})
	if err == nil {
		x.suspect("%s on a cut connection", o.O)
	}
	return true
}

// mfor: the values belong to a model
func (o *oracle) mfor(s int, ls, bits []int) string {
	p := o.s[s]
	in := map[int]bool{}
	for _, b := range bits {
		in[b] = true
		if b > len(ls) {
			return "modelfor: values of nothing"
		}
	}
	for j, l := range ls {
		t := false
		if o.big {
			t = p.posB[abs(l)-1] == 1
		} else {
			t = p.pos>>uint(abs(l)-1)&1 == 1
		}
		if t == (l > 0) != in[j+1] {
			return "modelfor: value"
		}
	}
	return ""
}

func (o *oracle) wsel(s int, ls, got []int) string {
	j := 0
	in := map[int]bool{}
	for _, a := range o.s[s].lastA {
		in[a] = true
	}
	for _, l := range ls {
		if j < len(got) && got[j] == l {
			j++
			if !in[l] {
				return "whyselect: not assumed"
			}
		}
	}
	if j < len(got) {
		return "whyselect: order"
	}
	if len(got) < len(ls) {
		all := 0
		for _, l := range ls {
			if in[l] {
				all++
			}
		}
		if all > len(got) && len(o.s[s].lastW) > 0 {
			w := map[int]bool{}
			for _, l := range o.s[s].lastW {
				w[l] = true
			}
			n := 0
			for _, l := range ls {
				if w[l] {
					n++
				}
			}
			if n != len(got) {
				return "whyselect: not the failed ones"
			}
		}
	}
	return ""
}

func init() {
	gens["remote"] = genRemote
	gens["remotebig"] = genRemoteBig
}

// genRemote: sessions of one to three clients of a server
func genRemote(seed, idx uint64, nvFix int) *script {
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: "remote", Remote: true, NV: r.rng(3, 7)}
	g := &incGen{r: r, sc: sc, clen: r.n(5)}
	if r.p(40) {
		sc.Tick = 1 << uint(r.n(8))
	}
	sc.Proxy = r.p(30)
	nc := 1 + r.n(3)
	if r.p(30) {
		nc = 1
	}
	for s := 0; s < nc; s++ {
		for i := r.n(sc.NV * 4); i > 0; i-- {
			g.put(op{O: "add", S: s, L: g.clause()})
		}
	}
	lits := func(n int) []int {
		l := []int{}
		for j := r.n(n + 1); j > 0; j-- {
			l = append(l, g.blit())
		}
		return l
	}
	for n := 15 + r.n(40); n > 0; n-- {
		s := r.n(nc)
		f := r.n(8)
		switch k := r.n(100); {
		case k < 16:
			g.put(op{O: "add", S: s, L: g.clause()})
		case k < 18:
			g.put(op{O: "part", S: s, L: []int{g.blit()}})
		case k < 20:
			l := []int{}
			for j := 1 + r.n(4); j > 0; j-- {
				l = append(append(l, g.clause()...), 0)
			}
			g.put(op{O: "dim", S: s, L: l})
		case k < 34:
			g.put(op{O: "ass", S: s, L: append(lits(2), g.blit()), F: r.n(2)})
		case k < 54:
			g.put(op{O: "solve", S: s, F: f})
			if r.p(15) {
				g.put(op{O: "solve", S: s, F: f})
			}
		case k < 57:
			d := 20000000
			if r.p(60) {
				d = 1 + r.n(200)
			}
			g.put(op{O: "try", S: s, T: d, F: f})
		case k < 62:
			g.put(op{O: "gos", S: s})
			for r.p(50) {
				if r.p(50) {
					g.put(op{O: "ctest", S: s, F: f})
				} else {
					g.put(op{O: "cnap", S: s, T: []int{0, 0, 1, 20, 100}[r.n(5)]})
				}
			}
			switch r.n(3) {
			case 0:
				g.put(op{O: "cstop", S: s, F: f})
			case 1:
				g.put(op{O: "cwait", S: s, F: f})
			default:
				d := 20000000
				if r.p(60) {
					d = 1 + r.n(200)
				}
				g.put(op{O: "ctry", S: s, T: d, F: f})
			}
		case k < 65:
			g.put(op{O: "val", S: s})
		case k < 69:
			g.put(op{O: "mod", S: s, F: f})
		case k < 74:
			n := 5
			if r.p(10) {
				n = 70
			}
			g.put(op{O: "mfor", S: s, L: lits(n), F: f})
		case k < 77:
			g.put(op{O: "why", S: s, F: r.n(4)})
		case k < 81:
			g.put(op{O: "wsel", S: s, L: lits(5), F: r.n(2)})
		case k < 88:
			g.put(op{O: "refuse", S: s, T: r.n(5)})
		case k < 92:
			g.put(op{O: "reset", S: s})
			for i := r.n(sc.NV * 3); i > 0; i-- {
				g.put(op{O: "add", S: s, L: g.clause()})
			}
		case k < 94:
			g.put(op{O: "mx", S: s})
		case k < 95:
			g.put(op{O: "ext", S: s})
		case k < 98:
			o := "quit"
			if r.p(40) {
				o = "drop"
			}
			if sc.Proxy && r.p(70) {
				g.put(op{O: "cut", S: s})
				for r.p(60) {
					g.put(op{O: []string{"solve", "mod", "mfor", "why", "wsel", "reset", "ext", "ass", "add"}[r.n(9)], S: s})
				}
			}
			g.put(op{O: o, S: s})
			for i := r.n(sc.NV * 3); i > 0; i-- {
				g.put(op{O: "add", S: s, L: g.clause()})
			}
		default:
			g.put(op{O: "cnap", S: s})
		}
	}
	return sc
}

// genRemoteBig: problems that take a while or never end, with other clients
func genRemoteBig(seed, idx uint64, nvFix int) *script {
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: "remotebig", Big: true, Remote: true}
	if r.p(60) {
		sc.Tick = 1 << uint(r.n(12))
	}
	b := &bigGen{r: r, sc: sc, async: true}
	sc.Proxy = r.p(30)
	hard := r.p(50)
	if hard {
		b.hardPhp(9)
	} else {
		sc.NV = r.rng(60, 100)
		if r.p(50) {
			b.witnesses(1)
		}
		for i := 0; i < sc.NV*43/10; i++ {
			b.put(op{O: "add", L: b.clause(3)})
		}
	}
	other := func(n int) { // another client does something easy
		for ; n > 0; n-- {
			v := 1 + r.n(sc.NV)
			if r.p(50) {
				v = -v
			}
			switch r.n(4) {
			case 0:
				b.put(op{O: "ass", S: 1, L: []int{v}})
			case 1:
				b.put(op{O: "ass", S: 1, L: []int{v, -v}})
			}
			b.put(op{O: "solve", S: 1, F: r.n(8)})
			if r.p(20) {
				b.put(op{O: "drop", S: 1})
			}
		}
	}
	if r.p(70) && !hard {
		for i := 0; i < 30; i++ {
			b.put(op{O: "add", S: 1, L: b.clause(3)})
		}
	}
	for k := 1 + r.n(3); k > 0; k-- {
		if hard {
			b.put(op{O: "ass", L: []int{sc.NV}})
		} else if r.p(50) {
			b.assume()
		}
		b.put(op{O: "gos"})
		for r.p(60) {
			switch r.n(3) {
			case 0:
				b.put(op{O: "cnap", T: []int{0, 1, 20, 300, 2000}[r.n(5)]})
			case 1:
				b.put(op{O: "ctest", F: r.n(8)})
			default:
				other(1)
			}
		}
		if r.p(20) {
			b.put(op{O: "ccut"})
		}
		switch {
		case r.p(50):
			b.put(op{O: "cstop", F: r.n(8)})
		case r.p(60) || hard:
			b.put(op{O: "ctry", T: 1 + r.n(3000), F: r.n(8)})
		default:
			b.put(op{O: "cwait", F: r.n(8)})
		}
		b.put(op{O: "refuse", T: r.n(5)})
		if hard && r.p(60) {
			b.put(op{O: "ass", L: []int{-sc.NV}})
			b.put(op{O: "solve", F: r.n(8)})
			l := []int{}
			for j := r.n(40); j > 0; j-- {
				v := 1 + r.n(sc.NV)
				if r.p(50) {
					v = -v
				}
				l = append(l, v)
			}
			b.put(op{O: "mfor", L: l, F: r.n(4)})
			b.put(op{O: "mod", F: r.n(4)})
		}
		other(r.n(2))
	}
	return sc
}
