package main

import (
	"encoding/json"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"
)

// A connection to a CRISP server with its own encoding, for arbitrary
// requests.

const (
	pKey uint32 = 0xffffffff - iota
	pAdd
	pAssume
	pSolve
	pContinue
	pEnd
	pError
	pFailed
	pFailedFor
	pModel
	pModelFor
	pSat
	pUnsat
	pUnknown
	pExt
	pQuit
	pReset
)

var rawOps = map[string]uint32{"key": pKey, "add": pAdd, "assume": pAssume, "solve": pSolve, "continue": pContinue,
	"end": pEnd, "failed": pFailed, "failedfor": pFailedFor, "model": pModel, "modelfor": pModelFor, "ext": pExt,
	"quit": pQuit, "reset": pReset, "finish": pContinue}

type rawConn struct {
	conn  net.Conn
	in    []byte
	ph    string // idle run sat unsat end
	queue []op   // written in one piece with the next request
	mv    int
	nopen int
	open  []int // literals of an unterminated clause
}

const rawWait = 8 * time.Second

func dialRaw() *rawConn {
	a := strings.TrimPrefix(crispServer(), "@")
	c, err := net.Dial("unix", a)
	if err != nil {
		return nil
	}
	w := &rawConn{conn: c, ph: "idle"}
	for _, b := range []byte("CRISP") {
		if u, st := w.read(); st != "" || u != uint32(b) {
			return nil
		}
	}
	if u, st := w.read(); st != "" || u == 0 {
		return nil
	}
	return w
}

// read gives a number, or a reason why there is none
func (w *rawConn) read() (uint32, string) {
	var u uint64
	for i := uint(0); ; i++ {
		if len(w.in) == 0 {
			w.conn.SetReadDeadline(time.Now().Add(rawWait))
			b := make([]byte, 4096)
			n, err := w.conn.Read(b)
			w.in = b[:n]
			if n == 0 {
				if ne, ok := err.(net.Error); ok && ne.Timeout() {
					return 0, "hang"
				}
				return 0, "closed"
			}
		}
		b := w.in[0]
		w.in = w.in[1:]
		u |= uint64(b&127) << (7 * i)
		if b&128 == 0 {
			break
		}
		if i == 4 {
			return 0, "garbage"
		}
	}
	if u > 0xffffffff {
		return 0, "garbage"
	}
	return uint32(u), ""
}

func putU(b []byte, us ...uint32) []byte {
	for _, u := range us {
		for u > 127 {
			b = append(b, byte(u)|128)
			u >>= 7
		}
		b = append(b, byte(u))
	}
	return b
}

func (w *rawConn) lit(x *xec, l int) uint32 {
	if l == 0 {
		return 0
	}
	v := uint32(abs(l) * x.spread())
	if l < 0 {
		return v<<1 | 1
	}
	return v << 1
}

func (x *xec) spread() int {
	if x.sc.Spread == 0 {
		return 1
	}
	return x.sc.Spread
}

func (x *xec) unraw(u uint32) int {
	k := uint32(x.spread())
	v := int(u >> 1)
	if (u>>1)%k == 0 {
		v = int(u>>1/k) * 1
		v = int((u >> 1) / k)
	} else {
		v = 100000 + int(u>>1%50000)
	}
	if u&1 == 1 {
		return -v
	}
	return v
}

// encode: the bytes of a request
func (w *rawConn) encode(x *xec, o op) []byte {
	name := o.O[1:]
	var b []byte
	lits := func() {
		for _, l := range o.L {
			b = putU(b, w.lit(x, l))
		}
	}
	switch name {
	case "bad":
		ops := []uint32{pAdd, pAssume}
		q := ops[(o.T>>4)%2]
		over := [][]byte{{0xff, 0xff, 0xff, 0xff, 0x10}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x01}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
			{0x81, 0x80, 0x80, 0x80, 0x1f}, {0xfa, 0xff, 0xff, 0xff, 0x7f}}[(o.T>>5)%5]
		switch o.T & 15 % 5 {
		case 0: // no number
			b = append(b, over...)
		case 1:
			b = append(putU(b, q), over...)
		case 2: // no request
			b = putU(b, []uint32{0, 2, 7, 0xfffffeff, 0xffffff00, 0xfffffff0 - 17, pSat, pUnsat, pUnknown, pError, 0x80000000}[(o.T>>5)%11])
		case 3: // no literal
			b = putU(b, q)
			lits()
			b = putU(b, []uint32{pSolve, pAdd, pAssume, pModel, pQuit, 0xffffff00, pKey}[(o.T>>5)%7])
		default: // not one either
			b = putU(b, q)
			lits()
			b = putU(b, 1)
		}
	case "add":
		b = putU(b, pAdd)
		lits()
		b = putU(b, pEnd)
	case "assume", "modelfor", "failedfor":
		b = putU(b, rawOps[name])
		lits()
		b = putU(b, 0)
	case "key":
		b = putU(b, pKey, uint32(len(o.L)))
		for _, l := range o.L {
			b = putU(b, uint32(l)*0x01234567)
		}
	case "drop":
	default:
		b = putU(b, rawOps[name])
	}
	return b
}

func (o op) badWhat() string {
	return []string{"vu", "datavu", "op", "data", "null"}[o.T&15%5]
}

// answers: whether the protocol answers o in the present phase
func (w *rawConn) answers(o op) bool {
	switch o.O {
	case "rquit", "rdrop":
		return false
	case "radd", "rassume", "rkey", "rreset":
		return w.ph == "run"
	}
	return true
}

// inOrder: whether the protocol allows a request now
func (w *rawConn) inOrder(name string) bool {
	switch name {
	case "continue", "end", "finish":
		return w.ph == "run"
	case "model", "modelfor":
		return w.ph == "sat"
	case "failed", "failedfor":
		return w.ph == "unsat"
	case "quit", "drop", "fin", "cut":
		return true
	}
	return w.ph != "run"
}

func (w *rawConn) write(b []byte, chunk int) {
	w.conn.SetWriteDeadline(time.Now().Add(rawWait))
	for len(b) > 0 {
		n := len(b)
		if chunk > 0 && n > chunk {
			n = chunk
		}
		if _, err := w.conn.Write(b[:n]); err != nil {
			return // the answer tells
		}
		b = b[n:]
	}
}

// stepRaw queues or executes a request
func (x *xec) stepRaw(so *sol, o op) {
	w := so.rw
	if o.O == "rcut" { // a part of a request, and gone
		b := []byte{}
		for _, p := range w.queue {
			b = append(b, w.encode(x, p)...)
		}
		b = append(b, w.encode(x, op{O: "radd", L: o.L})...)
		n := o.T % (len(b) + 1)
		w.write(b[:n], 0)
		w.conn.Close()
		delete(x.sols, o.S)
		x.emit(ev{"e": "gone", "s": o.S})
		return
	}
	if o.O == "rfin" { // nothing more will be sent, what was sent before is answered
		b := []byte{}
		for _, p := range w.queue {
			b = append(b, w.encode(x, p)...)
		}
		w.write(b, 0)
		if u, ok := w.conn.(*net.UnixConn); ok {
			u.CloseWrite()
		}
		q := w.queue
		w.queue = nil
		for _, p := range q {
			if !x.exchange(so, p, false, o.S) {
				return
			}
		}
		w.conn.Close()
		delete(x.sols, o.S)
		x.emit(ev{"e": "gone", "s": o.S})
		return
	}
	if o.O == "rdrop" {
		w.conn.Close()
		delete(x.sols, o.S)
		x.emit(ev{"e": "gone", "s": o.S})
		return
	}
	w.queue = append(w.queue, o)
	if o.F&1 != 0 && o.O != "rfinish" && len(w.queue) < 6 {
		return
	}
	b := []byte{}
	for _, p := range w.queue {
		b = append(b, w.encode(x, p)...)
	}
	chunk := 0
	if o.F&2 != 0 && len(b) < 200 {
		chunk = 1 + o.F>>2&3
	}
	w.write(b, chunk)
	q := w.queue
	w.queue = nil
	for _, p := range q {
		if !x.exchange(so, p, true, o.S) {
			return
		}
	}
}

// exchange reads the answer of a request that was sent; false if the
// connection is at its end.
func (x *xec) exchange(so *sol, o op, live bool, sid int) bool {
	w := so.rw
	name := o.O[1:]
	e := ev{"e": "rq", "s": sid, "op": name, "r": "none", "code": 0, "closed": false, "n": 0, "bits": []int{}, "l": cp(o.L),
		"ls": []int{}, "done": []int{}, "open": []int{}, "k": x.spread(), "what": ""}
	if name == "finish" {
		e["op"] = "continue"
	}
	if name == "bad" {
		e["what"] = o.badWhat()
	}
	ans := w.answers(o)
	if name == "finish" && w.ph != "run" {
		ans = true
	}
	if name == "add" && w.ph != "run" {
		for _, l := range o.L {
			if l == 0 {
				for _, m := range w.open {
					if abs(m) > w.mv {
						w.mv = abs(m)
					}
				}
				e["done"] = append(e["done"].([]int), w.open...)
				w.open = nil
			} else {
				w.open = append(w.open, l)
			}
		}
	}
	if name == "quit" {
		_, st := w.read()
		e["closed"] = st == "closed"
		e["r"] = "none"
		if st != "closed" {
			e["r"] = st
		}
		x.emit(e)
		x.rawEnd(so, sid)
		return false
	}
	if !ans {
		if name == "reset" {
			w.open = nil
			w.mv = 0
		}
		switch name {
		case "add", "assume", "key", "reset":
			w.ph = "idle"
		}
		x.emit(e)
		x.rawOracle(sid, e)
		return true
	}
	e["open"] = append([]int{}, w.open...)
	var u uint32
	var st string
	polls := 0
	t0 := time.Now()
	for {
		u, st = w.read()
		if name != "finish" || st != "" || u != pUnknown || !live {
			break
		}
		polls++
		if polls > 3 {
			time.Sleep(20 * time.Microsecond)
		}
		if time.Since(t0) > rawWait {
			st = "hang"
			break
		}
		w.write(putU(nil, pContinue), 0)
	}
	word := func() uint32 {
		if st != "" {
			return 0
		}
		var v uint32
		v, st = w.read()
		return v
	}
	isErr := false
	switch {
	case st != "":
	case u == pError:
		isErr = true
	case u == pSat:
		e["r"], w.ph = "sat", "sat"
	case u == pUnsat:
		e["r"], w.ph = "unsat", "unsat"
	case u == pUnknown:
		e["r"], w.ph = "unknown", "run"
	case u == pEnd:
		e["r"], w.ph = "end", "end"
	default:
		e["r"] = "data"
		switch name {
		case "model", "modelfor":
			e["n"] = int(u)
			bits := []int{}
			for i := uint32(0); i < u && st == "" && i < 1<<16; i++ {
				m := word()
				for j := uint32(0); j < 32; j++ {
					if m>>j&1 == 1 {
						bits = append(bits, int(i*32+j+1))
					}
				}
			}
			e["bits"] = bits
		case "failed", "failedfor":
			ls := []int{}
			for u != 0 && st == "" {
				if u == pError {
					isErr = true
					break
				}
				ls = append(ls, x.unraw(u))
				u = word()
			}
			e["ls"] = ls
		case "ext":
			n := 0
			for u != 0 && st == "" {
				n++
				u = word()
			}
			e["n"] = n
		default:
			e["r"], e["n"] = "number", int(u>>4)
		}
	}
	if isErr {
		e["r"] = "err"
		e["code"] = int(word() & 0xffffff)
		if st == "" {
			_, s2 := w.read()
			e["closed"] = s2 == "closed"
			if s2 == "hang" {
				e["r"] = "hang"
			}
		}
	}
	if st != "" {
		e["r"] = st
		e["closed"] = st == "closed"
	}
	x.emit(e)
	x.rawOracle(sid, e)
	if st != "" || isErr {
		x.rawEnd(so, sid)
		return false
	}
	return true
}

func (x *xec) rawEnd(so *sol, sid int) {
	so.rw.conn.Close()
	delete(x.sols, sid)
}

// rawOracle marks answers that look wrong (triage)
func (x *xec) rawOracle(sid int, e ev) {
	p := x.orc.s[sid]
	r := e["r"].(string)
	op := e["op"].(string)
	bad := func(s string) { x.suspect("raw %s %s: %s", op, r, s) }
	errIn := func(cs ...int) {
		if r != "err" || e["closed"] != true {
			bad("no error")
			return
		}
		for _, c := range cs {
			if e["code"].(int) == c {
				return
			}
		}
		bad("code")
	}
	ph := p.ph
	if ph == "" {
		ph = "idle"
	}
	wrong := func(not int) {
		switch ph {
		case "sat", "unsat", "end":
			errIn(not)
		default:
			errIn(4)
		}
	}
	switch {
	case op == "bad":
		c := map[string]int{"vu": 1, "datavu": 1, "op": 5, "data": 6, "null": 6}[e["what"].(string)]
		if ph == "run" && c != 1 {
			errIn(c, 4, 7)
		} else {
			errIn(c, 4, 7)
		}
	case ph == "run" && op != "continue" && op != "end", ph != "run" && (op == "continue" || op == "end"):
		errIn(4)
	case op == "add", op == "assume", op == "key", op == "reset":
		p.ph = "idle"
		switch op {
		case "add":
			var c []int
			for _, l := range e["l"].([]int) {
				if l == 0 {
					x.orc.add(sid, c)
					c = nil
				} else {
					c = append(c, l)
				}
			}
			x.orc.part(sid, c)
		case "assume":
			x.orc.assume(sid, e["l"].([]int))
		case "reset":
			x.orc.newSolver(sid)
		}
	case op == "solve" || op == "continue" || op == "end":
		inc := x.orc.incons(p, p.ass)
		switch r {
		case "sat":
			if inc && !x.orc.big {
				bad("but inconsistent")
			}
			p.ph = "sat"
		case "unsat":
			if !inc {
				bad("but consistent")
			}
			p.ph = "unsat"
		case "unknown":
			p.ph = "run"
			if op == "end" {
				bad("after end")
			}
		case "end":
			p.ph = "end"
			if op != "end" {
				bad("unasked")
			}
		default:
			bad("no answer")
		}
		if p.ph != "run" {
			p.lastA, p.ass = p.ass, nil
			p.lastW = nil
			p.pos = -1
		}
	case op == "model" || op == "modelfor":
		if ph != "sat" {
			wrong(2)
			return
		}
		if r != "data" {
			bad("no data")
		}
		if x.orc.big {
			return
		}
		bits := map[int]bool{}
		for _, b := range e["bits"].([]int) {
			bits[b] = true
		}
		if op == "model" {
			pos := 0
			for v := 1; v <= x.sc.NV; v++ {
				if bits[v*x.spread()] {
					pos |= 1 << uint(v-1)
				}
			}
			if p.pos != -1 && p.pos != pos {
				bad("model changed")
			}
			if e["n"].(int) != (x.sols[sid].rw.mv*x.spread()+31)/32 && len(e["open"].([]int)) == 0 && false {
				bad("length")
			}
			p.pos = pos
			if !p.mods.has(pos) {
				bad("no model")
			}
			for _, l := range p.lastA {
				if pos>>uint(abs(l)-1)&1 == 1 != (l > 0) {
					bad("assumption")
				}
			}
			return
		}
		if e["n"].(int) != (len(e["l"].([]int))+31)/32 {
			bad("length")
		}
		if p.pos >= 0 {
			for j, l := range e["l"].([]int) {
				t := false
				if abs(l) <= x.sc.NV {
					t = p.pos>>uint(abs(l)-1)&1 == 1
				}
				if t == (l > 0) != bits[j+1] {
					bad("value")
				}
			}
		}
	case op == "failed" || op == "failedfor":
		if ph != "unsat" {
			wrong(3)
			return
		}
		if r != "data" {
			bad("no data")
			return
		}
		ls := e["ls"].([]int)
		if op == "failed" {
			p.lastW = ls
			in := map[int]bool{}
			for _, a := range p.lastA {
				in[a] = true
			}
			for _, l := range ls {
				if !in[l] {
					bad("not assumed")
				}
			}
			if !x.orc.incons(p, ls) {
				bad("consistent")
			}
			return
		}
		if m := x.orc.wsel(sid, e["l"].([]int), ls); m != "" {
			bad(m)
		}
	case op == "ext":
		if r != "data" || e["n"].(int) != 0 {
			bad("extensions")
		}
	}
}

func init() {
	gens["raw"] = genRaw
	gens["rawplan"] = genRawPlan
}

// reqs appends a random request
func (g *incGen) rawReq(s int) {
	r := g.r
	lits := func(n int) []int {
		l := []int{}
		for j := r.n(n + 1); j > 0; j-- {
			l = append(l, g.blit())
		}
		return l
	}
	f := r.n(16)
	if r.p(50) {
		f &^= 1
	}
	o := op{S: s, F: f}
	switch k := r.n(100); {
	case k < 14:
		o.O = "radd"
		for j := 1 + r.n(3); j > 0; j-- {
			o.L = append(append(o.L, g.clause()...), 0)
		}
		if r.p(10) {
			o.L = append(o.L, g.blit())
		}
		if r.p(5) {
			o.L = []int{}
		}
	case k < 24:
		o.O, o.L = "rassume", lits(3)
	case k < 46:
		o.O = "rsolve"
		if r.p(80) {
			o.F &^= 1
			g.put(o)
			o.O = "rfinish?"
		}
	case k < 50:
		o.O = "rcontinue"
	case k < 53:
		o.O = "rend"
	case k < 60:
		o.O = "rmodel"
	case k < 67:
		o.O, o.L = "rmodelfor", lits(4)
		if r.p(10) {
			o.L = lits(80)
		}
	case k < 74:
		o.O = "rfailed"
	case k < 81:
		o.O, o.L = "rfailedfor", lits(5)
	case k < 84:
		o.O = "rext"
	case k < 86:
		o.O, o.L = "rkey", []int{}
		for j := r.n(4); j > 0; j-- {
			o.L = append(o.L, r.n(1000))
		}
	case k < 90:
		o.O = "rreset"
	case k < 92:
		o.O = "rquit"
	case k < 96:
		o.O, o.T, o.L = "rbad", r.n(1<<12), lits(2)
	case k < 97:
		o.O = "rdrop"
	case k < 98:
		o.O = "rfin"
	default:
		o.O, o.T, o.L = "rcut", r.n(30), lits(5)
	}
	if r.p(85) && !strings.HasSuffix(o.O, "?") {
		switch o.O {
		case "rquit", "rbad", "rdrop", "rfin", "rcut":
		default:
			o.O += "?"
			o.F &^= 1
		}
	}
	g.put(o)
}

// genRaw: raw connections, mostly in order, beside well-behaved clients
func genRaw(seed, idx uint64, nvFix int) *script {
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: "raw", Remote: true, NV: r.rng(3, 6), Spread: []int{1, 1, 7, 31, 32, 200, 3000}[r.n(7)]}
	g := &incGen{r: r, sc: sc, clen: r.n(5)}
	if r.p(30) {
		sc.Tick = 1 << uint(r.n(8))
	}
	nc := 1 + r.n(2)
	for s := 10; s < 10+nc; s++ {
		l := []int{}
		for i := r.n(sc.NV * 4); i > 0; i-- {
			l = append(append(l, g.clause()...), 0)
		}
		g.put(op{O: "radd", S: s, L: l})
	}
	for n := 15 + r.n(40); n > 0; n-- {
		if r.p(15) {
			s := 0
			switch r.n(6) {
			case 0, 1:
				g.put(op{O: "add", S: s, L: g.clause()})
			case 2:
				g.put(op{O: "ass", S: s, L: []int{g.blit()}})
			case 3:
				g.put(op{O: "reset", S: s})
			default:
				g.put(op{O: "solve", S: s, F: r.n(8)})
			}
			continue
		}
		g.rawReq(10 + r.n(nc))
	}
	return sc
}

var (
	rawPlans     [][]string
	rawPlansOnce sync.Once
)

// genRawPlan: a phase and every short sequence of requests in it
func genRawPlan(seed, idx uint64, nvFix int) *script {
	rawPlansOnce.Do(func() {
		b, err := os.ReadFile(os.Getenv("ZZRAWPLANS"))
		die(err)
		die(json.Unmarshal(b, &rawPlans))
	})
	pl := rawPlans[idx%uint64(len(rawPlans))]
	r := newRng(seed, idx)
	sc := &script{Id: int(idx), Kind: "rawplan", Remote: true, NV: 3, Spread: 1 + r.n(3)*20}
	s := 10
	put := func(o op) {
		o.S = s
		sc.Ops = append(sc.Ops, o)
	}
	switch pl[0] {
	case "run", "end":
		sc.Big, sc.Spread = true, 1
		b := &bigGen{r: r, sc: &script{}}
		b.hardPhp(9)
		sc.NV = b.sc.NV
		l := []int{}
		for _, o := range b.sc.Ops {
			if o.O == "add" {
				l = append(append(l, o.L...), 0)
			}
		}
		put(op{O: "radd", L: l})
		put(op{O: "rassume", L: []int{sc.NV}})
		put(op{O: "rsolve"})
		if pl[0] == "end" {
			put(op{O: "rend"})
		}
	case "sat", "unsat":
		put(op{O: "radd", L: []int{1, 2, 0, -1, -2, 0, 1, 3, 0}})
		if pl[0] == "sat" {
			put(op{O: "rassume", L: []int{1}})
		} else {
			put(op{O: "rassume", L: []int{1, 3, 2}})
		}
		put(op{O: "rsolve"})
		put(op{O: "rfinish?"})
	}
	for i, a := range pl[1:] {
		o := op{O: "r" + a}
		if i > 0 && r.p(30) && len(sc.Ops) > 0 { // in one piece with the one before
			if p := &sc.Ops[len(sc.Ops)-1]; p.O != "rfinish?" && i > 0 {
				p.F |= 1
			}
		}
		switch {
		case a == "add":
			o.L = []int{2, -3, 0}
		case a == "addx":
			o.O, o.L = "radd", []int{0}
		case a == "assume":
			o.L = []int{2, -1}
		case a == "modelfor" || a == "failedfor":
			o.L = []int{3, 1, -2, 5, 2}
			if sc.Big {
				o.L = []int{1, -2, 3}
			}
		case a == "key":
			o.L = []int{5, 7}
		case strings.HasPrefix(a, "bad"):
			k, _ := strconv.Atoi(a[3:])
			o.O, o.T = "rbad", k+r.n(64)<<4
			if r.p(50) {
				o.L = []int{1, 2}
			}
		}
		put(o)
		if a == "solve" && !sc.Big {
			put(op{O: "rfinish?"})
		}
	}
	put(op{O: "rext"})
	return sc
}

var _ = io.EOF
