package main

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/logic/aiger"
	"github.com/go-air/gini/z"
)

func init() { cmds["aig"] = aigMain }

func byteInts(b []byte) []int {
	r := make([]int, len(b))
	for i := range b {
		r[i] = int(b[i])
	}
	return r
}

type ax struct {
	r    *rng
	ev   []cev
	wide bool // thousands of inputs now and then
}

var errFull = errors.New("verif: no room")

// limW has room for k bytes
type limW struct{ k int }

func (l *limW) Write(p []byte) (int, error) {
	if len(p) <= l.k {
		l.k -= len(p)
		return len(p), nil
	}
	n := l.k
	l.k = 0
	return n, errFull
}

// writeFull writes to a destination with room for k of n bytes
func (x *ax) writeFull(a *aiger.T, bin bool, n int) {
	k := x.r.n(n + 1)
	if x.r.p(30) {
		k = n - 1 + x.r.n(3)
	}
	var err error
	if bin {
		err = a.WriteBinary(&limW{k})
	} else {
		err = a.WriteAscii(&limW{k})
	}
	x.ev = append(x.ev, cev{"e": "full", "n": n, "k": k, "err": err != nil})
}

var symKinds = []byte{'i', 'l', 'o', 'b', 'c', 'j', 'f'}

func aigNames(a *aiger.T, k byte) (func(int) (string, bool), func(int, string) error, int) {
	switch k {
	case 'i':
		return a.InputName, a.NameInput, len(a.Inputs)
	case 'l':
		return a.LatchName, a.NameLatch, len(a.Latches)
	case 'o':
		return a.OutputName, a.NameOutput, len(a.Outputs)
	case 'b':
		return a.BadName, a.NameBad, len(a.Bad)
	case 'c':
		return a.ConstraintName, a.NameConstraint, len(a.Constraints)
	case 'j':
		return a.JusticeName, a.NameJustice, len(a.Justice)
	}
	return a.FairName, a.NameFair, len(a.Fair)
}

func aigObj(a *aiger.T) cev {
	c := &circ{s: a.S, c: &a.S.C}
	jus := [][]int{}
	for _, j := range a.Justice {
		jus = append(jus, ils(j))
	}
	syms := []interface{}{}
	for _, k := range symKinds {
		get, _, n := aigNames(a, k)
		for i := 0; i < n; i++ {
			if nm, ok := get(i); ok {
				syms = append(syms, []interface{}{int(k), i, byteInts([]byte(nm))})
			}
		}
	}
	return cev{"nodes": c.nodes(), "ins": ils(a.Inputs), "lats": ils(a.Latches), "out": ils(a.Outputs), "bad": ils(a.Bad),
		"con": ils(a.Constraints), "jus": jus, "fair": ils(a.Fair), "syms": syms}
}

// lanes for n free variables
func (x *ax) pats(n int) (int, [][]int) {
	lanes := 32
	if n <= 5 {
		lanes = 1 << uint(n)
	}
	r := make([][]int, n)
	for k := range r {
		r[k] = []int{}
		u := x.r.u64()
		for l := 0; l < lanes; l++ {
			if n <= 5 && l>>uint(k)&1 == 1 || n > 5 && u>>uint(l)&1 == 1 {
				r[k] = append(r[k], l)
			}
		}
	}
	return lanes, r
}

// readers
type oneByte struct{ r io.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

type dataErr struct { // the last data comes together with io.EOF
	b []byte
	k int
}

func (d *dataErr) Read(p []byte) (int, error) {
	n := d.k
	if n > len(d.b) {
		n = len(d.b)
	}
	n = copy(p, d.b[:n])
	d.b = d.b[n:]
	if len(d.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

var errBroken = errors.New("verif: broken reader")

type failing struct{ r io.Reader }

func (f failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errBroken
	}
	return n, err
}

func (x *ax) reader(b []byte) io.Reader {
	switch x.r.n(4) {
	case 0:
		return oneByte{bytes.NewReader(b)}
	case 1:
		return &dataErr{b, 1 + x.r.n(40)}
	}
	return bytes.NewReader(b)
}

// hugeBin: a binary header with many implicit inputs is valid and only slow
func hugeBin(b []byte) bool {
	f := strings.Fields(string(bytes.SplitN(b, []byte("\n"), 2)[0]))
	return len(f) > 2 && f[0] == "aig" && len(f[2]) > 5
}

func (x *ax) read(b []byte, bin, own, fail bool) *aiger.T {
	if hugeBin(b) {
		return nil
	}
	var rd io.Reader
	if fail {
		rd = failing{bytes.NewReader(b)}
	} else {
		rd = x.reader(b)
	}
	type res struct {
		a   *aiger.T
		err error
		p   interface{}
	}
	ch := make(chan res, 1)
	go func() {
		var r res
		defer func() {
			if p := recover(); p != nil {
				r.p = p
				r.a = nil
			}
			ch <- r
		}()
		if bin {
			r.a, r.err = aiger.ReadBinary(rd)
		} else {
			r.a, r.err = aiger.ReadAscii(rd)
		}
	}()
	e := cev{"e": "read", "bin": bin, "by": byteInts(b), "own": own, "fail": fail}
	x.ev = append(x.ev, e)
	select {
	case r := <-ch:
		switch {
		case r.p != nil:
			e["r"], e["msg"] = "panic", fmt.Sprint(r.p)
		case r.err != nil:
			e["r"], e["msg"] = "err", r.err.Error()
			if r.a != nil {
				e["msg"] = "both"
			}
		case r.a == nil:
			e["r"], e["msg"] = "panic", "neither"
		default:
			func() {
				defer func() {
					if p := recover(); p != nil {
						e["r"], e["msg"] = "panic", fmt.Sprint(p)
					}
				}()
				e["obj"] = aigObj(r.a)
				e["lanes"], e["pats"] = x.pats(len(r.a.Inputs) + len(r.a.Latches))
				e["r"] = "ok"
			}()
			return r.a
		}
	case <-time.After(20 * time.Second):
		e["r"] = "hang"
	}
	return nil
}

func (x *ax) write(a *aiger.T, bin bool) []byte {
	var buf bytes.Buffer
	var err error
	if bin {
		err = a.WriteBinary(&buf)
	} else {
		err = a.WriteAscii(&buf)
	}
	if err != nil {
		x.ev = append(x.ev, cev{"e": "panic", "msg": err.Error()})
		return nil
	}
	lanes, pats := x.pats(len(a.Inputs) + len(a.Latches))
	x.ev = append(x.ev, cev{"e": "write", "bin": bin, "by": byteInts(buf.Bytes()), "obj": aigObj(a), "lanes": lanes, "pats": pats})
	if x.r.p(25) {
		x.writeFull(a, bin, buf.Len())
	}
	return buf.Bytes()
}

func (x *ax) name() string {
	n := x.r.n(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(x.r.rng(32, 126))
		if x.r.p(2) {
			b[i] = []byte{'\t', '\r', 0, 200}[x.r.n(4)]
		}
	}
	return string(b)
}

// object builds a random aiger object
func (x *ax) object() *aiger.T {
	maxIn := x.r.rng(1, 7)
	n := x.r.rng(1, 14)
	if x.r.p(8) { // numbers whose differences take two bytes
		n = x.r.rng(60, 150)
		maxIn = x.r.rng(4, 60)
	}
	cxx := newCx(x.r, maxIn)
	c := cxx.newCirc(true)
	for k := 0; k < n; k++ {
		switch {
		case x.r.p(25):
			c.newIn(cxx)
		case x.r.p(20):
			c.newLatch(cxx)
		default:
			c.randOp(cxx)
		}
	}
	if x.wide && x.r.p(1) { // three bytes
		for k := x.r.rng(8400, 8800); k > 0; k-- {
			c.lits = append(c.lits, c.s.Lit())
		}
		for k := 0; k < 5; k++ {
			c.lits = append(c.lits, c.s.And(c.lits[x.r.n(24)], c.pick(cxx)))
		}
	}
	c.setNexts(cxx)
	ms := func(k int) []z.Lit { return c.picks(cxx, x.r.n(k+1)) }
	var a *aiger.T
	a = aiger.MakeFor(c.s, ms(3)...)
	if len(a.Inputs) > 1000 {
		a.Outputs = append(a.Outputs, c.lits[len(c.lits)-5:]...)
	}
	for x.r.p(40) {
		a.SetOutput(c.pick(cxx))
	}
	if x.r.p(20) {
		m := a.NewIn()
		c.lits = append(c.lits, m)
		a.SetOutput(a.S.And(m, c.pick(cxx)))
	}
	if x.r.p(50) {
		a.Bad = ms(2)
	}
	if x.r.p(50) {
		a.Constraints = append(a.Constraints, ms(2)...)
	}
	if x.r.p(40) {
		for k := x.r.n(3); k > 0; k-- {
			a.Justice = append(a.Justice, ms(3))
		}
	}
	if x.r.p(40) {
		a.Fair = ms(2)
	}
	for k := x.r.n(6); k > 0; k-- {
		kind := symKinds[x.r.n(7)]
		_, set, n := aigNames(a, kind)
		i := x.r.n(n + 1)
		if x.r.p(10) {
			i = []int{-1, n, n + 1}[x.r.n(3)]
		}
		nm := x.name()
		if x.r.p(5) {
			nm += "\n"
		}
		err := set(i, nm)
		x.ev = append(x.ev, cev{"e": "name", "i": i, "n": n, "nl": strings.Contains(nm, "\n"), "ok": err == nil})
	}
	return a
}

// foreign builds the text of a valid file from scratch
func (x *ax) foreign(bin bool) []byte {
	r := x.r
	I, L, A := r.n(5), r.n(4), r.n(9)
	if r.p(10) {
		A = r.n(30)
	}
	if r.p(12) {
		I, L, A = r.n(2), r.n(2), r.n(2)
	}
	if r.p(8) { // differences of two bytes
		I, A = r.rng(40, 200), r.rng(1, 30)
	}
	if bin && x.wide && r.p(1) { // of three
		I, L, A = r.rng(8400, 9000), r.n(3), r.rng(3, 8)
		x.wide = false
	}
	V := I + L + A
	M := V
	if !bin && r.p(40) {
		M += r.n(6)
	}
	vs := make([]int, M)
	for i := range vs {
		vs[i] = i + 1
	}
	if !bin && r.p(60) {
		for i := range vs {
			j := r.n(i + 1)
			vs[i], vs[j] = vs[j], vs[i]
		}
	}
	vs = vs[:V]
	lit := func(k int) int { // a literal over constants and the first k variables
		v := r.n(k + 1)
		if r.p(30) && k > 3 {
			v = k - r.n(3)
		} else if k > 1000 && r.p(50) {
			v = r.n(20)
		}
		u := 0
		if v > 0 {
			u = 2 * vs[v-1]
		}
		return u + r.n(2)
	}
	type and struct{ g, a, b int }
	var ands []and
	for k := 0; k < A; k++ {
		a, b := lit(I+L+k), lit(I+L+k)
		if r.p(10) {
			b = a
		} else if r.p(8) {
			b = a ^ 1
		}
		if bin && a < b || !bin && r.p(50) {
			a, b = b, a
		}
		ands = append(ands, and{2 * vs[I+L+k], a, b})
	}
	cnt := func() int {
		if r.p(50) {
			return 0
		}
		return r.n(3)
	}
	O, B, C, J, F := r.n(4), cnt(), cnt(), cnt(), cnt()
	var w bytes.Buffer
	fmt.Fprintf(&w, "%s %d %d %d %d %d", map[bool]string{true: "aig", false: "aag"}[bin], M, I, L, O, A)
	extra := []int{B, C, J, F}
	ne := 4
	for ne > 0 && extra[ne-1] == 0 && r.p(70) {
		ne--
	}
	for k := 0; k < ne; k++ {
		fmt.Fprintf(&w, " %d", extra[k])
	}
	w.WriteString("\n")
	if !bin {
		for k := 0; k < I; k++ {
			fmt.Fprintf(&w, "%d\n", 2*vs[k])
		}
	}
	for k := 0; k < L; k++ {
		if !bin {
			fmt.Fprintf(&w, "%d ", 2*vs[I+k])
		}
		fmt.Fprintf(&w, "%d", lit(V))
		switch r.n(4) {
		case 0:
			w.WriteString(" 0")
		case 1:
			w.WriteString(" 1")
		case 2:
			fmt.Fprintf(&w, " %d", 2*vs[I+k])
		}
		w.WriteString("\n")
	}
	line := func(k int) {
		for ; k > 0; k-- {
			fmt.Fprintf(&w, "%d\n", lit(V))
		}
	}
	line(O)
	line(B)
	line(C)
	js := make([]int, J)
	for k := range js {
		js[k] = r.n(4)
		fmt.Fprintf(&w, "%d\n", js[k])
	}
	for _, n := range js {
		line(n)
	}
	line(F)
	if bin {
		w7 := func(u int) {
			for u >= 128 {
				w.WriteByte(byte(u&127 | 128))
				u >>= 7
			}
			if r.p(2) { // a longer encoding, of the same number or of one which is too large
				w.WriteByte(byte(u | 128))
				for k := []int{0, 1, 2, 3, 8, 34, 35, 36, 37, 70}[r.n(10)]; k > 0; k-- {
					w.WriteByte(128)
				}
				u = []int{0, 0, 1, 8}[r.n(4)]
			}
			w.WriteByte(byte(u))
		}
		for _, a := range ands {
			w7(a.g - a.a)
			w7(a.a - a.b)
		}
	} else {
		if r.p(60) {
			for i := range ands {
				j := r.n(i + 1)
				ands[i], ands[j] = ands[j], ands[i]
			}
		}
		for _, a := range ands {
			fmt.Fprintf(&w, "%d %d %d\n", a.g, a.a, a.b)
		}
	}
	for i, n := range []int{I, L, O, B, C, J, F} {
		for k := 0; k < n; k++ {
			if r.p(20) {
				fmt.Fprintf(&w, "%c%d %s\n", symKinds[i], k, x.name())
			}
		}
	}
	if r.p(30) {
		w.WriteString("c\n")
		for r.p(50) {
			w.WriteString(x.name() + "\n")
		}
	}
	return w.Bytes()
}

// mutate damages a file
func (x *ax) mutate(b []byte) []byte {
	r := x.r
	b = append([]byte{}, b...)
	for k := r.rng(1, 2); k > 0 && len(b) > 0; k-- {
		switch r.n(9) {
		case 0: // a byte
			b[r.n(len(b))] = []byte(" 0123456789\nacgi-x\r\x80\xff")[r.n(21)]
		case 1: // drop a byte
			i := r.n(len(b))
			b = append(b[:i:i], b[i+1:]...)
		case 2: // insert a byte
			i := r.n(len(b) + 1)
			b = append(b[:i:i], append([]byte{[]byte(" 01234567\ncix\x81")[r.n(14)]}, b[i:]...)...)
		case 3: // cut
			b = b[:r.n(len(b)+1)]
		case 4, 5, 6: // change a number of a line
			ls := strings.Split(string(b), "\n")
			i := r.n(len(ls))
			if r.p(30) {
				i = 0
			}
			fs := strings.Split(ls[i], " ")
			j := r.n(len(fs))
			var u int
			if _, err := fmt.Sscanf(fs[j], "%d", &u); err == nil {
				switch r.n(6) {
				case 0:
					u++
				case 1:
					u--
				case 2:
					u ^= 1
				case 3:
					u = r.n(30)
				case 4:
					u += 2
				case 5:
					if r.p(40) {
						fs[j] = []string{"4294967296", "18446744073709551616", "99999999999999999999999", "2147483648", "1073741824"}[r.n(5)]
						ls[i] = strings.Join(fs, " ")
						b = []byte(strings.Join(ls, "\n"))
						continue
					}
					u *= 2
				}
				fs[j] = fmt.Sprint(u)
				ls[i] = strings.Join(fs, " ")
				b = []byte(strings.Join(ls, "\n"))
			}
		case 7: // drop, repeat or swap a line
			ls := strings.Split(string(b), "\n")
			i, j := r.n(len(ls)), r.n(len(ls))
			switch r.n(3) {
			case 0:
				ls = append(ls[:i:i], ls[i+1:]...)
			case 1:
				ls = append(ls[:i:i], append([]string{ls[i]}, ls[i:]...)...)
			case 2:
				ls[i], ls[j] = ls[j], ls[i]
			}
			b = []byte(strings.Join(ls, "\n"))
		case 8: // the other kind of file
			b = bytes.Replace(b, []byte("aag"), []byte("aig"), 1)
		}
	}
	return b
}

func runAig(kind string, seed, idx uint64) *ax {
	r := newRng(seed, idx*2654435761+uint64(kind[0])*77+uint64(len(kind)))
	x := &ax{r: r, wide: kind == "round" || kind == "valid"}
	defer func() {
		if p := recover(); p != nil {
			x.ev = append(x.ev, cev{"e": "panic", "msg": fmt.Sprint(p)})
		}
	}()
	switch kind {
	case "round":
		a := x.object()
		big := len(a.Inputs) > 1000
		for _, bin := range []bool{r.p(50) || big, r.p(50)} {
			if big && !bin {
				continue
			}
			b := x.write(a, bin)
			if g := x.read(b, bin, true, false); g != nil && r.p(40) && !big {
				b2 := r.p(50)
				x.read(x.write(g, b2), b2, true, false)
			}
		}
		if r.p(30) && !big {
			o := aigObj(a)
			g := aiger.Copy(a)
			lanes, pats := x.pats(len(a.Inputs) + len(a.Latches))
			x.ev = append(x.ev, cev{"e": "copy", "obj": o, "obj2": aigObj(g), "lanes": lanes, "pats": pats})
			g.S.And(g.S.T, g.NewIn()) // the copy goes its own way
			g.SetOutput(g.S.F)
			for _, j := range g.Justice {
				for i := range j {
					j[i] = g.S.T
				}
			}
			for _, k := range symKinds {
				_, set, _ := aigNames(g, k)
				set(0, "changed")
			}
			x.ev = append(x.ev, cev{"e": "copy", "obj": o, "obj2": aigObj(a), "lanes": lanes, "pats": pats})
		}
	case "valid":
		for k := 0; k < 3; k++ {
			bin := r.p(50)
			b := x.foreign(bin)
			if g := x.read(b, bin, false, false); g != nil && r.p(30) && (len(g.Inputs) < 1000 || r.p(30)) {
				b2 := r.p(50) || len(g.Inputs) > 1000
				x.read(x.write(g, b2), b2, true, false)
			}
			if r.p(5) {
				x.read(b, !bin, false, false)
			}
			if r.p(20) {
				x.read(b[:r.n(len(b)+1)], bin, false, true)
			}
		}
	case "bad":
		for k := 0; k < 6; k++ {
			bin := r.p(40)
			b := x.mutate(x.foreign(bin))
			if len(b) > 600 {
				continue
			}
			x.read(b, bin, false, false)
		}
	case "prefix":
		bin := r.p(50)
		b := x.foreign(bin)
		if r.p(30) {
			bin = r.p(50)
			b = x.write(x.object(), bin)
		}
		if len(b) > 240 {
			b = b[:240]
		}
		for k := 0; k < len(b); k++ {
			x.read(b[:k], bin, false, false)
		}
	}
	return x
}

func aigMain(args []string) {
	fs := flag.NewFlagSet("aig", flag.ExitOnError)
	kind := fs.String("kind", "round", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 1000, "")
	keep := fs.Int("keep", 100, "")
	base := fs.Uint64("base", 0, "")
	budget := fs.Duration("budget", 10*time.Second, "")
	out := fs.String("out", "", "")
	fs.Parse(args)
	collect(*n, *keep, *budget, *out, func(idx uint64) (string, map[string]interface{}) {
		x := runAig(*kind, *seed, idx)
		sus := ""
		for _, e := range x.ev {
			if e["e"] == "panic" || e["r"] == "panic" || e["r"] == "hang" {
				sus = "live"
			}
		}
		return sus, map[string]interface{}{"ev": x.ev}
	}, *base)
}

var _ = logic.SInput
