package main

// Package dimacs: texts in the three formats (well-formed with any layout,
// damaged, cut) and what the readers made of them.

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"time"

	"github.com/go-air/gini/dimacs"
	"github.com/go-air/gini/z"
)

func init() { cmds["dim"] = dimMain }

type dimVis struct{ calls [][]interface{} }

func (v *dimVis) Init(n, m int)  { v.calls = append(v.calls, []interface{}{"init", n, m}) }
func (v *dimVis) Add(m z.Lit)    { v.calls = append(v.calls, []interface{}{"add", m.Dimacs()}) }
func (v *dimVis) Assume(m z.Lit) { v.calls = append(v.calls, []interface{}{"assume", m.Dimacs()}) }
func (v *dimVis) Solution(r int) { v.calls = append(v.calls, []interface{}{"solution", r}) }
func (v *dimVis) Value(m z.Lit)  { v.calls = append(v.calls, []interface{}{"value", m.Dimacs()}) }
func (v *dimVis) Eof()           { v.calls = append(v.calls, []interface{}{"eof"}) }

type dx struct {
	r   *rng
	ev  []cev
	sus string
	w   bytes.Buffer
}

func (x *dx) s(f string, a ...interface{}) { fmt.Fprintf(&x.w, f, a...) }

// chunked returns at most k bytes a time, empty reads in between
type chunked struct {
	r io.Reader
	g *rng
	k int
}

func (c chunked) Read(p []byte) (int, error) {
	if c.g.p(10) {
		return 0, nil
	}
	n := 1 + c.g.n(c.k)
	if n > len(p) {
		n = len(p)
	}
	return c.r.Read(p[:n])
}

// failData returns an error together with its last data
type failData struct {
	b []byte
	k int
}

func (d *failData) Read(p []byte) (int, error) {
	n := len(d.b)
	if n > d.k {
		n = d.k
	}
	n = copy(p, d.b[:n])
	d.b = d.b[n:]
	if len(d.b) == 0 {
		return n, io.ErrClosedPipe
	}
	return n, nil
}

func (x *dx) reader(b []byte) io.Reader {
	switch x.r.n(5) {
	case 0:
		return bytes.NewReader(b)
	case 1:
		return oneByte{bytes.NewReader(b)}
	case 2:
		return &dataErr{b, 1 + x.r.n(40)}
	default:
		return chunked{bytes.NewReader(b), x.r, 1 + x.r.n(30)}
	}
}

func (x *dx) read(f string, b []byte, strict, fail bool, want [][]interface{}) {
	var rd io.Reader
	switch {
	case !fail:
		rd = x.reader(b)
	case x.r.p(50):
		rd = failing{bytes.NewReader(b)}
	default:
		rd = &failData{b, 1 + x.r.n(60)}
	}
	v := &dimVis{calls: [][]interface{}{}}
	type res struct {
		err error
		p   interface{}
	}
	ch := make(chan res, 1)
	go func() {
		var r res
		defer func() {
			if p := recover(); p != nil {
				r.p = p
			}
			ch <- r
		}()
		switch f {
		case "cnf":
			if strict || x.r.p(50) {
				r.err = dimacs.ReadCnfStrict(rd, v, strict)
			} else {
				r.err = dimacs.ReadCnf(rd, v)
			}
		case "icnf":
			r.err = dimacs.ReadICnf(rd, v)
		case "sol":
			r.err = dimacs.ReadSolve(rd, v)
		}
	}()
	e := cev{"e": f, "by": byteInts(b), "strict": strict, "fail": fail}
	x.ev = append(x.ev, e)
	select {
	case r := <-ch:
		e["calls"] = v.calls
		switch {
		case r.p != nil:
			e["r"], e["msg"] = "panic", fmt.Sprint(r.p)
			x.sus = "live"
		case r.err != nil:
			e["r"], e["msg"] = "err", r.err.Error()
			if want != nil && !fail {
				x.sus = "refused"
			}
		default:
			e["r"] = "ok"
			if fail || want != nil && fmt.Sprint(want) != fmt.Sprint(v.calls) {
				x.sus = "calls"
			}
		}
	case <-time.After(20 * time.Second):
		e["r"], e["calls"] = "hang", [][]interface{}{}
		x.sus = "live"
	}
}

// layout
func (x *dx) comment() {
	n := x.r.n(12)
	if x.r.p(3) {
		n = 60 + x.r.n(60)
	}
	x.s("c")
	for ; n > 0; n-- {
		x.s("%c", []byte(" 0123 -pasvc%")[x.r.n(13)])
	}
	x.s("\n")
}
func (x *dx) comments() {
	for x.r.p(25) {
		x.comment()
	}
}
func (x *dx) sep(inline bool) {
	if inline || x.r.p(50) {
		x.s(" ")
		for x.r.p(10) {
			x.s([]string{" ", "\t"}[x.r.n(2)])
		}
		return
	}
	for {
		switch x.r.n(8) {
		case 0:
			x.s("\t")
		case 1:
			x.s("\r\n")
		case 2:
			x.s("\n")
			x.comments()
		case 3:
			x.s("\n\n")
			x.comments()
		case 4:
			x.s(" \n ")
		default:
			x.s("\n")
		}
		if !x.r.p(20) {
			return
		}
	}
}
func (x *dx) num(big bool) int {
	v := x.r.rng(1, 12)
	if x.r.p(10) {
		v = x.r.rng(1, 300)
	}
	if big && x.r.p(10) {
		v = []int{99999, 123456789, 999999999, 1<<30 - 1, 1 << 30, 1<<31 - 1}[x.r.n(6)]
	}
	if x.r.p(50) {
		v = -v
	}
	return v
}
func (x *dx) end() {
	if x.r.p(70) {
		x.s("\n")
		x.comments()
		if x.r.p(10) {
			x.s("c no newline")
		}
	}
}

// text writes a text of the format and returns the calls it stands for
func (x *dx) text(f string) ([]byte, [][]interface{}) {
	x.w.Reset()
	var want [][]interface{}
	call := func(a ...interface{}) { want = append(want, a) }
	x.comments()
	switch f {
	case "cnf":
		n := x.r.n(7)
		var cls [][]int
		vm := 0
		for k := 0; k < n; k++ {
			c := []int{}
			for j := x.r.n(5); j > 0; j-- {
				v := x.num(true)
				c = append(c, v)
				if v < 0 {
					v = -v
				}
				if v > vm {
					vm = v
				}
			}
			cls = append(cls, c)
		}
		call("init", vm, n)
		if x.r.p(75) {
			hn, hc := vm, n
			if x.r.p(15) {
				hn += x.r.rng(-1, 3)
			}
			if x.r.p(15) {
				hc += x.r.rng(-1, 1)
			}
			if hn < 0 {
				hn = 0
			}
			if hc < 0 {
				hc = 0
			}
			want = nil
			call("init", hn, hc)
			x.s("p cnf %d %d", hn, hc)
			if n > 0 || x.r.p(80) {
				x.s("\n")
				x.comments()
			}
		} else {
			want = nil
		}
		hdr := want != nil
		for _, c := range cls {
			for _, m := range append(c, 0) {
				x.s("%d", m)
				call("add", m)
				x.sep(x.r.p(80))
			}
		}
		if x.r.p(50) && n > 0 {
			b := bytes.TrimRight(x.w.Bytes(), " \n\t\r")
			if len(b) > 0 && b[len(b)-1] == '0' {
				b = append([]byte{}, b...)
				x.w.Reset()
				x.w.Write(b)
				x.end()
			}
		}
		call("eof")
		if !hdr {
			want = nil
		}
	case "icnf":
		x.s("p inccnf\n")
		x.comments()
		for n := x.r.n(8); n > 0; n-- {
			t := "add"
			if x.r.p(40) {
				t = "assume"
				x.s("a")
				x.sep(x.r.p(80))
			}
			for j := x.r.n(5); j >= 0; j-- {
				m := x.num(true)
				if j == 0 {
					m = 0
				}
				x.s("%d", m)
				call(t, m)
				if j > 0 {
					x.sep(x.r.p(80))
				}
			}
			if n > 1 {
				x.sep(x.r.p(30))
			} else {
				x.end()
			}
		}
		call("eof")
	case "sol":
		k := x.r.n(3)
		x.s("s %s\n", []string{"UNSATISFIABLE", "UNKNOWN", "SATISFIABLE"}[k])
		call("solution", k-1)
		if k == 1 {
			want[0][1] = 0
		} else if k == 2 {
			want[0][1] = 1
		}
		x.comments()
		if k > 0 && x.r.p(80) {
			n := x.r.n(12)
			x.s("v")
			for j := 1; j <= n; j++ {
				m := j
				if x.r.p(50) {
					m = -m
				}
				x.s(" %d", m)
				call("value", m)
				if x.r.p(20) {
					x.s("\n")
					x.comments()
					x.s("v")
				}
			}
			x.s(" 0")
			call("value", 0)
			x.end()
		}
		call("eof")
	}
	return append([]byte{}, x.w.Bytes()...), want
}

func (x *dx) mutate(b []byte) []byte {
	r := x.r
	b = append([]byte{}, b...)
	for k := r.rng(1, 2); k > 0 && len(b) > 0; k-- {
		switch r.n(8) {
		case 0:
			b[r.n(len(b))] = []byte(" 0123456789\nacpvs-+%x\r\x00\xff.")[r.n(25)]
		case 1:
			i := r.n(len(b))
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			i := r.n(len(b) + 1)
			b = append(b[:i:i], append([]byte{[]byte(" 01\ncapvs-+\t\r")[r.n(13)]}, b[i:]...)...)
		case 3:
			b = b[:r.n(len(b)+1)]
		case 4: // in the first line
			i := bytes.IndexByte(b, '\n')
			if i > 0 {
				b[r.n(i)] = []byte(" 01-\ncnfpi")[r.n(10)]
			}
		case 5: // lines
			ls := bytes.Split(b, []byte("\n"))
			i, j := r.n(len(ls)), r.n(len(ls))
			switch r.n(3) {
			case 0:
				ls = append(ls[:i:i], ls[i+1:]...)
			case 1:
				ls = append(ls[:i:i], append([][]byte{ls[i]}, ls[i:]...)...)
			case 2:
				ls[i], ls[j] = ls[j], ls[i]
			}
			b = bytes.Join(ls, []byte("\n"))
		case 6: // a number
			fs := bytes.Split(b, []byte(" "))
			fs[r.n(len(fs))] = []byte([]string{"0", "-0", "007", "-", "--1", "+3", "2147483647", "2147483648", "-2147483649", "3000000000", "-4294967295", "4294967296", "42949672970",
				"9223372036854775808", "1073741824", "99999999999999999999999999", "1-", "1.5", "0x1", "-1", "a", "aa", "p"}[r.n(23)])
			b = bytes.Join(fs, []byte(" "))
		case 7: // the header
			b = bytes.Replace(b, []byte("p cnf"), []byte([]string{"p inccnf", "p  cnf", "pcnf", "p", "p cn", "p dnf", "p cnf -"}[r.n(7)]), 1)
		}
	}
	return b
}

var dimFmts = []string{"cnf", "cnf", "icnf", "sol"}

func runDim(kind string, seed, idx uint64) *dx {
	r := newRng(seed, idx*2654435761+uint64(kind[0])*77+uint64(len(kind)))
	x := &dx{r: r, ev: []cev{}}
	defer func() {
		if p := recover(); p != nil {
			x.ev = append(x.ev, cev{"e": "panic", "msg": fmt.Sprint(p)})
			x.sus = "live"
		}
	}()
	switch kind {
	case "text":
		for k := 0; k < 6; k++ {
			f := dimFmts[r.n(4)]
			b, want := x.text(f)
			if len(b) > 500 {
				continue
			}
			x.read(f, b, false, false, want)
			if r.p(20) {
				x.read(f, b[:r.n(len(b)+1)], false, true, nil)
			}
			if f == "cnf" && r.p(60) {
				x.read(f, b, true, false, nil)
			}
		}
	case "bad":
		for k := 0; k < 8; k++ {
			f := dimFmts[r.n(4)]
			b, _ := x.text(f)
			b = x.mutate(b)
			if len(b) > 500 {
				continue
			}
			x.read(f, b, r.p(25), false, nil)
		}
	case "cut":
		f := dimFmts[r.n(4)]
		b, _ := x.text(f)
		if len(b) > 120 {
			b = b[:120]
		}
		strict := r.p(25)
		for k := 0; k <= len(b); k++ {
			x.read(f, b[:k], strict, false, nil)
		}
	case "long": // over the readers' buffers
		f := dimFmts[r.n(4)]
		b, want := x.text(f)
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			break
		}
		pad := 4096 - len(b)/2 - r.n(30)
		var w bytes.Buffer
		w.Write(b[:i+1])
		for pad > 0 {
			n := r.n(200)
			w.WriteString("c" + string(bytes.Repeat([]byte("1"), n)) + "\n")
			pad -= n + 2
		}
		w.Write(b[i+1:])
		e := x.r
		x.read(f, w.Bytes(), false, false, want)
		_ = e
	}
	return x
}

func dimMain(args []string) {
	fs := flag.NewFlagSet("dim", flag.ExitOnError)
	kind := fs.String("kind", "text", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 1000, "")
	keep := fs.Int("keep", 100, "")
	base := fs.Uint64("base", 0, "")
	budget := fs.Duration("budget", 10*time.Second, "")
	out := fs.String("out", "", "")
	fs.Parse(args)
	collect(*n, *keep, *budget, *out, func(idx uint64) (string, map[string]interface{}) {
		x := runDim(*kind, *seed, idx)
		return x.sus, map[string]interface{}{"ev": x.ev}
	}, *base)
}
