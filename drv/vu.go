package main

// The wire encoding of the CRISP protocol: in the package through an overlay
// (kind io), and through a client talking to a server of the driver (kind net).

import (
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/z"
)

func init() { cmds["vu"] = vuMain }

type vuIO interface {
	Read() (uint32, error)
	Data() (uint32, error)
	Write(u uint32) error
	Send(ms []z.Lit) error
	Recv(dst []z.Lit) ([]z.Lit, error)
	Flush() error
}

// choppy is a stream in chunks: reads of any size, also nothing, the end with
// or after the last bytes; writes of any size up to a limit.
type choppy struct {
	r    *rng
	in   []byte
	mode int
	got  []byte
	lim  int // bytes taken; -1: any number
	nul  int
}

func (c *choppy) Read(p []byte) (int, error) {
	end := error(io.EOF)
	if c.mode&4 != 0 {
		end = errBroken
	}
	if len(c.in) == 0 {
		return 0, end
	}
	if c.mode&2 != 0 && c.nul < 3 && c.r.p(30) {
		c.nul++
		return 0, nil
	}
	c.nul = 0
	n := len(c.in)
	switch c.mode & 24 {
	case 0:
		n = 1
	case 8:
		n = 1 + c.r.n(5)
	case 16:
		n = 1 + c.r.n(700)
	}
	if n > len(c.in) {
		n = len(c.in)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.in[:n])
	c.in = c.in[n:]
	if len(c.in) == 0 && c.mode&1 != 0 {
		return n, end
	}
	return n, nil
}

func (c *choppy) Write(p []byte) (int, error) {
	n := len(p)
	if c.mode&32 != 0 { // short
		n = c.r.n(n + 1)
		if n == 0 && c.nul < 3 {
			c.nul++
			return 0, nil
		}
		if n == 0 {
			n = 1
		}
		c.nul = 0
	}
	if c.lim >= 0 && len(c.got)+n > c.lim {
		n = c.lim - len(c.got)
		c.got = append(c.got, p[:n]...)
		return n, errBroken
	}
	c.got = append(c.got, p[:n]...)
	return n, nil
}

func vuWord(u uint32) []int { return []int{int(u >> 16), int(u & 0xffff)} }

func vuWords(us []uint32) [][]int {
	r := [][]int{}
	for _, u := range us {
		r = append(r, vuWord(u))
	}
	return r
}

func litWords(ms []z.Lit) [][]int {
	r := [][]int{}
	for _, m := range ms {
		r = append(r, vuWord(uint32(m)))
	}
	return r
}

func vuNum(r *rng) uint32 {
	switch r.n(6) {
	case 0:
		return uint32(r.n(300))
	case 1: // near a power of 128
		return uint32(1<<uint(7*r.n(5))) + uint32(r.n(5)) - 2
	case 2:
		return 1<<uint(r.n(32)) + uint32(r.n(3)) - 1
	case 3:
		return 0xffffff00 + uint32(r.n(260)) - 2
	case 4:
		return 0xffffffff >> uint(r.n(32))
	}
	return uint32(r.u64()) >> uint(r.n(32))
}

func vuLit(r *rng) z.Lit {
	u := vuNum(r)
	for u < 2 || u >= 0xffffff00 {
		u = vuNum(r)
	}
	return z.Lit(u)
}

// vuBytes: numbers, literal lists, and what is no number
func vuBytes(r *rng, n int) (b []byte) {
	for ; n > 0; n-- {
		switch r.n(20) {
		case 0:
			b = append(b, []byte{0x80, 0x80, 0x80, 0x80, byte(r.n(256))}...)
		case 1: // longer than needed
			b = append(b, []byte{byte(r.n(256)) | 0x80, 0x80, 0}[r.n(2):]...)
		case 2:
			b = append(b, []byte{0xff, 0xff, 0xff, 0xff, 0xff}[r.n(5):]...)
		case 3:
			b = append(b, 0)
		default:
			b = putU(b, vuNum(r))
		}
	}
	return
}

type vuRun struct {
	idx uint64
	r   *rng
	ev  []cev
	sus string
	in  []byte
	lim int
}

func (x *vuRun) bad(c bool, s string) {
	if c && x.sus == "" {
		x.sus = s
	}
}

func (x *vuRun) read(e string, u uint32, err error, want []byte, k *int) bool {
	v, n := goDec(want[*k:])
	r := "ok"
	if err != nil {
		r = "err"
	}
	x.ev = append(x.ev, cev{"e": e, "r": r, "w": vuWord(u)})
	x.bad((n > 0 && !(e == "data" && v >= 0xffffff00)) != (err == nil) || err == nil && u != v, "number")
	*k += n
	return err == nil
}

// goDec: number and length, 0 if there is none
func goDec(b []byte) (uint32, int) {
	var u uint64
	for i := 0; i < len(b) && i < 5; i++ {
		u |= uint64(b[i]&127) << uint(7*i)
		if b[i] < 128 {
			if u > 0xffffffff {
				return 0, 0
			}
			return uint32(u), i + 1
		}
	}
	return 0, 0
}

func goRecv(b []byte) (ls []uint32, n int, ok bool) {
	for {
		u, k := goDec(b[n:])
		if k == 0 || u == 1 || u >= 0xffffff00 {
			return ls, n, false
		}
		n += k
		if u == 0 {
			return ls, n, true
		}
		ls = append(ls, u)
	}
}

func (x *vuRun) recv(ms []z.Lit, err error, k *int) bool {
	ls, n, ok := goRecv(x.in[*k:])
	r := "ok"
	if err != nil {
		r = "err"
	}
	x.ev = append(x.ev, cev{"e": "recv", "r": r, "ls": litWords(ms)})
	x.bad(ok != (err == nil) || ok && fmt.Sprint(litWords(ms)) != fmt.Sprint(vuWords(ls)), "literals")
	*k += n
	return err == nil
}

// io: one stream object, reading and writing mixed
func (x *vuRun) io() {
	r := x.r
	x.in = vuBytes(r, r.n(40))
	if r.p(10) {
		x.in = vuBytes(r, 300+r.n(400))
	}
	if r.p(30) && len(x.in) > 0 {
		x.in = x.in[:r.n(len(x.in))]
	}
	x.lim = -1
	if r.p(20) {
		x.lim = r.n(200)
		if r.p(30) {
			x.lim = r.n(3000)
		}
	}
	c := &choppy{r: r, in: x.in, mode: r.n(64), lim: x.lim}
	v := hookVu(c)
	k, seen := 0, 0
	total := 0
	reading := true
	errs := false
	flush := func() {
		err := v.Flush()
		errs = errs || err != nil
		x.ev = append(x.ev, cev{"e": "flush", "err": err != nil, "by": byteInts(c.got[seen:])})
		over := x.lim >= 0 && total > x.lim
		x.bad(over != errs, "write error")
		x.bad(!over && len(c.got) != total, "bytes lost")
		seen = len(c.got)
	}
	n := 10 + r.n(30)
	if r.p(10) {
		n = 500
	}
	for ; n > 0 && !errs; n-- {
		switch q := r.n(10); {
		case q < 3 && reading:
			u, err := v.Read()
			reading = x.read("read", u, err, x.in, &k)
		case q < 4 && reading:
			u, err := v.Data()
			reading = x.read("data", u, err, x.in, &k)
		case q < 5 && reading:
			ms, err := v.Recv(nil)
			reading = x.recv(ms, err, &k)
		case q < 8:
			u := vuNum(r)
			err := v.Write(u)
			errs = errs || err != nil
			x.ev = append(x.ev, cev{"e": "write", "w": vuWord(u), "err": err != nil})
			b := putU(nil, u)
			total += len(b)
			x.bad(err != nil && x.lim < 0, "error")
		case q < 9:
			ms := []z.Lit{}
			b := []byte{}
			for j := r.n(5); j > 0; j-- {
				ms = append(ms, vuLit(r))
				b = putU(b, uint32(ms[len(ms)-1]))
			}
			err := v.Send(ms)
			errs = errs || err != nil
			x.ev = append(x.ev, cev{"e": "send", "ls": litWords(ms), "err": err != nil})
			total += len(b) + 1
			x.bad(err != nil && x.lim < 0, "error")
		default:
			flush()
		}
	}
	for reading && r.p(95) {
		u, err := v.Read()
		reading = x.read("read", u, err, x.in, &k)
	}
	flush()
}

// net: a client and a server of the driver.  What the client reads arrives in
// chunks; what it writes is seen by the server.
func (x *vuRun) net() {
	r := x.r
	x.lim = -1
	a := fmt.Sprintf("zzvu%d-%d.sock", os.Getpid(), x.idx)
	os.Remove(a)
	l, err := net.Listen("unix", a)
	die(err)
	defer l.Close()
	cc := make(chan net.Conn, 1)
	go func() {
		c, _ := l.Accept()
		for _, b := range putU(nil, 'C', 'R', 'I', 'S', 'P', 1<<23) {
			c.Write([]byte{b})
		}
		cc <- c
	}()
	cl, err := crisp.Dial("@" + a)
	if err != nil {
		x.ev = append(x.ev, cev{"e": "panic", "msg": err.Error()})
		x.sus = "no connection"
		return
	}
	srv := <-cc
	defer cl.Close()
	chunks := func(b []byte) {
		for len(b) > 0 {
			n := len(b)
			if n < 64 {
				n = 1
			} else {
				n = 1 + r.n(400)
			}
			if n > len(b) {
				n = len(b)
			}
			srv.Write(b[:n])
			b = b[n:]
		}
	}
	got := func(n int) []byte { // what the client wrote, n bytes expected
		b := make([]byte, n+64)
		m := 0
		for m < n {
			srv.SetReadDeadline(time.Now().Add(3 * time.Second))
			j, err := srv.Read(b[m:])
			m += j
			if err != nil {
				break
			}
		}
		srv.SetReadDeadline(time.Now().Add(time.Millisecond))
		j, _ := srv.Read(b[m:])
		return b[:m+j]
	}
	wrote := func(us ...uint32) {
		for _, u := range us {
			x.ev = append(x.ev, cev{"e": "write", "w": vuWord(u), "err": false})
		}
	}
	flushed := func(want []byte) {
		b := got(len(want))
		x.ev = append(x.ev, cev{"e": "flush", "err": false, "by": byteInts(b)})
		x.bad(string(b) != string(want), "bytes")
	}
	k := 0
	switch r.n(3) {
	case 0: // assumptions
		n := r.n(8)
		if r.p(20) {
			n = 400
		}
		ms := []z.Lit{vuLit(r)}
		for ; n > 0; n-- {
			ms = append(ms, vuLit(r))
		}
		err := cl.Assume(ms...)
		wrote(pAssume)
		x.ev = append(x.ev, cev{"e": "send", "ls": litWords(ms), "err": err != nil})
		want := putU(nil, pAssume)
		for _, m := range ms {
			want = putU(want, uint32(m))
		}
		flushed(append(want, 0))
		fallthrough
	case 1: // clauses; the answer to a solve
		n := r.n(12)
		if r.p(20) {
			n = 800
		}
		want := []byte{}
		for i := 0; i < n; i++ {
			m := z.LitNull
			if r.p(80) {
				m = vuLit(r)
			}
			if i == 0 {
				wrote(pAdd)
				want = putU(want, pAdd)
			}
			err := cl.Add(m)
			x.ev = append(x.ev, cev{"e": "write", "w": vuWord(uint32(m)), "err": err != nil})
			want = putU(want, uint32(m))
		}
		if n > 0 {
			wrote(pEnd)
			want = putU(want, pEnd)
		}
		wrote(pSolve)
		want = putU(want, pSolve)
		x.in = putU(nil, pUnsat)
		srv.Write(x.in)
		v, err := cl.Solve()
		x.ev = append(x.ev, cev{"e": "read", "r": map[bool]string{true: "ok", false: "err"}[err == nil && v == -1], "w": vuWord(pUnsat)})
		x.bad(err != nil || v != -1, "verdict")
		k = len(x.in)
		flushed(want)
		// failed assumptions
		b := []byte{}
		for j := r.n(10); j > 0; j-- {
			b = putU(b, uint32(vuLit(r)))
		}
		switch r.n(3) {
		case 0:
			b = append(b, vuBytes(r, 2)...)
		case 1:
			b = append(b, 0)
		}
		x.in = append(x.in, b...)
		chunks(b)
		srv.(*net.UnixConn).CloseWrite()
		ms, err := cl.Why(nil)
		x.recv(ms, err, &k)
		wrote(pFailed)
		flushed(putU(nil, pFailed))
	case 2: // a model
		wrote(pSolve)
		x.in = putU(nil, pSat)
		srv.Write(x.in)
		v, err := cl.Solve()
		x.ev = append(x.ev, cev{"e": "read", "r": map[bool]string{true: "ok", false: "err"}[err == nil && v == 1], "w": vuWord(pSat)})
		x.bad(err != nil || v != 1, "verdict")
		flushed(putU(nil, pSolve))
		n := r.n(5)
		b := putU(nil, uint32(n))
		ws := []uint32{}
		for i := 0; i < n; i++ {
			ws = append(ws, vuNum(r))
			b = putU(b, ws[i])
		}
		cut := r.p(30) && len(b) > 1
		if cut {
			b = b[:r.n(len(b))]
		}
		k = len(x.in)
		x.in = append(x.in, b...)
		chunks(b)
		srv.(*net.UnixConn).CloseWrite()
		vs, err := cl.Model(nil)
		wrote(pModel)
		flushed(putU(nil, pModel))
		if err != nil { // somewhere
			x.bad(!cut, "model")
			for {
				v, j := goDec(x.in[k:])
				if j == 0 {
					x.ev = append(x.ev, cev{"e": "read", "r": "err", "w": vuWord(0)})
					break
				}
				if !cut {
					x.ev = append(x.ev, cev{"e": "read", "r": "err", "w": vuWord(0)})
					break
				}
				x.ev = append(x.ev, cev{"e": "read", "r": "ok", "w": vuWord(v)})
				k += j
			}
			return
		}
		x.read("data", uint32(len(vs)/32), nil, x.in, &k)
		for i := 0; i < len(vs)/32; i++ {
			u := uint32(0)
			for j := 0; j < 32 && i*32+j+1 < len(vs); j++ {
				if vs[i*32+j+1] {
					u |= 1 << uint(j)
				}
			}
			x.read("read", u, nil, x.in, &k)
		}
	}
}

func vuMain(args []string) {
	fs := flag.NewFlagSet("vu", flag.ExitOnError)
	kind := fs.String("kind", "io", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 1000, "")
	keep := fs.Int("keep", 100, "")
	base := fs.Uint64("base", 0, "")
	budget := fs.Duration("budget", 10*time.Second, "")
	out := fs.String("out", "", "")
	fs.Parse(args)
	if *kind == "io" && hookVu(&choppy{}) == nil {
		*n = 0
	}
	collect(*n, *keep, *budget, *out, func(idx uint64) (string, map[string]interface{}) {
		x := &vuRun{r: newRng(*seed, idx), idx: idx}
		fin := make(chan struct{})
		go func() {
			defer close(fin)
			defer func() {
				if p := recover(); p != nil {
					x.ev = append(x.ev, cev{"e": "panic", "msg": fmt.Sprint(p)})
					x.sus = "panic"
				}
			}()
			if *kind == "io" {
				x.io()
			} else {
				x.net()
			}
		}()
		select {
		case <-fin:
		case <-time.After(30 * time.Second):
			x = &vuRun{ev: []cev{{"e": "hang"}}, sus: "hang", lim: -1}
		}
		return x.sus, map[string]interface{}{"ev": x.ev, "in": byteInts(x.in), "lim": x.lim}
	}, *base)
}
