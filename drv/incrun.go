package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() {
	cmds["inc"] = incMain
	cmds["inc-worker"] = incWorker
	cmds["inc-replay"] = incReplay
	cmds["inc-crash"] = incCrash
}

type traceOut struct {
	Id  int     `json:"id"`
	NV  int     `json:"nv"`
	Big bool    `json:"big"`
	Wit [][]int `json:"wit"`
	Ev  []ev    `json:"ev"`
}

type recOut struct {
	Sus    string   `json:"sus,omitempty"`
	Script *script  `json:"script"`
	Trace  traceOut `json:"trace"`
	Conf   int      `json:"conf"`
	Solves int      `json:"solves"`
}

// generators by kind
var gens = map[string]func(seed, idx uint64, nv int) *script{}

func genAny(kind string, seed, idx uint64, nv int) *script {
	if f, ok := gens[kind]; ok {
		return f(seed, idx, nv)
	}
	return genInc(seed, idx, kind, nv)
}

// hang limit per script
const hangLimit = 60 * time.Second

// execScript runs a script in this process; with a journal it writes the
// trace so far before every operation, so that a dying process leaves it.
func execScript(sc *script, journal string) *recOut {
	x := newExec(sc)
	if journal != "" {
		x.jrnl = func(o op, i int) {
			b, _ := json.Marshal(map[string]interface{}{"op": o, "i": i, "ev": x.evs, "sus": x.sus})
			os.WriteFile(journal, b, 0644)
		}
	}
	done := make(chan struct{})
	limit := hangLimit
	if sc.Remote {
		limit /= 2
	}
	go func() {
		select {
		case <-done:
		case <-time.After(limit):
			fmt.Fprintf(os.Stderr, "HANG in script %d\n", sc.Id)
			os.Exit(97)
		}
	}()
	x.run()
	close(done)
	return x.rec()
}

func (x *xec) rec() *recOut {
	sc := x.sc
	return &recOut{Sus: x.sus, Script: sc, Conf: x.stats.Conf, Solves: x.stats.Solves,
		Trace: traceOut{Id: sc.Id, NV: sc.NV, Big: sc.Big, Wit: sc.Wit, Ev: x.evs}}
}

// inc -kind K -seed S -n N -keep M -out FILE [-nv V]
// runs N generated scripts in worker processes, writes the suspicious ones and
// a sample of M of the others.
func incMain(args []string) {
	fs := flag.NewFlagSet("inc", flag.ExitOnError)
	kind := fs.String("kind", "core", "")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 1000, "")
	keep := fs.Int("keep", 100, "")
	nv := fs.Int("nv", 0, "")
	out := fs.String("out", "", "")
	procs := fs.Int("procs", runtime.NumCPU(), "")
	budget := fs.Duration("budget", 60*time.Second, "")
	base := fs.Int("base", 0, "")
	fs.Parse(args)
	dir, err := os.MkdirTemp("", "zzv")
	die(err)
	defer os.RemoveAll(dir)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var sus, all []*recOut
	execd, solves, conf := 0, 0, 0
	deadline := time.Now().Add(*budget)
	per := (*n + *procs - 1) / *procs
	for p := 0; p < *procs; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			lo, hi := *base+p*per, *base+(p+1)*per
			if hi > *base+*n {
				hi = *base + *n
			}
			nsus := 0
			for lo < hi && time.Now().Before(deadline) && nsus < 20 {
				of := filepath.Join(dir, fmt.Sprintf("o%d", p))
				left := time.Until(deadline)
				cmd := exec.Command(os.Args[0], "inc-worker", *kind, fmt.Sprint(*seed), fmt.Sprint(lo), fmt.Sprint(hi),
					fmt.Sprint((*keep+*procs-1) / *procs), fmt.Sprint(*nv), of, left.String())
				var eb strings.Builder
				cmd.Stderr = &eb
				err := cmd.Run()
				recs, st := readWorker(of)
				mu.Lock()
				execd += st["n"]
				solves += st["solves"]
				conf += st["conf"]
				for _, r := range recs {
					if r.Sus != "" {
						sus = append(sus, r)
						nsus++
					} else {
						all = append(all, r)
					}
				}
				mu.Unlock()
				if err == nil {
					break
				}
				if os.Getenv("ZZDEBUG") != "" {
					fmt.Fprintln(os.Stderr, tail(eb.String()))
				}
				// the process died: find out where, in journal mode
				b, _ := os.ReadFile(of + ".cur")
				cur, e2 := strconv.Atoi(strings.TrimSpace(string(b)))
				if e2 != nil {
					die(fmt.Errorf("worker died without progress: %v %s", err, tail(eb.String())))
				}
				r := crashRun(genAny(*kind, uint64(*seed), uint64(cur), *nv), filepath.Join(dir, fmt.Sprintf("j%d", p)))
				mu.Lock()
				if r != nil {
					sus = append(sus, r)
					nsus++
				}
				mu.Unlock()
				if r != nil && strings.HasPrefix(r.Sus, "hang") {
					break // each takes long
				}
				lo = cur + 1
			}
		}(p)
	}
	wg.Wait()
	sort.Slice(sus, func(i, j int) bool { return len(sus[i].Trace.Ev) < len(sus[j].Trace.Ev) })
	sus = pickSus(sus)
	f, err := os.Create(*out)
	die(err)
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(w)
	for _, r := range append(sus, all...) {
		die(enc.Encode(r))
	}
	die(w.Flush())
	die(f.Close())
	st := map[string]int{"executed": execd, "solves": solves, "conflicts": conf, "suspicious": len(sus), "kept": len(sus) + len(all)}
	b, _ := json.Marshal(st)
	fmt.Println(string(b))
}

// pickSus keeps the shortest few of every kind of suspicion.
func pickSus(rs []*recOut) []*recOut {
	n := map[string]int{}
	var out []*recOut
	for _, r := range rs {
		k := strings.Map(func(c rune) rune {
			if c >= '0' && c <= '9' || c == '-' || c == ' ' {
				return -1
			}
			return c
		}, r.Sus)
		if len(k) > 24 {
			k = k[:24]
		}
		if n[k]++; n[k] <= 8 && len(out) < 80 {
			out = append(out, r)
		}
	}
	return out
}

func tail(s string) string {
	if len(s) > 2000 {
		return s[len(s)-2000:]
	}
	return s
}

// crashRun re-executes a script that killed or hung its process, in a child
// with a journal, and returns the trace with the crash as its last event.
func crashRun(sc *script, base string) *recOut {
	sf, jf := base+".script", base+".jrnl"
	b, _ := json.Marshal(sc)
	die(os.WriteFile(sf, b, 0644))
	os.Remove(jf)
	cmd := exec.Command(os.Args[0], "inc-replay", sf, base+".out", jf)
	var eb strings.Builder
	cmd.Stderr = &eb
	err := cmd.Run()
	if err == nil {
		// did not die again: hand over the ordinary trace
		r := &recOut{}
		rb, e := os.ReadFile(base + ".out")
		if e != nil || json.Unmarshal(rb, r) != nil {
			return nil
		}
		r.fix()
		return r
	}
	jb, e := os.ReadFile(jf)
	if e != nil {
		return nil
	}
	var j struct {
		Op op
		I  int
		Ev []ev
	}
	if json.Unmarshal(jb, &j) != nil {
		return nil
	}
	what := "crash"
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 97 {
		what = "hang"
	}
	j.Ev = append(j.Ev, ev{"e": what, "s": j.Op.S, "op": j.Op.O, "msg": tail(eb.String())})
	return &recOut{Sus: what + " in " + j.Op.O, Script: sc, Trace: traceOut{Id: sc.Id, NV: sc.NV, Big: sc.Big, Wit: sc.Wit, Ev: j.Ev}}
}

func (r *recOut) fix() {}

func readWorker(f string) ([]*recOut, map[string]int) {
	st := map[string]int{}
	var rs []*recOut
	fh, err := os.Open(f)
	if err != nil {
		return nil, st
	}
	defer fh.Close()
	d := json.NewDecoder(bufio.NewReader(fh))
	for {
		var raw json.RawMessage
		if d.Decode(&raw) != nil {
			break
		}
		if len(raw) > 0 && raw[0] == '{' && strings.HasPrefix(string(raw), `{"stat"`) {
			var s struct{ Stat map[string]int }
			json.Unmarshal(raw, &s)
			for k, v := range s.Stat {
				st[k] += v
			}
			continue
		}
		r := &recOut{}
		if json.Unmarshal(raw, r) == nil {
			rs = append(rs, r)
		}
	}
	return rs, st
}

// inc-worker KIND SEED LO HI KEEP NV OUT BUDGET
func incWorker(a []string) {
	kind := a[0]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	lo, _ := strconv.Atoi(a[2])
	hi, _ := strconv.Atoi(a[3])
	keep, _ := strconv.Atoi(a[4])
	nv, _ := strconv.Atoi(a[5])
	out := a[6]
	budget, _ := time.ParseDuration(a[7])
	deadline := time.Now().Add(budget)
	f, err := os.Create(out)
	die(err)
	enc := json.NewEncoder(f)
	cf, err := os.Create(out + ".cur")
	die(err)
	stat := map[string]int{}
	flush := func() {
		enc.Encode(map[string]interface{}{"stat": stat})
		stat = map[string]int{}
	}
	nsus := 0
	kept := 0
	for i := lo; i < hi && time.Now().Before(deadline) && nsus < 20; i++ {
		cf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		sc := genAny(kind, seed, uint64(i), nv)
		r := execScript(sc, "")
		stat["n"]++
		stat["solves"] += r.Solves
		stat["conf"] += r.Conf
		if stat["n"] >= 64 {
			flush()
		}
		if r.Sus != "" {
			nsus++
			enc.Encode(r)
			continue
		}
		// sample: the first ones, then the ones with many conflicts
		if kept < keep && (r.Conf > 0 || !hooksOn || i%3 == 0 || strings.HasSuffix(kind, "plan")) {
			kept++
			enc.Encode(r)
		}
	}
	flush()
	f.Close()
}

// inc-replay SCRIPT OUT [JOURNAL]
func incReplay(a []string) {
	b, err := os.ReadFile(a[0])
	die(err)
	sc := &script{}
	die(json.Unmarshal(b, sc))
	j := ""
	if len(a) > 2 {
		j = a[2]
	}
	r := execScript(sc, j)
	o, err := json.Marshal(r)
	die(err)
	die(os.WriteFile(a[1], o, 0644))
}

// inc-crash SCRIPT OUT: executes a script in a child process and writes the
// record, also if the child dies.
func incCrash(a []string) {
	b, err := os.ReadFile(a[0])
	die(err)
	sc := &script{}
	die(json.Unmarshal(b, sc))
	r := crashRun(sc, a[1]+".w")
	if r == nil {
		die(fmt.Errorf("no record"))
	}
	o, err := json.Marshal(r)
	die(err)
	die(os.WriteFile(a[1], o, 0644))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "zzverif:", err)
		os.Exit(3)
	}
}
