--------------------------------- MODULE Bench ---------------------------------
(***************************************************************************)
(* Benchmark suites and runs (package bench) as directories: what is on    *)
(* disk, what handles to opened suites know, and what each call may        *)
(* answer and change.                                                      *)
(*                                                                         *)
(* disk   root -> [st, fs, paths, link, runs : name -> [rec, irs]]         *)
(* hs     handle -> [root, runs : name -> [rec, irs]]                      *)
(* files  the files suites are made of: [dir, name, kx, hash, word, code,  *)
(*        ms], kx the parts of the name after dots, code and ms            *)
(*        what the solver does when given this file                        *)
(* irs    per instance what is known of its execution                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Slack == 3000         \* ms
Known == {"cnf", "icnf", "bz2", "gz", "inccnf"}
Range(s) == {s[k] : k \in DOMAIN s}
NoIr(k) == [i |-> k - 1, res |-> 0, err |-> "", dur |-> "0", udur |-> "0", sdur |-> "0", dus |-> 0, uus |-> 0, sus |-> 0]
NoIrs(n) == [k \in 1..n |-> NoIr(k)]
Under(p, root) == Len(p) > Len(root) /\ SubSeq(p, 1, Len(root)) = root
AtOrUnder(p, root) == p = root \/ Under(p, root)
NoChange(e) == e.add = <<>> /\ e.del = <<>> /\ e.mod = <<>>
OnlyAdds(e, root) == e.del = <<>> /\ e.mod = <<>> /\ \A k \in DOMAIN e.add : AtOrUnder(e.add[k], root)
Names(e, want) == Len(e) = Cardinality(want) /\ Range(e) = want
GoodName(nm) == Len(nm) = 1 /\ nm[1] \notin {"", ".", ".."}
RunDir(root, name) == root \o <<"runs", name>>

(* ------------------------------------------------------- suites *)
RECURSIVE Filter(_)
Filter(s) == IF s = <<>> THEN <<>>
             ELSE (IF s[1] \in Known THEN <<s[1]>> ELSE <<>>) \o Filter(Tail(s))
InstsOk(files, d, is) ==
  /\ Len(is) = Len(d.fs)
  /\ \A k \in DOMAIN is : /\ is[k].hash = files[d.fs[k]].hash
                          /\ Filter(is[k].kx) = Filter(files[d.fs[k]].kx)
                          /\ is[k].link = d.link
SuiteOk(files, d, so) ==
  /\ so.map = d.paths
  /\ Len(so.hashes) = Len(d.fs) /\ \A k \in DOMAIN so.hashes : so.hashes[k] = files[d.fs[k]].hash
  /\ InstsOk(files, d, so.insts)
RunOk(r, ro) ==
  /\ ro.rec = r.rec /\ ro.own
  /\ ro.irs = r.irs
RunsOk(runs, ros) ==
  /\ Names([k \in DOMAIN ros |-> ros[k].name], DOMAIN runs)
  /\ \A k \in DOMAIN ros : RunOk(runs[ros[k].name], ros[k])

(* ------------------------------------------------- executions of an instance *)
(* e.t0..e.t1: when the call was made and returned, in ms; r: the run; f: the file *)
Limit(e, r) == LET left == r.rec.to - (e.t0 - r.rec.t) IN IF left < r.rec.ito THEN left ELSE r.rec.ito
Codes(c) == CASE c = 10 -> 1 [] c = 20 -> -1 [] OTHER -> 0
Finished(e, f) == /\ e.ir.res = Codes(f.code) /\ ((f.code = 0) <=> (e.ir.err = ""))
                  /\ e.out = <<f.word>> \o e.args /\ e.outerr = <<f.word>>
Starts(s, p) == Len(p) <= Len(s) /\ p = SubSeq(s, 1, Len(p))
(* it ended by itself as the limit came: what it wrote may not have been read to the end *)
Cut(e, f) == /\ e.ir.res = Codes(f.code) /\ ((f.code = 0) <=> (e.ir.err = ""))
             /\ Starts(<<f.word>> \o e.args, e.out) /\ Starts(<<f.word>>, e.outerr)
Killed(e, lim) == /\ e.ir.res = 0 /\ e.ir.err # "" /\ (lim <= 0 \/ e.ir.dus >= 1000 * (lim - 50))
DurOk(e) == e.ir.dus >= 0 /\ e.ir.dus <= 1000 * (e.t1 - e.t0 + 2)
                /\ e.ir.uus >= 0 /\ e.ir.sus >= 0
IrOk(e, r, f) ==
  LET lim == Limit(e, r)
  IN /\ DurOk(e)
     /\ IF e.prog = "missing" THEN e.ir.res = 0 /\ e.ir.err # ""
        ELSE IF f.ms + 2 * Slack < lim THEN Finished(e, f) /\ e.ir.dus >= 1000 * (f.ms - 2)
        ELSE IF f.ms > lim + Slack THEN Killed(e, lim)
        ELSE Cut(e, f) \/ Killed(e, lim)
InTime(e, r, f) == e.prog = "missing" \/ e.t1 - e.t0 <= (IF Limit(e, r) < 0 THEN 0 ELSE Limit(e, r)) + Slack

(* --------------------------------------------------------- comparing *)
RECURSIVE Sum(_, _)
Sum(irs, f) == IF irs = <<>> THEN 0 ELSE Head(irs)[f] + Sum(Tail(irs), f)
Count(irs, P(_)) == Cardinality({k \in DOMAIN irs : P(irs[k].res)})
Solved(irs) == Count(irs, LAMBDA r : r # 0)
SatN(irs) == Count(irs, LAMBDA r : r = 1)
UnsatN(irs) == Count(irs, LAMBDA r : r = -1)
UnknownN(irs) == Count(irs, LAMBDA r : r = 0)
Near(a, b, d) == a - b <= d /\ b - a <= d
RateOk(rate, n, us) ==      \* rate in 1/1000 per second; -1 where it is not a number or too large
  us < 20000 \/ us > 60000000 \/ Near(rate * (us \div 1000), n * 1000000, (us \div 1000) + rate + 2)
StatsOk(e, irs) ==
  /\ e.solved = Solved(irs) /\ e.sat = SatN(irs) /\ e.unsat = UnsatN(irs) /\ e.unknown = UnknownN(irs)
  /\ irs = <<>> \/ Near(e.portion * Len(irs), 1000 * Solved(irs), Len(irs))
  /\ Near(e.real, Sum(irs, "dus"), Len(irs) + 2) /\ Near(e.user, Sum(irs, "uus"), Len(irs) + 2)
  /\ Near(e.sys, Sum(irs, "sus"), Len(irs) + 2)
  /\ RateOk(e.rreal, Solved(irs), Sum(irs, "dus")) /\ RateOk(e.ruser, Solved(irs), Sum(irs, "uus"))
  /\ RateOk(e.rsys, Solved(irs), Sum(irs, "sus"))
SummaryOk(e, runs) ==
  /\ Names([k \in DOMAIN e.rows |-> e.rows[k].name], DOMAIN runs)
  /\ \A k \in DOMAIN e.rows :
       LET w == e.rows[k]   irs == runs[w.name].irs
       IN /\ w.n = <<Solved(irs), SatN(irs), UnsatN(irs), UnknownN(irs)>>
          /\ Near(w.t[1], Sum(irs, "dus") \div 10000, 1) /\ Near(w.t[2], Sum(irs, "uus") \div 10000, 1)
          /\ Near(w.t[3], Sum(irs, "sus") \div 10000, 1)
Letter(r) == CASE r = 1 -> "s" [] r = -1 -> "u" [] OTHER -> "?"
ListingOk(e, runs, n) ==
  /\ Names(e.head, {x \in DOMAIN runs : x \in Range(e.keep)})
  /\ \A k \in DOMAIN e.cols :
       /\ Len(e.cols[k]) = n
       /\ \A j \in 1..n : LET ir == runs[e.head[k]].irs[j]
                          IN e.cols[k][j].l = Letter(ir.res) /\ Near(e.cols[k][j].t, ir.dus \div 10000, 1)
(* instances shown: all, or those some run found sat (unsat) *)
Shown(runs, n, filt) == {j \in 1..n : filt = 0 \/ \E x \in DOMAIN runs : runs[x].irs[j].res = filt}
RECURSIVE Ordered(_, _, _)
Ordered(runs, n, S) ==      \* S in ascending order
  IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o Ordered(runs, n, S \ {m})
MaxDur(runs, sel, S) ==
  LET D == {0} \union {runs[x].irs[j].dus : x \in sel, j \in S} IN CHOOSE d \in D : \A c \in D : c <= d
CactusOk(e, runs, n) ==
  LET sel == {x \in DOMAIN runs : x \in Range(e.keep)}
      S == Shown(runs, n, e.filt)
  IN /\ Names(e.head, sel) /\ Len(e.d) = Len(e.head)
     /\ e.max = MaxDur(runs, sel, S)
     /\ \A k \in DOMAIN e.d :
          /\ Names(e.d[k], {j - 1 : j \in S})
          /\ \A a \in 1..(Len(e.d[k]) - 1) :
               runs[e.head[k]].irs[e.d[k][a] + 1].dus <= runs[e.head[k]].irs[e.d[k][a + 1] + 1].dus
ScatterOk(e, runs, n) ==
  LET q == Ordered(runs, n, Shown(runs, n, e.filt))
  IN /\ e.xs = [k \in DOMAIN q |-> runs[e.a].irs[q[k]].dus]
     /\ e.ys = [k \in DOMAIN q |-> runs[e.b].irs[q[k]].dus]

(* --------------------------------------------------------- selecting files *)
RECURSIVE Glob(_, _)
Glob(p, s) ==      \* sequences of characters
  IF p = <<>> THEN s = <<>>
  ELSE IF p[1] = "*" THEN Glob(Tail(p), s) \/ (s # <<>> /\ Glob(p, Tail(s)))
  ELSE s # <<>> /\ p[1] \in {"?", s[1]} /\ Glob(Tail(p), Tail(s))
Times(files, dirs, pat, f) ==      \* how often file f is there to choose
  IF pat # <<>> /\ ~Glob(pat, files[f].chars) THEN 0
  ELSE Cardinality({k \in DOMAIN dirs : AtOrUnder(files[f].path, dirs[k])})
RECURSIVE Total(_, _, _, _)
Total(files, dirs, pat, k) == IF k = 0 THEN 0 ELSE Times(files, dirs, pat, k) + Total(files, dirs, pat, k - 1)
SelOk(files, e) ==
  LET tot == Total(files, e.dirs, e.pat, Len(files))
  IN /\ Len(e.got) = (IF e.n < tot THEN e.n ELSE tot)
     /\ \A k \in DOMAIN e.got : e.got[k] > 0
     /\ \A f \in DOMAIN files : Cardinality({k \in DOMAIN e.got : e.got[k] = f}) <= Times(files, e.dirs, e.pat, f)
=============================================================================
