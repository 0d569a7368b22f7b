------------------------------ MODULE IncTrace ------------------------------
(***************************************************************************)
(* Trace validation for the incremental solver: every line of TraceFile is *)
(* a recorded execution; it is replayed against the actions of IncSat, and *)
(* every answer the real solver gave is judged by the operators of IncSat. *)
(* A rejected trace is reported with the aspects that failed.  States are  *)
(* <<trace, position, solvers>>; one state per recorded event.             *)
(***************************************************************************)
EXTENDS Crisp, Conn, Json, TLC

CONSTANTS TraceFile,   \* ndjson, one trace per line
          Aspects      \* which aspects are enforced

Traces == ndJsonDeserialize(TraceFile)
SW == [n \in 1..9 |-> SmallWorld(n)]

D == INSTANCE Dimacs

VARIABLES t, i, st
vars == <<t, i, st>>

World == IF Traces[t].big THEN WitWorld(Traces[t].nv, Traces[t].wit)
         ELSE SW[Traces[t].nv]

Has(e, f) == f \in DOMAIN e

(* aspects: failed parts of an answer, by name *)
If(c, name) == IF c THEN {} ELSE {name}

Answer(w, p, A, e, unk) ==
  If(VerdictOk(w, p, A, e.r, unk), "verdict")
  \union (IF e.r = 1 THEN If(ModelOk(w, p, A, e.pos, e.neg, Range(e.at)), "model") ELSE {})
  \union (IF e.r = -1 /\ e.hw
          THEN If(e.prefix /\ e.kept, "whydst") \union If(WhyOk(w, p, A, Range(e.why)), "why") ELSE {})

(* a written file f over raw variables; vm: raw variable -> literal of the  *)
(* specification, 0 for variables it does not speak about                  *)
RECURSIVE Split0(_, _, _, _)
Split0(ls, k, c, acc) ==
  IF k > Len(ls) THEN acc
  ELSE IF ls[k] = 0 THEN Split0(ls, k + 1, {}, Append(acc, c))
  ELSE Split0(ls, k + 1, c \union {ls[k]}, acc)
OtherBase == 100000
Mapped(vm, x) ==
  LET v == Abs(x)
      m == IF v \in DOMAIN vm /\ vm[v] # 0 THEN vm[v] ELSE OtherBase + v
  IN IF x < 0 THEN -m ELSE m
IsOther(l) == Abs(l) > OtherBase
RECURSIVE DropPure(_)
DropPure(cls) ==
  LET os == UNION {{l \in c : IsOther(l)} : c \in cls}
      pure == {l \in os : -l \notin os}
  IN IF pure = {} THEN cls ELSE DropPure({c \in cls : c \intersect pure = {}})
RECURSIVE Meet(_, _, _)
Meet(w, cls, acc) ==     \* the assignments of acc that satisfy the base literals of every clause
  IF cls = {} \/ acc = {} THEN acc
  ELSE LET c == CHOOSE c \in cls : TRUE
       IN Meet(w, cls \ {c}, acc \intersect ClauseMods(w, {l \in c : ~IsOther(l)}))
FileMods(w, cls, T) ==   \* assignments that can be extended to a model of cls, with exactly T activated
  LET os == {Abs(l) : l \in UNION {{l \in c : IsOther(l)} : c \in cls}}
      holds(c, O) == \E l \in c : IsAct(l) /\ (Abs(l) \in T \union O) = (l > 0)
  IN UNION {Meet(w, {c \in cls : ~holds(c, O)}, w.all) : O \in SUBSET os}
WriteOk(w, p, e) ==
  LET f == D!Cnf(e.by, FALSE)
      raw == Split0(f.lits, 1, {}, <<>>)
      cls == {{Mapped(e.vm, x) : x \in raw[k]} : k \in DOMAIN raw}
      rest == DropPure(cls)
      acts == DOMAIN p.grp
      Ts == IF Cardinality(acts) <= 3 THEN SUBSET acts ELSE {{}, acts} \union {{m} : m \in acts}
      others == {Abs(l) : l \in UNION {{l \in c : IsOther(l)} : c \in rest}}
  IN /\ e.ok /\ f.st = D!Ok /\ f.hdr /\ f.nc = Len(raw)
     /\ \A k \in DOMAIN f.lits : Abs(f.lits[k]) <= f.nv
     /\ Cardinality(others) <= 4 =>
          \A T \in Ts : FileMods(w, rest, T) = {a \in p.mods : \A m \in T : a \in p.grp[m]}
LoadNext(p) == [p EXCEPT !.part = {}, !.pend = {}, !.sco = <<>>, !.last = 2, !.lastA = {}, !.lastM = -1]

Model(w, e) == IF e.r = 1 THEN e.pos ELSE -1
WithWhy(p, e) == IF e.r = -1 /\ e.hw THEN [p EXCEPT !.lastW = <<Range(e.why)>>] ELSE p
Seen(p, ls) == [p EXCEPT !.mv = MaxLit(ls, 1, @)]

MForOk(w, p, e) ==
  LET val(l) == IF Abs(l) \notin 1..w.n THEN l < 0 ELSE (p.lastM[Abs(l)] = 1) = (l > 0)
  IN IF w.complete THEN ForOk(w, p, e.l, Range(e.bits))
     ELSE /\ \A b \in Range(e.bits) : b \in 1..Len(e.l)
          /\ p.last = 1 => \A j \in DOMAIN e.l : val(e.l[j]) = (j \in Range(e.bits))

(* <<failed aspects, next solver record>> for an event of one solver *)
Step(w, p, e) ==
  CASE e.e = "part" -> <<{}, PartNext(Seen(p, e.c), Range(e.c))>>
    [] e.e = "add" -> <<{}, AddNext(w, Seen(p, e.c), Range(e.c))>>
    [] e.e = "ass" -> <<If(e.kept, "args"), AssumeNext(Seen(p, e.l), Range(e.l))>>
    [] e.e \in {"solve", "go"} ->
         <<Answer(w, p, InForce(p), e, FALSE), WithWhy(SolveNext(p, e.r, Model(w, e)), e)>>
    [] e.e = "try" ->
         <<Answer(w, p, InForce(p), e, e.exp) \union If(~e.late, "late"),
           WithWhy(SolveNext(p, e.r, Model(w, e)), e)>>
    [] e.e = "gos" -> <<If(p.conn = "none", "driver"), [p EXCEPT !.conn = "run"]>>
    [] e.e = "ctl" ->
         LET c == If(ConnOk(p.conn, e), "conn")
             q == [p EXCEPT !.conn = ConnNext(@, e)]
         IN IF e.fin THEN <<c \union Answer(w, p, InForce(p), e, ConnUnknown(e)), WithWhy(SolveNext(q, e.r, Model(w, e)), e)>>
            ELSE <<c, q>>
    [] e.e = "val" -> <<If(e.pos = p.lastM, "reread")
                        \union If(ModelOk(w, p, p.lastA, e.pos, e.neg, Range(e.at)), "model"), p>>
    [] e.e = "why" -> <<If(e.prefix /\ e.kept, "whydst") \union If(WhyOk(w, p, p.lastA, Range(e.why)), "why"), [p EXCEPT !.lastW = <<Range(e.why)>>]>>
    [] e.e = "test" ->
         LET A == InForce(p)
             ns == Range(e.ns)
         IN <<Answer(w, p, A, e, TRUE)
              \union If(e.nkept, "testlits")        \* and earlier lists stay what they were
              \union (IF e.r = -1 THEN {}
                      ELSE If(TestBcpOk(p, A), "testbcp")
                           \union (IF e.hn THEN If(TestLitsOk(w, p, A, Scoped(p), ns), "testlits")
                                   ELSE If(ns = {}, "testlits"))),
              TestNext(p, e.r, Model(w, e))>>
    [] e.e = "untest" -> <<If(UntestOk(w, p, e.r), "untest"), UntestNext(p, e.r)>>
    [] e.e = "rsn" ->
         <<If(ReasonsTrue(w, p, e.rs) /\ e.kept, "rsntrue") \union If(ReasonsSuffice(w, p, e.rs), "rsnsuffice")
           \union If(ReasonsAcyclic(e.rs), "rsncycle"), p>>
    [] e.e = "actl" ->
         <<If(e.clash = 0 /\ e.pos /\ ActLitOk(p, e.m), "actlit"), ActLitNext(w, p, e.m)>>
    [] e.e = "act" ->
         <<If(e.clash = 0 /\ e.pos /\ ActLitOk(p, e.m), "actlit"),
           ActWithNext(w, ActLitNext(w, p, e.m), e.m, Range(e.c))>>
    [] e.e = "actw" -> <<If(ActWithOk(p, e.m), "actlit"), ActWithNext(w, p, e.m, Range(e.c))>>
    [] e.e = "actpanic" -> <<If(e.empty /\ ActRefuseOk(w, p, Range(e.c)), "actrefuse"), p>>
    [] e.e = "deact" -> <<If(DeactOk(p, e.m), "driver"), DeactNext(p, e.m)>>
    [] e.e = "lit" -> <<If(e.pos /\ e.used = 0 /\ e.raw <= e.max, "lit"), p>>
    [] e.e = "inner" -> <<If(e.pos /\ e.v > 0 /\ e.v \notin Range(e.live), "inner"), p>>
    [] e.e = "finner" -> <<{}, p>>
    [] e.e = "rq" ->         \* a request of the protocol; bit sets come as sequences
         LET f == IF "bits" \in DOMAIN e THEN [e EXCEPT !.bits = Range(@)] ELSE e
         IN <<If(RqOk(w, p, f), "proto"), IF RqOk(w, p, f) THEN RqNext(w, p, f) ELSE p>>
    [] e.e = "ext" -> <<If(e.n = 0, "answer"), p>>
    [] e.e = "gone" -> <<{}, p>>
    [] e.e = "mx" -> <<If(e.v = p.mv, "maxvar"), p>>
    [] e.e = "reset" -> <<{}, New(w)>>
    [] e.e = "mfor" -> <<If(MForOk(w, p, e), "model"), p>>
    [] e.e = "wsel" -> <<If(FailedForOk(w, p, e.l, e.ls), "why"), p>>
    [] e.e = "refuse" -> <<If(e.err, "refuse"), p>>
    [] e.e = "quiet" -> <<If(e.ok, "leak"), p>>
    [] e.e = "state" ->
         <<If(\A k \in DOMAIN e.learnt : LearntOk(w, p, Range(e.learnt[k])), "learnt")
           \union If(\A k \in DOMAIN e.fixed : LearntOk(w, p, {e.fixed[k]}), "fixed")
           \union If(\A k \in DOMAIN e.rsn : LearntOk(w, p, Range(e.rsn[k])), "reason")
           \union If(GivenKept(w, p, {Range(e.added[k]) : k \in DOMAIN e.added}), "given"), p>>
    [] e.e = "write" -> <<If(WriteOk(w, p, e), "write"), p>>
    [] e.e = "wfail" -> <<If(e.full # e.err, "writeerr"), p>>
    [] e.e \in {"panic", "crash", "hang"} -> <<{"live"}, p>>
    [] OTHER -> <<{"driver"}, p>>

Init == t \in 1..Len(Traces) /\ i = 1 /\ st = (0 :> New(World))

Next ==
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[i]
         w == World
     IN  IF e.e = "copy"
         THEN st' = (e.t :> st[e.s]) @@ st /\ i' = i + 1
         ELSE IF e.e = "load"
         THEN IF e.ok \/ "write" \notin Aspects
              THEN st' = (e.t :> LoadNext(st[e.s])) @@ st /\ i' = i + 1
              ELSE PrintT(<<"REJECT", Traces[t].id, i, {"write"}>>) /\ i' = -i /\ st' = st
         ELSE IF e.e = "dial"        \* a new connection; s may have been used before
         THEN IF e.ok
              THEN st' = (e.s :> New(w)) @@ st /\ i' = i + 1
              ELSE PrintT(<<"REJECT", Traces[t].id, i, {"live"}>>) /\ i' = -i /\ st' = st
         ELSE LET s == Step(w, st[e.s], e)
                  bad == s[1] \intersect (Aspects \union {"live", "driver"})
              IN  IF bad = {}
                  THEN st' = [st EXCEPT ![e.s] = s[2]] /\ i' = i + 1
                  ELSE PrintT(<<"REJECT", Traces[t].id, i, bad>>) /\ i' = -i /\ st' = st
  /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================
