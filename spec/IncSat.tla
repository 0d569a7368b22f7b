------------------------------- MODULE IncSat -------------------------------
(***************************************************************************)
(* The abstract incremental solver: what a user of gini's solver may       *)
(* observe.  One solver is a record; an operation with its observed answer *)
(* is a pair of an enabling condition (is the answer allowed here) and a   *)
(* next record.  The same operators are used                               *)
(*                                                                         *)
(*   - by IncMC, which explores every history over a small instance,        *)
(*   - by IncTrace, which checks recorded executions of the real solver,   *)
(*   - by Cdcl, a design of the search whose answers they judge.           *)
(*                                                                         *)
(* Literals are non-zero integers.  Base variables are 1..n; activation    *)
(* literals are numbered from ActBase+1 and never reused here, although    *)
(* the real solver recycles variables: a recycled literal has to behave    *)
(* like a new one.                                                         *)
(*                                                                         *)
(* A world w fixes the assignments considered:                             *)
(*   w.all         the assignments (bit masks 0..2^n-1, or, for a problem  *)
(*                 too large to enumerate, the indices of some known       *)
(*                 assignments, "witnesses")                               *)
(*   w.sat[l]      those satisfying base literal l                         *)
(*   w.complete    whether w.all is all assignments                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ActBase == 1000
IsAct(l) == l > ActBase \/ l < -ActBase
Abs(l) == IF l < 0 THEN -l ELSE l
Range(s) == {s[i] : i \in DOMAIN s}

Pow2[k \in Nat] == IF k = 0 THEN 1 ELSE 2 * Pow2[k - 1]
BitSet(a, v) == (a \div Pow2[v - 1]) % 2 = 1
BaseLits(n) == (1..n) \union {-v : v \in 1..n}

SmallWorld(n) ==
  [complete |-> TRUE,
   n |-> n,
   all |-> 0..(Pow2[n] - 1),
   sat |-> [l \in BaseLits(n) |->
              {a \in 0..(Pow2[n] - 1) : BitSet(a, Abs(l)) = (l > 0)}]]

WitWorld(n, wit) ==
  [complete |-> FALSE,
   n |-> n,
   all |-> DOMAIN wit,
   sat |-> [l \in BaseLits(n) |->
              {k \in DOMAIN wit : (wit[k][Abs(l)] = 1) = (l > 0)}]]

(***************************************************************************)
(* The solver record                                                       *)
(*   cls    the clauses in force, as sets of literals; an activated clause *)
(*          contains the negation of its activation literal                *)
(*   mods   assignments satisfying the clauses without activation literal  *)
(*   grp    alive activation literal -> assignments satisfying its clauses *)
(*   part   literals added since the last end of clause                    *)
(*   pend   assumptions for the next solve or test                         *)
(*   sco    tested assumptions, one set per open scope                     *)
(*   conn   the connection to an asynchronous solve: none, run, paused     *)
(*   ph, mv, lastW   for solvers reached over a network, see Crisp         *)
(*   last   last answer (2: none), lastA the assumptions it was for,       *)
(*          lastM the model observed for it                                *)
(***************************************************************************)
New(w) == [cls |-> {}, mods |-> w.all, grp |-> <<>>, part |-> {}, pend |-> {},
           sco |-> <<>>, last |-> 2, lastA |-> {}, lastM |-> -1, conn |-> "none",
           ph |-> "idle", mv |-> 0, lastW |-> <<>>]

ClauseMods(w, c) == UNION {w.sat[l] : l \in {m \in c : ~IsAct(m)}}
Scoped(p) == UNION Range(p.sco)
InForce(p) == Scoped(p) \union p.pend

ModsUnder(w, p, L) ==
  {a \in p.mods : \A l \in L :
     IF IsAct(l) THEN (l > 0 /\ l \in DOMAIN p.grp) => a \in p.grp[l]
     ELSE a \in w.sat[l]}

Clash(L) == \E l \in L : -l \in L

(* inconsistent, as far as the world can tell *)
Incons(w, p, L) == Clash(L) \/ ModsUnder(w, p, L) = {}
(* certainly inconsistent / certainly consistent *)
MayUnsat(w, p, L) == Incons(w, p, L)
MaySat(w, p, L) == w.complete => ~Incons(w, p, L)
Entails(w, p, L, l) == w.complete => Incons(w, p, L \union {-l})

(***************************************************************************)
(* Unit propagation of the clauses as given                                *)
(***************************************************************************)
RECURSIVE BcpFrom(_, _)
BcpFrom(cls, T) ==
  LET live == {c \in cls : c \intersect T = {}}
      open(c) == {l \in c : -l \notin T}
      confl == \E c \in live : open(c) = {}
      units == UNION {open(c) : c \in {d \in live : Cardinality(open(d)) = 1}}
  IN  IF confl THEN [x |-> TRUE, T |-> T]
      ELSE IF units = {} THEN [x |-> FALSE, T |-> T]
      ELSE IF Clash(units) THEN [x |-> TRUE, T |-> T]
      ELSE BcpFrom(live, T \union units)

Bcp(p, L) == IF Clash(L) THEN [x |-> TRUE, T |-> L] ELSE BcpFrom(p.cls, L)

(***************************************************************************)
(* Clauses                                                                 *)
(***************************************************************************)
PartNext(p, c) == [p EXCEPT !.part = @ \union c]

AddNext(w, p, c0) ==
  LET c == p.part \union c0 IN
  [p EXCEPT !.part = {}, !.cls = @ \union {c},
            !.mods = @ \intersect ClauseMods(w, c), !.last = 2]

ActLitOk(p, m) == m \notin DOMAIN p.grp
ActLitNext(w, p, m) ==
  [p EXCEPT !.grp = [k \in DOMAIN @ \union {m} |-> IF k = m THEN w.all ELSE @[k]]]

ActWithOk(p, m) == m \in DOMAIN p.grp
ActWithNext(w, p, m, c0) ==
  LET c == p.part \union c0 IN
  [p EXCEPT !.part = {}, !.cls = @ \union {c \union {-m}},
            !.grp[m] = @ \intersect ClauseMods(w, c), !.last = 2]

(* activating a clause which is empty under the clauses may be refused *)
ActRefuseOk(w, p, c0) == p.mods \intersect ClauseMods(w, p.part \union c0) = {}

DeactOk(p, m) == m \in DOMAIN p.grp /\ m \notin InForce(p) /\ p.sco = <<>>
DeactNext(p, m) ==
  [p EXCEPT !.grp = [k \in DOMAIN @ \ {m} |-> @[k]],
            !.cls = {c \in @ : -m \notin c}, !.last = 2]

AssumeNext(p, L) == [p EXCEPT !.pend = @ \union L]

(***************************************************************************)
(* Answers.  A set of aspects says which parts of the answer are judged.   *)
(***************************************************************************)
(* a model: pos, neg as bit masks (complete) or 0/1 sequences; at = true   *)
(* activation literals                                                     *)
Holds(w, pos, at, l) ==
  IF IsAct(l) THEN (Abs(l) \in at) = (l > 0)
  ELSE IF w.complete THEN pos \in w.sat[l]
  ELSE (pos[Abs(l)] = 1) = (l > 0)

ModelOk(w, p, A, pos, neg, at) ==
  /\ IF w.complete THEN pos + neg = Pow2[w.n] - 1
     ELSE \A v \in 1..w.n : pos[v] + neg[v] = 1
  /\ IF w.complete
     THEN pos \in p.mods /\ \A m \in at \intersect DOMAIN p.grp : pos \in p.grp[m]
     ELSE \A c \in p.cls : \E l \in c : Holds(w, pos, at, l)
  /\ \A l \in A : Holds(w, pos, at, l)

WhyOk(w, p, A, why) == why \subseteq A /\ MayUnsat(w, p, why)

(* r: answer; unk: whether unknown is excused *)
VerdictOk(w, p, A, r, unk) ==
  \/ r = 1 /\ MaySat(w, p, A)
  \/ r = -1 /\ MayUnsat(w, p, A)
  \/ r = 0 /\ unk

SolveNext(p, r, M) ==
  [p EXCEPT !.pend = {}, !.last = r, !.lastA = InForce(p), !.lastM = M, !.lastW = <<>>]

(* test opens a scope also when it answers unsat *)
TestNext(p, r, M) ==
  [p EXCEPT !.pend = {}, !.sco = Append(@, p.pend), !.last = r, !.lastA = InForce(p), !.lastM = M]

TestLegal(p) == ~(p.last = -1 /\ p.sco # <<>>)

(* unknown and sat only if propagation of the given clauses finds nothing *)
TestBcpOk(p, A) == ~Bcp(p, A).x
(* what test reports: everything propagation derives that did not already  *)
(* follow before, and nothing that does not follow                         *)
TestLitsOk(w, p, A, old, ns) ==
  /\ w.complete => \A l \in Bcp(p, A).T : l \in ns \/ Incons(w, p, old \union {-l})
  /\ \A l \in ns : (IsAct(l) /\ Abs(l) \notin DOMAIN p.grp) \/ (l # 0 /\ Entails(w, p, A, l))

UntestNext(p, r) == [p EXCEPT !.sco = SubSeq(@, 1, Len(@) - 1), !.last = IF r = -1 THEN -1 ELSE 2]
UntestOk(w, p, r) ==
  LET q == [p EXCEPT !.sco = SubSeq(@, 1, Len(@) - 1)] IN
  \/ r = -1 /\ MayUnsat(w, q, Scoped(q))
  \/ r = 0 /\ ~Bcp(q, Scoped(q)).x

(* rs: sequence of <<literal, reason...>> for everything reported          *)
ReasonsTrue(w, p, rs) ==
  \A k \in DOMAIN rs : \A j \in 2..Len(rs[k]) :
     LET l == rs[k][j] IN
     (IsAct(l) /\ Abs(l) \notin DOMAIN p.grp) \/ (l # 0 /\ Entails(w, p, Scoped(p), l))
ReasonsSuffice(w, p, rs) ==
  \A k \in DOMAIN rs :
     LET l == rs[k][1]
         R == {rs[k][j] : j \in 2..Len(rs[k])}
     IN  IF R # {} THEN Entails(w, p, R, l)
         ELSE l \in Scoped(p) \/ Entails(w, p, {}, l)
RECURSIVE Acyclic(_, _)
Acyclic(G, rem) ==     (* G: set of <<literal, set of reasons>>; peel sources *)
  LET lits == {g[1] : g \in rem}
      src == {g \in rem : g[2] \intersect lits = {}}
  IN  rem = {} \/ (src # {} /\ Acyclic(G, rem \ src))
ReasonsAcyclic(rs) ==
  LET G == {<<rs[k][1], {rs[k][j] : j \in 2..Len(rs[k])}>> : k \in DOMAIN rs} IN Acyclic(G, G)

(***************************************************************************)
(* Internal state, where it is observed: everything derived follows, and   *)
(* nothing given is lost.                                                  *)
(***************************************************************************)
(* a clause over known literals follows from the clauses in force          *)
Known(p, c) == \A l \in c : l # 0 /\ (IsAct(l) => Abs(l) \in DOMAIN p.grp)
LearntOk(w, p, c) == Known(p, c) /\ w.complete => Incons(w, p, {-l : l \in c})
GivenKept(w, p, added) ==
  LET base == {c \in added : \A l \in c : l # 0 /\ ~IsAct(l)}
      mods == {a \in w.all : \A c \in base : \E l \in c : a \in w.sat[l]}
      of(m) == {c \in added : -m \in c}
      gm(m) == {a \in w.all : \A c \in of(m) : \E l \in c : ~IsAct(l) /\ l # 0 /\ a \in w.sat[l]}
  IN  w.complete =>
        /\ mods = p.mods
        /\ \A m \in DOMAIN p.grp : p.mods \intersect gm(m) = p.mods \intersect p.grp[m]
=============================================================================
