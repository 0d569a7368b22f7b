---------------------------------- MODULE Cdcl ----------------------------------
(***************************************************************************)
(* The design of the solver: conflict driven clause learning under         *)
(* assumptions, with restarts and forgetting, kept clauses and level 0     *)
(* facts between calls, test scopes as levels below the search, and        *)
(* activation literals whose variables are used again after deactivation.  *)
(* Every answer is judged by IncSat, and so is everything kept.            *)
(*                                                                         *)
(* Bug selects a design which is known to be wrong:                        *)
(*   "keep"     deactivation keeps learnt clauses about the literal        *)
(*   "fixed"    a variable with a level 0 value is used again              *)
(*   "drop"     a conflict at level 0 found between solves is forgotten    *)
(*   "restart"  restarts undo assumptions                                  *)
(*   "scope"    the search may backjump into test scopes                   *)
(*   "why"      failed assumptions are those of the last level only        *)
(*   "level0"   a unit learnt in a scope is kept at the level of the scope *)
(*              as if nothing had been assumed (kept after untest)         *)
(*   "untest"   untest does not propagate what is known below the scope    *)
(***************************************************************************)
EXTENDS IncSat, TLC

CONSTANTS Calls, Bug

B == 2                       \* base variables; B+1.. are for activation
AV == {3, 4}
W == SmallWorld(B)
Given == {{1, 2}, {-1, 2}, {1, -2}, {-1, -2}, {1}, {-2}}
ActGiven == {{1, 2}, {-1, 2}, {-2}}

VARIABLES
  p,        \* what the user may observe (IncSat)
  cls, lrn, \* clauses held: given ones, learnt ones
  tr,       \* the trail: sequence of [l, r, v]: literal, reason ({}: none), level
  base,     \* levels below the search: tested scopes and the assumptions of this solve
  bot,      \* a conflict was found at level 0
  mode,     \* idle, search, test, untest
  id,       \* variable -> activation literal it stands for (0: none, -1: never used)
  free,     \* variables that may be used again
  n, rs, ids, \* calls, restarts of this solve, activation literals so far
  ok        \* every answer and step was right
vars == <<p, cls, lrn, tr, base, bot, mode, id, free, n, rs, ids, ok>>

Out(l) == IF Abs(l) <= B THEN l ELSE IF l < 0 THEN -id[Abs(l)] ELSE id[Abs(l)]
OutC(c) == {Out(l) : l \in c}
Alive == {v \in AV : id[v] > 0}

Vals == {tr[k].l : k \in DOMAIN tr}
Fixed == {tr[k].l : k \in {j \in DOMAIN tr : tr[j].v = 0}}
Cur == IF tr = <<>> THEN base ELSE LET v == tr[Len(tr)].v IN IF v > base THEN v ELSE base
UpTo(v) == SelectSeq(tr, LAMBDA e : e.v <= v)
LevelOf(l) == LET k == CHOOSE k \in DOMAIN tr : tr[k].l = l IN tr[k].v
PosOf(l) == CHOOSE k \in DOMAIN tr : tr[k].l = l
False(c) == \A l \in c : -l \in Vals
Open(c) == {l \in c : -l \notin Vals}
Conflicts == {c \in cls \union lrn : False(c)}
Units == {c \in cls \union lrn : c \intersect Vals = {} /\ Cardinality(Open(c)) = 1}

(* resolution down to one literal of the current level *)
RECURSIVE Analyse(_, _)
Analyse(c, v) ==
  LET here == {l \in c : LevelOf(-l) = v}
      last == CHOOSE l \in here : \A k \in here : PosOf(-k) <= PosOf(-l)
  IN IF Cardinality(here) <= 1 THEN c
     ELSE Analyse((c \ {last}) \union (tr[PosOf(-last)].r \ {-last}), v)
MaxLev(L) == IF L = {} THEN 0 ELSE CHOOSE v \in {LevelOf(-l) : l \in L} : \A l \in L : LevelOf(-l) <= v
(* the literals without reason which a set of true literals rests on *)
RECURSIVE Roots(_, _)
Roots(L, seen) ==
  IF L = {} THEN {}
  ELSE LET l == CHOOSE l \in L : TRUE
           e == tr[PosOf(l)]
       IN IF l \in seen \/ (e.v = 0 /\ e.r = {}) THEN Roots(L \ {l}, seen \union {l})
          ELSE IF e.r = {} THEN {l} \union Roots(L \ {l}, seen \union {l})
          ELSE Roots((L \union {-k : k \in e.r \ {l}}) \ {l}, seen \union {l})

Init ==
  /\ p = New(W) /\ cls = {} /\ lrn = {} /\ tr = <<>> /\ base = 0 /\ bot = FALSE /\ mode = "idle"
  /\ id = [v \in AV |-> -1] /\ free = {} /\ n = 0 /\ rs = 0 /\ ids = 0 /\ ok = TRUE

Entry(l, r, v) == [l |-> l, r |-> r, v |-> v]
(* assign a sequence of new literals at a level, without reasons *)
RECURSIVE Push(_, _)
Push(L, v) == IF L = {} THEN <<>> ELSE LET l == CHOOSE l \in L : TRUE IN <<Entry(l, {}, v)>> \o Push(L \ {l}, v)

(***************************************************************************)
(* Calls of the user, between solves                                       *)
(***************************************************************************)
Idle == mode = "idle" /\ n < Calls
Count == n' = n + 1

Add == \E c \in Given :
  /\ Idle /\ p.sco = <<>> /\ c \notin cls
  /\ cls' = cls \union {c} /\ p' = AddNext(W, p, c) /\ Count
  /\ UNCHANGED <<lrn, tr, base, bot, mode, id, free, rs, ids, ok>>
(* between solves propagation at level 0 may happen at any time, as it does in compaction *)
Tidy ==
  /\ Idle /\ base = 0 /\ ~bot
  /\ IF Conflicts # {} THEN bot' = (Bug # "drop") /\ cls' = (IF Bug = "drop" THEN cls \ Conflicts ELSE cls) /\ UNCHANGED tr
     ELSE /\ Units # {}
          /\ LET c == CHOOSE c \in Units : TRUE
             IN tr' = Append(tr, Entry(CHOOSE l \in Open(c) : TRUE, {}, 0))
          /\ UNCHANGED <<bot, cls>>
  /\ UNCHANGED <<p, lrn, base, mode, id, free, n, rs, ids, ok>>
(* satisfied clauses may be removed, those about a live activation literal excepted *)
Assume == \E l \in {1, -1, 2} \union Alive :
  /\ Idle /\ Out(l) \notin p.pend
  /\ p' = AssumeNext(p, {Out(l)}) /\ Count
  /\ UNCHANGED <<cls, lrn, tr, base, bot, mode, id, free, rs, ids, ok>>
Inner(x) == IF IsAct(x) THEN (CHOOSE v \in AV : id[v] = Abs(x)) * (IF x < 0 THEN -1 ELSE 1) ELSE x
Pending == {Inner(x) : x \in p.pend}

Activate == \E c \in ActGiven, v \in AV :
  /\ Idle /\ p.sco = <<>> /\ ids < 3
  /\ IF free # {} THEN v \in free ELSE id[v] = -1
  /\ ~ActRefuseOk(W, p, c)
  /\ ids' = ids + 1 /\ id' = [id EXCEPT ![v] = ActBase + ids'] /\ free' = free \ {v}
  /\ cls' = cls \union {c \union {-v}}
  /\ p' = ActWithNext(W, ActLitNext(W, p, ActBase + ids'), ActBase + ids', c) /\ Count
  /\ UNCHANGED <<lrn, tr, base, bot, mode, rs, ok>>
Deactivate == \E v \in Alive :
  /\ Idle /\ DeactOk(p, id[v])
  /\ cls' = {c \in cls : -v \notin c}
  /\ lrn' = IF Bug = "keep" THEN lrn ELSE {c \in lrn : -v \notin c}
  /\ id' = [id EXCEPT ![v] = 0]
  /\ free' = IF {v, -v} \intersect Fixed = {} \/ Bug = "fixed" THEN free \union {v} ELSE free
  /\ p' = DeactNext(p, id[v]) /\ Count
  /\ UNCHANGED <<tr, base, bot, mode, rs, ids, ok>>

(* answers: judged, and the call ends *)
Say(r, why, M) ==
  LET A == InForce(p) IN
  /\ VerdictOk(W, p, A, r, FALSE)
  /\ r = -1 => WhyOk(W, p, A, OutC(why))
  /\ r = 1 => \E a \in ModsUnder(W, p, A) : \A l \in M : Abs(l) <= B => a \in W.sat[l]

StartSolve ==
  /\ Idle
  /\ rs' = 0 /\ Count
  /\ IF bot THEN /\ mode' = "idle" /\ ok' = (ok /\ Say(-1, {}, {})) /\ p' = SolveNext(p, -1, -1)
                 /\ UNCHANGED <<tr, base>>
     ELSE LET bad == {l \in Pending : -l \in Vals \union Pending} IN
          IF bad # {}
          THEN LET l == CHOOSE l \in bad : TRUE
                   why == {l} \union (IF -l \in Vals THEN Roots({-l}, {}) ELSE {-l})
               IN /\ mode' = "idle" /\ ok' = (ok /\ Say(-1, why, {})) /\ p' = SolveNext(p, -1, -1)
                  /\ UNCHANGED <<tr, base>>
          ELSE /\ mode' = "search" /\ base' = base + 1
               /\ tr' = tr \o Push(Pending \ Vals, base + 1)
               /\ UNCHANGED <<p, ok>>
  /\ UNCHANGED <<cls, lrn, bot, id, free, ids>>

(***************************************************************************)
(* The search                                                              *)
(***************************************************************************)
Scopes == Len(p.sco)
EndSolve(r, why, M) ==
  /\ ok' = (ok /\ Say(r, why, M)) /\ p' = SolveNext(p, r, -1)
  /\ mode' = "idle" /\ base' = Scopes /\ tr' = UpTo(Scopes)

Propagate ==
  /\ mode \in {"search", "test", "untest"} /\ Conflicts = {} /\ Units # {}
  /\ LET c == CHOOSE c \in Units : TRUE
     IN tr' = Append(tr, Entry(CHOOSE l \in Open(c) : TRUE, IF Cur = 0 THEN {} ELSE c, Cur))
  /\ UNCHANGED <<p, cls, lrn, base, bot, mode, id, free, n, rs, ids, ok>>

FinalWhy(c) == LET R == Roots({-l : l \in c}, {}) IN IF Bug = "why" THEN {l \in R : LevelOf(l) = base} ELSE R

Conflict ==
  /\ mode = "search" /\ Conflicts # {}
  /\ \E c \in Conflicts :
       IF Cur <= base /\ ~(Bug = "scope" /\ Cur > 0 /\ base > 1)
       THEN /\ EndSolve(-1, FinalWhy(c), {})
            /\ bot' = (bot \/ \A l \in c : LevelOf(-l) = 0)
            /\ UNCHANGED lrn
       ELSE LET d == {l \in Analyse(c, Cur) : LevelOf(-l) > 0 \/ LevelOf(-l) = Cur}
                u == IF \E l \in d : LevelOf(-l) = Cur THEN CHOOSE l \in d : LevelOf(-l) = Cur ELSE CHOOSE l \in d : TRUE
                j == MaxLev(d \ {u})
                to == IF Bug = "scope" THEN j ELSE IF j < base THEN base ELSE j
            IN /\ lrn' = lrn \union {d}
               /\ tr' = Append(UpTo(to), Entry(u, IF to = 0 THEN {} ELSE d, IF Bug = "level0" /\ d = {u} THEN 0 ELSE to))
               /\ UNCHANGED <<p, base, bot, mode, ok>>
  /\ UNCHANGED <<cls, id, free, n, rs, ids>>

Decide ==
  /\ mode = "search" /\ Conflicts = {} /\ Units = {}
  /\ LET need == {Inner(x) : x \in p.pend}      \* assumptions undone by a wrong restart stay undone
         undef == {v \in (1..B) \union {v \in AV : id[v] >= 0} : v \notin Vals /\ -v \notin Vals}
     IN IF undef = {} THEN EndSolve(1, {}, Vals)
        ELSE /\ \E v \in {CHOOSE v \in undef : \A w \in undef : v <= w} : \E l \in {v, -v} :
                  tr' = Append(tr, Entry(l, {}, Cur + 1))
             /\ UNCHANGED <<p, base, mode, ok>>
  /\ UNCHANGED <<cls, lrn, bot, id, free, n, rs, ids>>

Restart ==
  /\ mode = "search" /\ rs < 1 /\ Cur > base /\ rs' = rs + 1
  /\ tr' = UpTo(IF Bug = "restart" THEN Scopes ELSE base)
  /\ UNCHANGED <<p, cls, lrn, base, bot, mode, id, free, n, ids, ok>>
Forget ==
  /\ mode = "search" /\ rs < 1 /\ rs' = rs + 1
  /\ \E S \in SUBSET lrn : S # {} /\ (\A k \in DOMAIN tr : tr[k].r \notin S) /\ lrn' = lrn \ S
  /\ UNCHANGED <<p, cls, tr, base, bot, mode, id, free, n, ids, ok>>

(***************************************************************************)
(* Scopes                                                                  *)
(***************************************************************************)
StartTest ==
  /\ Idle /\ TestLegal(p) /\ Scopes < 2 /\ ~bot
  /\ Pending \intersect {-l : l \in Vals \union Pending} = {}
  /\ mode' = "test" /\ base' = base + 1 /\ tr' = tr \o Push(Pending \ Vals, base + 1) /\ Count
  /\ UNCHANGED <<p, cls, lrn, bot, id, free, rs, ids, ok>>
EndTest ==
  /\ mode = "test" /\ (Conflicts # {} \/ Units = {})
  /\ LET A == InForce(p)
         c == CHOOSE c \in Conflicts : TRUE
         r == IF Conflicts # {} THEN -1 ELSE 0
         new == {Out(l) : l \in {m \in Vals : Abs(m) <= B \/ id[Abs(m)] > 0}}
     IN /\ ok' = (ok /\ IF r = -1 THEN Say(-1, Roots({-l : l \in c}, {}), {})
                        ELSE TestBcpOk(p, A) /\ TestLitsOk(W, p, A, {}, new))
        /\ p' = TestNext(p, r, -1)
        /\ bot' = (bot \/ (r = -1 /\ \A l \in c : LevelOf(-l) = 0))
  /\ mode' = "idle"
  /\ UNCHANGED <<cls, lrn, tr, base, id, free, n, rs, ids>>
Untest ==
  /\ mode = "idle" /\ Scopes > 0 /\ n < Calls /\ Count
  /\ base' = base - 1 /\ tr' = UpTo(base - 1)
  /\ mode' = "untest"
  /\ UNCHANGED <<p, cls, lrn, bot, id, free, rs, ids, ok>>
(* what was learnt, or not yet found, below the scope is propagated *)
EndUntest ==
  /\ mode = "untest" /\ (Conflicts # {} \/ Units = {} \/ Bug = "untest")
  /\ LET r == IF bot \/ (Conflicts # {} /\ Bug # "untest") THEN -1 ELSE 0 IN
     /\ ok' = (ok /\ UntestOk(W, p, r)) /\ p' = UntestNext(p, r)
     /\ bot' = (bot \/ (r = -1 /\ \E c \in Conflicts : \A l \in c : LevelOf(-l) = 0))
  /\ mode' = "idle"
  /\ UNCHANGED <<cls, lrn, tr, base, id, free, n, rs, ids>>

Next == Add \/ Tidy \/ Assume \/ Activate \/ Deactivate \/ StartSolve \/ Propagate \/ Conflict \/ Decide \/ Restart
        \/ Forget \/ StartTest \/ EndTest \/ Untest \/ EndUntest
Spec == Init /\ [][Next]_vars
Search == Propagate \/ Conflict \/ Decide \/ Restart \/ Forget \/ EndTest \/ EndUntest
Fair == Spec /\ WF_vars(Search)

(***************************************************************************)
(* What must hold                                                          *)
(***************************************************************************)
Answers == ok
(* learnt clauses and facts follow from the clauses in force *)
Speaks(c) == \A l \in c : Abs(l) <= B \/ id[Abs(l)] > 0
Learnt == \A c \in lrn : Speaks(c) => LearntOk(W, p, OutC(c))
Facts == \A l \in Fixed : Speaks({l}) => LearntOk(W, p, {Out(l)})
Bottom == bot => p.mods = {}
(* variables which may be used again are in nothing that is kept *)
Fresh == \A v \in free : {v, -v} \intersect Fixed = {} /\ \A c \in cls \union lrn : {v, -v} \intersect c = {}
(* the trail is well formed: levels ascend, reasons are clauses held which became unit *)
Trail == /\ \A k \in 1..(Len(tr) - 1) : tr[k].v <= tr[k + 1].v
         /\ \A k \in DOMAIN tr : tr[k].r # {} => /\ tr[k].l \in tr[k].r /\ tr[k].r \in cls \union lrn
                                                 /\ \A m \in tr[k].r \ {tr[k].l} : \E j \in 1..(k - 1) : tr[j].l = -m
         /\ \A j, k \in DOMAIN tr : tr[j].l # -tr[k].l /\ (tr[j].l = tr[k].l => j = k)
(* assumptions in force hold during the search *)
InScope == mode = "search" => OutC(Vals \ {l \in Vals : ~Speaks({l})}) \intersect InForce(p) = InForce(p)
Ends == (mode # "idle") ~> (mode = "idle")
=============================================================================
