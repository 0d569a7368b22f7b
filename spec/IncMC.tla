--------------------------------- MODULE IncMC ---------------------------------
(***************************************************************************)
(* Every history of one solver over a small problem: two base variables,   *)
(* a few clauses, up to two activation literals, nested scopes.            *)
(*                                                                         *)
(* With Show, every sequence of calls up to the length is printed, up to   *)
(* renaming variables, for replay on the real code; the sequences end in a *)
(* call with an answer.  Without it the sequence is hidden from the states,*)
(* and the specification itself is examined: every answer is determined as *)
(* far as it should be, there always is an allowed one, calls change only  *)
(* what they are about.                                                    *)
(***************************************************************************)
EXTENDS IncSat, TLC

CONSTANTS Calls, Acts, Depth, Show
VARIABLES p, plan, na, ok

W == SmallWorld(2)
vars == <<p, plan, na, ok>>
Hidden == <<p, na, ok, IF Show THEN plan ELSE <<Len(plan)>>>>

Clauses == {{1}, {-1}, {1, 2}, {1, -2}, {-1, 2}, {-1, -2}, {2}, {-2}} \union (IF Show THEN {} ELSE {{}})
ActClauses == {{1}, {-1, 2}, {-1, -2}}
ActOf(k) == ActBase + k
Alive == DOMAIN p.grp

Init == p = New(W) /\ plan = <<>> /\ na = 0 /\ ok = TRUE

Used(v) == \E k \in DOMAIN plan : \E l \in plan[k].l : Abs(l) = v
(* up to renaming: variable 1 comes first, and a variable is positive at first *)
Canon(L) ==
  IF ~Show THEN TRUE ELSE LET base == {l \in L : ~IsAct(l)} IN
          /\ (-1 \in base) => Used(1)
          /\ (-2 \in base) => Used(2)
          /\ (2 \in base \/ -2 \in base) => (Used(1) \/ 1 \in base)
(* calls which commute come in one order *)
Key(o) == CASE o.l = {1} -> 1 [] o.l = {-1} -> 2 [] o.l = {2} -> 3 [] o.l = {-2} -> 4
            [] o.l = {1, 2} -> 5 [] o.l = {1, -2} -> 6 [] o.l = {-1, 2} -> 7 [] o.l = {-1, -2} -> 8
            [] OTHER -> 9 + (CHOOSE m \in o.l \union {0} : TRUE)
InOrder(o) ==
  IF ~Show \/ plan = <<>> THEN TRUE
  ELSE IF plan[Len(plan)].o # o.o THEN TRUE ELSE Key(plan[Len(plan)]) < Key(o)
Say(o) == plan' = IF Show THEN Append(plan, o) ELSE Append(plan, 0)
Op(o, m, L) == [o |-> o, m |-> m, l |-> L]

RECURSIVE Lits(_), Text(_, _)
Lits(L) == IF L = {} THEN "" ELSE LET m == CHOOSE m \in L : TRUE IN " " \o ToString(m) \o Lits(L \ {m})
Text(q, k) == IF k > Len(q) THEN ""
              ELSE "," \o q[k].o \o " " \o ToString(q[k].m) \o Lits(q[k].l) \o Text(q, k + 1)

(* what solve and test may answer here, with a model *)
Answers(A) ==
  {<<1, a>> : a \in ModsUnder(W, p, {l \in A : ~IsAct(l) \/ Abs(l) \in Alive})}
    \union (IF Incons(W, p, A) THEN {<<-1, -1>>} ELSE {})

Judged(x) == Show \/ x
Frame(q) == q.cls = p.cls /\ q.mods = p.mods /\ q.grp = p.grp

Add == \E c \in Clauses :
  /\ p.sco = <<>> /\ Canon(c) /\ InOrder(Op("add", 0, c))
  /\ p' = AddNext(W, p, c) /\ Say(Op("add", 0, c)) /\ UNCHANGED na
  /\ ok' = Judged(
           (p'.mods \subseteq p.mods /\ p'.grp = p.grp /\ p'.sco = p.sco /\ p'.pend = p.pend))
Assume == \E l \in {1, -1, 2, -2} \union Alive :
  /\ l \notin p.pend /\ Canon({l}) /\ InOrder(Op("ass", 0, {l}))
  /\ p' = AssumeNext(p, {l}) /\ Say(Op("ass", 0, {l})) /\ UNCHANGED na
  /\ ok' = Judged(
           (Frame(p') /\ InForce(p') = InForce(p) \union {l} /\ p'.last = p.last))
Solve ==
  /\ \E r \in Answers(InForce(p)) : p' = SolveNext(p, r[1], IF Show THEN -1 ELSE r[2])
  /\ Say(Op("solve", 0, {})) /\ UNCHANGED na
  /\ ok' = Judged(
           /\ Frame(p') /\ p'.sco = p.sco /\ p'.pend = {}
           /\ Cardinality({r[1] : r \in Answers(InForce(p))}) = 1
           /\ \A r \in Answers(InForce(p)) :
                /\ VerdictOk(W, p, InForce(p), r[1], FALSE) /\ ~VerdictOk(W, p, InForce(p), -r[1], FALSE)
                /\ r[1] = 1 => ModelOk(W, p, InForce(p), r[2], 3 - r[2], InForce(p) \intersect Alive)
                /\ r[1] = -1 => WhyOk(W, p, InForce(p), InForce(p))
           /\ (Bcp(p, InForce(p)).x => Incons(W, p, InForce(p))))
(* test may also answer unknown, unless propagation finds a conflict *)
Test ==
  LET A == InForce(p)
      b == Bcp(p, A)
      R == Answers(A) \union (IF b.x THEN {} ELSE {<<0, -1>>})
  IN /\ TestLegal(p) /\ Len(p.sco) < Depth
     /\ \E r \in IF Show THEN {<<IF b.x THEN -1 ELSE 0, -1>>} ELSE R : p' = TestNext(p, r[1], IF Show THEN -1 ELSE r[2])
     /\ Say(Op("test", 0, {})) /\ UNCHANGED na
     /\ ok' = Judged(
              /\ Frame(p') /\ InForce(p') = A /\ p'.pend = {}
              /\ b.x \/ \A l \in b.T : Entails(W, p, A, l)
              /\ b.x \/ TestLitsOk(W, p, A, Scoped(p), b.T))
Untest ==
  /\ p.sco # <<>>
  /\ \E r \in IF Show /\ UntestOk(W, p, 0) THEN {0} ELSE {0, -1} : UntestOk(W, p, r) /\ p' = UntestNext(p, r)
  /\ Say(Op("untest", 0, {})) /\ UNCHANGED na
  /\ ok' = Judged(
           (Frame(p') /\ Len(p'.sco) = Len(p.sco) - 1 /\ p'.sco = SubSeq(p.sco, 1, Len(p.sco) - 1)))
Activate ==
  /\ p.sco = <<>> /\ na < Acts
  /\ \E c \in ActClauses :
       /\ Canon(c)
       /\ ~ActRefuseOk(W, p, c)
       /\ p' = ActWithNext(W, ActLitNext(W, p, ActOf(na + 1)), ActOf(na + 1), c)
       /\ Say(Op("act", 0, c))
  /\ na' = na + 1
  /\ ok' = Judged(
           /\ p'.mods = p.mods /\ \A m \in Alive : p'.grp[m] = p.grp[m]
           /\ \A L \in SUBSET {1, -1, 2, -2} : Incons(W, p', L) = Incons(W, p, L))
ActWith ==
  /\ p.sco = <<>>
  /\ \E m \in Alive, c \in ActClauses :
       /\ Canon(c) /\ ~ActRefuseOk(W, p, c)
       /\ p' = ActWithNext(W, p, m, c)
       /\ Say(Op("actw", m, c))
       /\ ok' = Judged(
                /\ p'.mods = p.mods /\ \A k \in Alive \ {m} : p'.grp[k] = p.grp[k]
                /\ \A L \in SUBSET {1, -1, 2, -2} : Incons(W, p', L) = Incons(W, p, L))
  /\ UNCHANGED na
Deactivate ==
  \E m \in Alive :
    /\ DeactOk(p, m)
    /\ p' = DeactNext(p, m) /\ Say(Op("deact", m, {})) /\ UNCHANGED na
    /\ ok' = Judged(
             /\ p'.mods = p.mods /\ \A k \in Alive \ {m} : p'.grp[k] = p.grp[k]
             /\ \A c \in p.cls : (c \notin p'.cls) <=> (-m \in c))

Next == /\ Len(plan) < Calls
        /\ (Add \/ Assume \/ Solve \/ Test \/ Untest \/ Activate \/ ActWith \/ Deactivate)
        /\ Show /\ plan'[Len(plan')].o \in {"solve", "test", "untest"} /\ Len(plan') = Calls =>
             PrintT("PLAN" \o Text(plan', 1))
Spec == Init /\ [][Next]_vars

(* the clauses held are what the sets of models are about; what propagation *)
(* derives follows; what follows keeps following                           *)
Kept == GivenKept(W, p, p.cls)
Learn == ~Show => \A c \in SUBSET {1, -1, 2, -2} :
   (LearntOk(W, p, c) => \A d \in Clauses : LearntOk(W, AddNext(W, p, d), c))
Good == ok /\ Kept
=============================================================================
