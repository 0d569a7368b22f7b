--------------------------------- MODULE Crisp ---------------------------------
(***************************************************************************)
(* The CRISP protocol as seen on the wire: which reply a request may get   *)
(* in which state of the connection.  A connection is a record of IncSat   *)
(* (the problem, the assumptions, the last answer) with                    *)
(*   ph   idle    no solve since the connection, a reset, an add, an assume*)
(*        run     a solve that was answered unknown                        *)
(*        sat, unsat, end   the answer of the last solve                   *)
(*        closed                                                           *)
(*   mv   the greatest variable of a clause or assumption                  *)
(*   lastW  the failed assumptions reported for the last solve, if any     *)
(* Error codes are those of the protocol: 1 varuint overflow, 2 last solve *)
(* not sat, 3 not unsat, 4 out of order, 5 unknown op, 6 not a literal,    *)
(* 7 not an op.                                                            *)
(***************************************************************************)
EXTENDS IncSat

Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxLit(_, _, _)
MaxLit(ls, k, m) == IF k > Len(ls) THEN m ELSE MaxLit(ls, k + 1, Max2(m, Abs(ls[k])))

(* clauses as a 0-separated sequence, the last one possibly unterminated *)
RECURSIVE AddSeq(_, _, _, _, _)
AddSeq(w, p, ls, k, c) ==
  IF k > Len(ls) THEN PartNext(p, c)
  ELSE IF ls[k] = 0 THEN AddSeq(w, AddNext(w, p, c), ls, k + 1, {})
  ELSE AddSeq(w, p, ls, k + 1, c \union {ls[k]})

Idle(p) == [p EXCEPT !.ph = "idle", !.lastM = -1, !.lastW = <<>>]
Closed(p) == [p EXCEPT !.ph = "closed"]
Solved(p, ph, r) == [SolveNext(p, r, -1) EXCEPT !.ph = ph, !.lastW = <<>>]

None(e) == e.r = "none"
Error(e, codes) == e.r = "err" /\ e.code \in codes /\ e.closed
WrongPhase(p, e, not) == Error(e, IF p.ph \in {"sat", "unsat", "end"} THEN {not} ELSE {4})

(* the solve loop *)
StepOk(w, p, e, ending) ==
  CASE e.r = "sat" -> MaySat(w, p, InForce(p))
    [] e.r = "unsat" -> MayUnsat(w, p, InForce(p))
    [] e.r = "unknown" -> ~ending
    [] e.r = "end" -> TRUE
    [] OTHER -> FALSE
StepNext(p, e) ==
  CASE e.r = "sat" -> Solved(p, "sat", 1)
    [] e.r = "unsat" -> Solved(p, "unsat", -1)
    [] e.r = "end" -> Solved(p, "end", 0)
    [] OTHER -> [p EXCEPT !.ph = "run"]

(* truth values: a set of raw variables or positions; k is the distance of *)
(* the raw numbers of the variables of the specification                   *)
RECURSIVE MaskOf(_, _, _, _)
MaskOf(bits, k, n, v) ==
  IF v > n THEN 0 ELSE (IF v * k \in bits THEN Pow2[v - 1] ELSE 0) + MaskOf(bits, k, n, v + 1)
Words(n) == (n + 31) \div 32
ModelReplyOk(w, p, e) ==
  LET pos == IF w.complete THEN MaskOf(e.bits, e.k, w.n, 1) ELSE -1
  IN /\ e.r = "data"
     /\ e.n \in {Words(p.mv * e.k), Words(MaxLit(e.open, 1, p.mv) * e.k)}
     /\ \A b \in e.bits : b <= MaxLit(e.open, 1, p.mv) * e.k
     /\ p.lastM \in {-1, pos}
     /\ w.complete => ModelOk(w, p, p.lastA, pos, Pow2[w.n] - 1 - pos, {})
ModelNext(w, p, e) ==
  IF w.complete THEN [p EXCEPT !.lastM = MaskOf(e.bits, e.k, w.n, 1)] ELSE p
ForOk(w, p, ls, bits) ==      \* truth values of ls
  LET cand == IF p.lastM # -1 THEN {p.lastM} ELSE ModsUnder(w, p, p.lastA)
      val(a, l) == IF Abs(l) \in 1..w.n THEN a \in w.sat[l] ELSE l < 0
  IN /\ \A b \in bits : b \in 1..Len(ls)
     /\ w.complete => \E a \in cand : \A j \in DOMAIN ls : val(a, ls[j]) = (j \in bits)
FailedOk(w, p, e) ==
  /\ e.r = "data" /\ WhyOk(w, p, p.lastA, Range(e.ls))
  /\ p.lastW # <<>> => Range(e.ls) = p.lastW[1]
SelectIn(ls, S) == LET t(l) == l \in S IN SelectSeq(ls, t)
FailedForOk(w, p, ls, res) ==
  IF p.lastW # <<>> THEN res = SelectIn(ls, p.lastW[1])
  ELSE res = SelectIn(ls, Range(res)) /\ Range(res) \subseteq p.lastA

BadOk(p, e) ==
  LET run == IF p.ph = "run" THEN {4} ELSE {} IN
  CASE e.what \in {"vu", "datavu"} -> Error(e, {1} \union (IF e.what = "vu" THEN {} ELSE run))
    [] e.what = "op" -> Error(e, {5, 7} \union run)
    [] e.what \in {"data", "null"} -> Error(e, {6} \union run)
    [] OTHER -> FALSE

RqOk(w, p, e) ==
  CASE p.ph = "closed" -> FALSE
    [] e.op = "drop" -> TRUE                      \* the client is gone
    [] e.op = "bad" -> BadOk(p, e)
    [] e.op = "quit" -> None(e) /\ e.closed
    [] p.ph = "run" -> IF e.op \in {"continue", "end"} THEN StepOk(w, p, e, e.op = "end") ELSE Error(e, {4})
    [] e.op \in {"add", "assume", "key", "reset"} -> None(e)
    [] e.op = "solve" -> StepOk(w, p, e, FALSE)
    [] e.op \in {"continue", "end"} -> Error(e, {4})
    [] e.op = "model" -> IF p.ph = "sat" THEN ModelReplyOk(w, p, e) ELSE WrongPhase(p, e, 2)
    [] e.op = "modelfor" -> IF p.ph = "sat"
                            THEN e.r = "data" /\ e.n = Words(Len(e.l)) /\ ForOk(w, p, e.l, e.bits)
                            ELSE WrongPhase(p, e, 2)
    [] e.op = "failed" -> IF p.ph = "unsat" THEN FailedOk(w, p, e) ELSE WrongPhase(p, e, 3)
    [] e.op = "failedfor" -> IF p.ph = "unsat" THEN e.r = "data" /\ FailedForOk(w, p, e.l, e.ls)
                             ELSE WrongPhase(p, e, 3)
    [] e.op = "ext" -> e.r = "data" /\ e.n = 0
    [] OTHER -> FALSE

RqNext(w, p, e) ==
  CASE e.op \in {"bad", "quit", "drop"} \/ e.r \in {"err", "hang"} \/ e.closed -> Closed(p)
    [] e.op = "add" -> [AddSeq(w, Idle(p), e.l, 1, {}) EXCEPT !.mv = MaxLit(e.done, 1, p.mv)]
    [] e.op = "assume" -> [AssumeNext(Idle(p), Range(e.l)) EXCEPT !.mv = MaxLit(e.l, 1, p.mv)]
    [] e.op = "key" -> Idle(p)
    [] e.op = "reset" -> [New(w) EXCEPT !.ph = "idle"]
    [] e.op \in {"solve", "continue", "end"} -> StepNext(p, e)
    [] e.op = "model" -> ModelNext(w, p, e)
    [] e.op = "failed" -> [p EXCEPT !.lastW = <<Range(e.ls)>>]
    [] OTHER -> p
=============================================================================
