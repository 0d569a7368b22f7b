----------------------------- MODULE VarMapDesign -----------------------------
(***************************************************************************)
(* The design of the map (two vectors and a stack of freed variables,      *)
(* outer variables mapped in ascending order on first use), checked        *)
(* exhaustively to answer only what VarMap allows.  Every call sequence is *)
(* printed for replay on the real code when Show is set.                  *)
(***************************************************************************)
EXTENDS VarMap, TLC
CONSTANTS Calls, Outers, Show

VARIABLES i2o, o2i, stack, \* the design; index k+1 holds variable k
          p, ok,           \* what was observed, and whether all of it was allowed
          plan

Init == i2o = <<0>> /\ o2i = <<0>> /\ stack = <<>> /\ p = VNew /\ ok = TRUE /\ plan = <<>>

RECURSIVE EnsureOuter(_, _, _)
EnsureOuter(i, o, u) ==
  IF Len(o) > u THEN <<i, o>> ELSE EnsureOuter(Append(i, Len(o)), Append(o, Len(i)), u)
RECURSIVE EnsureInner(_, _)
EnsureInner(i, w) == IF Len(i) > w THEN i ELSE EnsureInner(Append(i, 0), w)

ToInner(v) ==
  LET e == EnsureOuter(i2o, o2i, v)
      r == e[2][v + 1]
  IN /\ i2o' = e[1] /\ o2i' = e[2] /\ UNCHANGED stack
     /\ ok' = (ok /\ InOk(p, v, r)) /\ p' = InNext(p, v, r)
     /\ plan' = Append(plan, <<"in", v>>)
ToOuter(w) ==
  LET i == EnsureInner(i2o, w)
      r == i[w + 1]
  IN /\ i2o' = i /\ UNCHANGED <<o2i, stack>>
     /\ ok' = (ok /\ OutOk(p, w, r)) /\ p' = OutNext(p, w, r)
     /\ plan' = Append(plan, <<"out", w>>)
Inner ==
  LET r == IF stack # <<>> THEN stack[Len(stack)] ELSE Len(i2o)
  IN /\ IF stack # <<>> THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED i2o
        ELSE i2o' = Append(i2o, 0) /\ UNCHANGED stack
     /\ UNCHANGED o2i
     /\ ok' = (ok /\ InnerOk(p, r)) /\ p' = InnerNext(p, r)
     /\ plan' = Append(plan, <<"inner", 0>>)
Free ==
  \E k \in 1..Cardinality(p.inn) :
    LET v == CHOOSE x \in p.inn : Cardinality({y \in p.inn : y <= x}) = k
    IN /\ stack' = Append(stack, v) /\ UNCHANGED <<i2o, o2i>>
       /\ ok' = (ok /\ FreeOk(p, v)) /\ p' = FreeNext(p, v)
       /\ plan' = Append(plan, <<"free", k>>)     \* the k-th of those allocated

Next ==
  /\ Len(plan) < Calls
  /\ \/ \E v \in 0..Outers : ToInner(v)
     \/ \E w \in 0..(Outers + 1) : ToOuter(w)
     \/ Inner \/ Free
  /\ (Show /\ Len(plan') = Calls) => PrintT(<<"PLAN", plan'>>)

vars == <<i2o, o2i, stack, p, ok, plan>>
Spec == Init /\ [][Next]_vars
NoPlan == <<i2o, o2i, stack, p, ok, Len(plan)>>
Good == ok /\ Coherent(p)
=============================================================================
