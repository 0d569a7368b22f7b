------------------------------ MODULE DimacsTrace ------------------------------
(* Trace validation of package dimacs.  Every event is judged by itself. *)
EXTENDS Dimacs, Json, TLC
CONSTANTS TraceFile, Aspects
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, i
vars == <<t, i>>
If(c, name) == IF c THEN {} ELSE {name}

Outcome(e, st, callsOk) ==
  IF e.r \in {"panic", "hang"} THEN {"live"}
  ELSE IF e.fail \/ st = Bad THEN If(e.r = "err", "reject")
  ELSE IF e.r = "err" THEN If(st # Ok, "read")
  ELSE If(st = Free \/ callsOk, "read")

Judge(e) ==
  CASE e.e = "cnf" -> LET f == Cnf(e.by, e.strict) IN Outcome(e, f.st, CnfCalls(f, e.calls))
    [] e.e = "icnf" -> LET f == Icnf(e.by) IN Outcome(e, f.st, e.calls = f.calls)
    [] e.e = "sol" -> LET f == Sol(e.by) IN Outcome(e, f.st, e.calls = f.calls)
    [] e.e = "panic" -> {"live"}
    [] OTHER -> {"driver"}

Init == t \in 1..Len(Traces) /\ i = 1
Next ==
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET bad == Judge(Traces[t].ev[i]) \intersect (Aspects \union {"live", "driver"})
     IN IF bad = {} THEN i' = i + 1
        ELSE PrintT(<<"REJECT", Traces[t].id, i, bad>>) /\ i' = -i
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
