------------------------------- MODULE CmdTrace -------------------------------
(* Trace validation of the gini command: recorded runs of the built program. *)
EXTENDS Cmd, Json, TLC
CONSTANTS TraceFile, Aspects
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, i
vars == <<t, i>>
If(c, name) == IF c THEN {} ELSE {name}
Judge(e) ==
  CASE e.e = "run" -> If(OutOk(e), "out") \union If(ExitOk(e), "exit") \union If(e.ms <= e.by, "time")
    [] e.e = "usage" -> If(e.exit \notin {0, 10, 20} /\ Stated(e) = {}, "exit")
    [] e.e \in {"panic", "crash", "hang"} -> {"live"}
    [] OTHER -> {"driver"}
Init == t \in 1..Len(Traces) /\ i = 1
Next ==
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET bad == Judge(Traces[t].ev[i]) \intersect (Aspects \union {"live", "driver"})
     IN IF bad = {} THEN i' = i + 1
        ELSE PrintT(<<"REJECT", Traces[t].id, i, bad>>) /\ i' = -i
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
