-------------------------------- MODULE AxPlan --------------------------------
(* Every sequence of calls of a client, and of ends of solves, up to a length; *)
(* printed for replay.  sub, try: offer a request; lim: one with a time limit; *)
(* finO, finN: the oldest, newest solve not released yet may end.              *)
EXTENDS Sequences, Naturals, TLC
CONSTANTS Calls
VARIABLES plan, n, f, over
Init == plan = <<>> /\ n = 0 /\ f = 0 /\ over = 0
Enabled(o) == CASE o \in {"finO", "finN"} -> f < n
                [] o \in {"recv", "tryrecv"} -> n > 0
                [] OTHER -> TRUE
Next ==
  /\ Len(plan) < Calls /\ over < 2
  /\ \E o \in {"sub", "try", "lim", "recv", "tryrecv", "finO", "finN", "stop"} :
       /\ Enabled(o) /\ (over = 1 => o \notin {"finO", "finN"})
       /\ plan' = Append(plan, o)
       /\ n' = (IF o \in {"sub", "try"} THEN n + 1 ELSE n)
       /\ f' = (IF o \in {"finO", "finN"} THEN f + 1 ELSE f)
       /\ over' = (IF o = "stop" \/ over = 1 THEN over + 1 ELSE over)
       /\ (Len(plan') = Calls \/ over' = 2) => PrintT(<<"PLAN", plan'>>)
Spec == Init /\ [][Next]_<<plan, n, f, over>>
=============================================================================
