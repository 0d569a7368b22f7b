--------------------------------- MODULE Conn ---------------------------------
(***************************************************************************)
(* The connection to an asynchronous solve as its user sees it: c is       *)
(* "none", "run" or "paused"; e is a call with what it returned:           *)
(*   op   test | pause | unpause | wait | stop | try                       *)
(*   fin  whether it delivered the result of the solve, r that result      *)
(*   exp  whether the time limit of try had passed                         *)
(* Used by Ctl (the design of the rendezvous) and IncTrace (recorded       *)
(* executions).                                                            *)
(***************************************************************************)
ConnOk(c, e) ==
  CASE e.op = "unpause" -> c = "paused" /\ ~e.fin
    [] e.op \in {"test", "pause"} -> c = "run" /\ (e.fin <=> e.r # 0)
    [] e.op = "wait" -> c = "run" /\ e.fin /\ e.r # 0
    [] e.op = "stop" -> c = "run" /\ e.fin
    [] e.op = "try" -> c = "run" /\ e.fin /\ (e.r = 0 => e.exp)
    [] OTHER -> FALSE

ConnNext(c, e) ==
  IF e.fin THEN "none"
  ELSE CASE e.op = "pause" -> "paused"
         [] e.op = "unpause" -> "run"
         [] OTHER -> c

(* whether the result may be unknown *)
ConnUnknown(e) == e.op = "stop" \/ (e.op = "try" /\ e.exp)
=============================================================================
