---------------------------------- MODULE Ctl ----------------------------------
(***************************************************************************)
(* The design of asynchronous solving: a user and a solving goroutine that *)
(* meet over two unbuffered channels, cStopOrPause and cResult, and a lock *)
(* the solver holds while it searches and gives up while it is paused.     *)
(* A rendezvous is one step of both.  The user makes any legal sequence of *)
(* calls over several solves; everything a call returns is judged by Conn. *)
(***************************************************************************)
EXTENDS Naturals, Conn
CONSTANTS Rounds,      \* solves
          Calls,       \* calls other than the last per solve
          Finishes     \* whether solves may finish by themselves

VARIABLES sv,      \* idle, start, run, unpausing, send
          res,     \* what sv sends
          us,      \* free, or the call the user is blocked in
          lock,    \* free, solver, user
          conn, rounds, calls,
          good     \* everything observed so far was allowed
vars == <<sv, res, us, lock, conn, rounds, calls, good>>

Init == /\ sv = "idle" /\ res = 0 /\ us = "free" /\ lock = "free" /\ conn = "none"
        /\ rounds = Rounds /\ calls = 0 /\ good = TRUE

Obs(op, r, fin, exp) ==
  LET e == [op |-> op, r |-> r, fin |-> fin, exp |-> exp]
  IN good' = (good /\ ConnOk(conn, e)) /\ conn' = ConnNext(conn, e)

(* ------------------------------------------------------------- the user *)
GoSolve == /\ us = "free" /\ conn = "none" /\ rounds > 0
           /\ rounds' = rounds - 1 /\ calls' = Calls
           /\ sv' = "start" /\ conn' = "run"
           /\ UNCHANGED <<res, us, lock, good>>
Call == /\ us = "free" /\ conn = "run"
        /\ \/ calls > 0 /\ calls' = calls - 1 /\ us' \in {"test", "pause"}
           \/ calls' = 0 /\ us' \in {"stop", "try"} \union (IF Finishes THEN {"wait"} ELSE {})
        /\ UNCHANGED <<sv, res, lock, conn, rounds, good>>
TestNo == /\ us = "test" /\ sv # "send"          \* the default branch of the select
          /\ us' = "free" /\ Obs("test", 0, FALSE, FALSE)
          /\ UNCHANGED <<sv, res, lock, rounds, calls>>
Alarm == us = "try" /\ us' = "tstop" /\ UNCHANGED <<sv, res, lock, conn, rounds, calls, good>>
ReadPaused == /\ us = "free" /\ conn = "paused" /\ lock = "free" /\ lock' = "user"
              /\ UNCHANGED <<sv, res, us, conn, rounds, calls, good>>
ReadDone == lock = "user" /\ lock' = "free" /\ UNCHANGED <<sv, res, us, conn, rounds, calls, good>>
Unpause1 == /\ us = "free" /\ conn = "paused" /\ lock = "free"
            /\ lock' = "solver" /\ us' = "unpause"
            /\ UNCHANGED <<sv, res, conn, rounds, calls, good>>
PauseUnlock == /\ us = "pausing" /\ us' = "free" /\ lock' = "free"
               /\ Obs("pause", 0, FALSE, FALSE)
               /\ UNCHANGED <<sv, res, rounds, calls>>
User == GoSolve \/ Call \/ TestNo \/ Alarm \/ ReadPaused \/ ReadDone \/ Unpause1 \/ PauseUnlock

(* ------------------------------------------------------------ the solver *)
Begin == /\ sv = "start" /\ lock = "free" /\ sv' = "run" /\ lock' = "solver"
         /\ UNCHANGED <<res, us, conn, rounds, calls, good>>
Finish == /\ Finishes /\ sv = "run" /\ sv' = "send" /\ res' = 1 /\ lock' = "free"
          /\ UNCHANGED <<us, conn, rounds, calls, good>>

(* ------------------------------------------------------------ rendezvous *)
TickStop == /\ sv = "run" /\ us \in {"stop", "tstop"}
            /\ sv' = "send" /\ res' = 0 /\ lock' = "free"
            /\ us' = IF us = "stop" THEN "stopping" ELSE "tstopping"
            /\ UNCHANGED <<conn, rounds, calls, good>>
TickPause == /\ sv = "run" /\ us = "pause" /\ sv' = "unpausing" /\ us' = "pausing"
             /\ UNCHANGED <<res, lock, conn, rounds, calls, good>>
TickUnpause == /\ sv = "unpausing" /\ us = "unpause" /\ sv' = "run" /\ us' = "free"
               /\ Obs("unpause", 0, FALSE, FALSE)
               /\ UNCHANGED <<res, lock, rounds, calls>>
Op == CASE us \in {"stop", "stopping"} -> "stop"
        [] us \in {"try", "tstop", "tstopping"} -> "try"
        [] OTHER -> us
Result == /\ sv = "send" /\ us \in {"test", "pause", "wait", "stop", "stopping", "try", "tstop", "tstopping"}
          /\ sv' = "idle" /\ us' = "free"
          /\ Obs(Op, res, TRUE, us \in {"tstop", "tstopping"})
          /\ UNCHANGED <<res, lock, rounds, calls>>

Solver == Begin \/ TickStop \/ TickPause \/ TickUnpause \/ Result
Done == us = "free" /\ conn = "none" /\ rounds = 0 /\ UNCHANGED vars
Next == User \/ Solver \/ Finish \/ Done

Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(User) /\ SF_vars(Unpause1) /\ WF_vars(Begin) /\ WF_vars(TickStop) /\ WF_vars(TickPause)
             /\ WF_vars(TickUnpause) /\ WF_vars(Result) /\ WF_vars(Finish) /\ WF_vars(Alarm)

Good == good
Locked == (sv = "run" => lock = "solver") /\ (lock = "user" => sv = "unpausing")
OneResult == conn = "none" => sv = "idle"
Returns == (us # "free") ~> (us = "free")
Ends == <>(rounds = 0 /\ conn = "none" /\ us = "free")
=============================================================================
