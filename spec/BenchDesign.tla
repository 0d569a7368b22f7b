------------------------------ MODULE BenchDesign ------------------------------
(***************************************************************************)
(* The design of executing an instance: the command runs as a process,     *)
(* which may leave another holding its output; one goroutine copies the    *)
(* output and waits for the process, another watches the limit, kills, and *)
(* records the result; they meet twice over one unbuffered channel.        *)
(*                                                                         *)
(* Bug   "pipes"  the limit kills the process but goes on reading output   *)
(*       "early"  the first goroutine does not wait for the recording      *)
(***************************************************************************)
EXTENDS Naturals
CONSTANTS Bug
VARIABLES main, cap, proc, child, pipe, alarm, code, rec, ends
vars == <<main, cap, proc, child, pipe, alarm, code, rec, ends>>

(* ends: whether the process and its child end by themselves *)
Init == /\ main = "copy" /\ cap = "select" /\ proc = "run" /\ child \in {"none", "run"} /\ pipe = "open"
        /\ alarm = "armed" /\ code = 0 /\ rec = "none" /\ ends \in [p : BOOLEAN, c : BOOLEAN]

Exits == /\ proc = "run" /\ ends.p /\ proc' = "exited" /\ code' \in {0, 10, 20}
         /\ UNCHANGED <<main, cap, child, pipe, alarm, rec, ends>>
ChildExits == /\ child = "run" /\ ends.c /\ child' = "none"
              /\ UNCHANGED <<main, cap, proc, pipe, alarm, code, rec, ends>>
Rings == /\ alarm = "armed" /\ alarm' = "rings"
         /\ UNCHANGED <<main, cap, proc, child, pipe, code, rec, ends>>
Kill == /\ cap = "select" /\ alarm = "rings" /\ alarm' = "off"
        /\ proc' = (IF proc = "run" THEN "killed" ELSE proc)
        /\ pipe' = (IF Bug = "pipes" THEN pipe ELSE "closed")
        /\ UNCHANGED <<main, cap, child, code, rec, ends>>
Copied == /\ main = "copy" /\ (pipe = "closed" \/ (proc # "run" /\ child = "none")) /\ main' = "wait"
          /\ UNCHANGED <<cap, proc, child, pipe, alarm, code, rec, ends>>
Waited == /\ main = "wait" /\ proc # "run" /\ main' = "send"
          /\ UNCHANGED <<cap, proc, child, pipe, alarm, code, rec, ends>>
Meet == /\ main = "send" /\ cap = "select" /\ cap' = "record"
        /\ main' = (IF Bug = "early" THEN "end" ELSE "recv")
        /\ UNCHANGED <<proc, child, pipe, alarm, code, rec, ends>>
Record == /\ cap = "record"
          /\ rec' = (IF proc = "killed" \/ code = 0 THEN "unknown" ELSE IF code = 10 THEN "sat" ELSE "unsat")
          /\ cap' = (IF Bug = "early" THEN "end" ELSE "send")
          /\ UNCHANGED <<main, proc, child, pipe, alarm, code, ends>>
Part == /\ cap = "send" /\ main = "recv" /\ cap' = "end" /\ main' = "end"
        /\ UNCHANGED <<proc, child, pipe, alarm, code, rec, ends>>
Next == Exits \/ ChildExits \/ Rings \/ Kill \/ Copied \/ Waited \/ Meet \/ Record \/ Part
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Exits) /\ WF_vars(ChildExits) /\ WF_vars(Rings) /\ WF_vars(Kill) /\ WF_vars(Copied) /\ WF_vars(Waited)
             /\ WF_vars(Meet) /\ WF_vars(Record) /\ WF_vars(Part)

Recorded == main = "end" => rec # "none"
Right == /\ rec \in {"sat", "unsat"} => proc = "exited" /\ code = (IF rec = "sat" THEN 10 ELSE 20)
         /\ rec = "unknown" => proc = "killed" \/ code = 0
NotLeft == main = "end" => proc # "run"      \* the process is over
Ends == <>(main = "end")
=============================================================================
