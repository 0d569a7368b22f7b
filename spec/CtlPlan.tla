-------------------------------- MODULE CtlPlan --------------------------------
(* Every legal sequence of calls on a connection, with the phase of the solve *)
(* they are meant to meet, printed for replay against the real code.          *)
EXTENDS Sequences, Naturals, TLC
CONSTANTS Calls
VARIABLES plan, over
Mid == {"test", "pause", "nap"}
Last == {"stop", "try", "trynow", "wait"}
Problem == {"easy", "mid", "hard"}
Init == plan \in {<<q>> : q \in Problem} /\ over = FALSE
Next == /\ ~over
        /\ \/ Len(plan) <= Calls /\ \E a \in Mid : plan' = Append(plan, a) /\ UNCHANGED over
           \/ \E a \in Last : /\ plan[1] = "hard" => a \notin {"wait", "try"}
                              /\ plan' = Append(plan, a) /\ over' = TRUE
                              /\ PrintT(<<"PLAN", plan'>>)
Spec == Init /\ [][Next]_<<plan, over>>
=============================================================================
