------------------------------- MODULE BenchPlan -------------------------------
(* Every sequence of calls about one suite of two instances and one name of  *)
(* runs, among them those which must fail; printed for replay on the code.  *)
EXTENDS Sequences, Naturals, TLC
CONSTANTS Calls
VARIABLES plan, mem          \* mem: the latest handle knows a run of that name
Ops == {"create", "link", "open", "runr1", "do0r1", "do1r1", "remover1"}
Init == plan \in {<<"create">>, <<"link">>} /\ mem = FALSE
Next == /\ Len(plan) < Calls
        /\ \E o \in Ops :
             /\ o \in {"do0r1", "do1r1"} => mem \/ \E k \in DOMAIN plan : plan[k] = "runr1"
             /\ plan' = Append(plan, o)
             /\ mem' = (IF o = "runr1" THEN TRUE ELSE IF o = "remover1" THEN FALSE ELSE mem)
             /\ IF Len(plan') = Calls THEN PrintT(<<"PLAN", plan'>>) ELSE TRUE
Spec == Init /\ [][Next]_<<plan, mem>>
=============================================================================
