------------------------------ MODULE CrispPlan ------------------------------
(* Every short sequence of requests in every phase of a connection, up to the *)
(* one that ends it, printed for replay against the real server.  The phases  *)
(* are those of Crisp; "any" stands for the answer of a solve that ends.      *)
EXTENDS Sequences, Naturals, TLC
CONSTANTS Requests
VARIABLES plan, ph
Phases == {"idle", "run", "sat", "unsat", "end"}
Bad == {"bad0", "bad1", "bad2", "bad3", "bad4"}
Ops == {"add", "addx", "assume", "solve", "continue", "end", "model", "modelfor", "failed", "failedfor", "ext", "key",
        "reset", "quit", "drop", "fin"} \union Bad
Gone == {"quit", "drop", "fin"} \union Bad
After(p, a) ==
  IF a \in Gone THEN "closed"
  ELSE IF p = "run" THEN (CASE a = "continue" -> "run" [] a = "end" -> "end" [] OTHER -> "closed")
  ELSE CASE a \in {"add", "addx", "assume", "key", "reset"} -> "idle"
         [] a = "solve" -> "any"
         [] a \in {"continue", "end"} -> "closed"
         [] a \in {"model", "modelfor"} -> IF p \in {"sat", "any"} THEN p ELSE "closed"
         [] a \in {"failed", "failedfor"} -> IF p \in {"unsat", "any"} THEN p ELSE "closed"
         [] OTHER -> p
Init == \E p \in Phases : plan = <<p>> /\ ph = p
Next == /\ ph # "closed" /\ Len(plan) <= Requests
        /\ \E a \in Ops : plan' = Append(plan, a) /\ ph' = After(ph, a)
        /\ (ph' = "closed" \/ Len(plan') > Requests) => PrintT(<<"PLAN", plan'>>)
Spec == Init /\ [][Next]_<<plan, ph>>
=============================================================================
