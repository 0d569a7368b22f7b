-------------------------------- MODULE AxTrace --------------------------------
(* Trace validation of the assumption exchanger against Ax. *)
EXTENDS Ax, Json, TLC
CONSTANTS TraceFile, Aspects
Traces == ndJsonDeserialize(TraceFile)
SW == [n \in 1..9 |-> SmallWorld(n)]
VARIABLES t, i, p, a
vars == <<t, i, p, a>>
World == IF Traces[t].big THEN WitWorld(Traces[t].nv, Traces[t].wit) ELSE SW[Traces[t].nv]
Ok == <<{}, p, a>>

Step(w, e) ==
  CASE e.e = "add" -> <<{}, AddNext(w, p, Lits(e.c)), a>>
    [] e.e = "axnew" -> <<{}, p, Service(e.cap, e.single)>>
    [] e.e = "axgen" -> <<If(e.model /\ e.why, "request"), p, a>>    \* a new generator asks for both
    [] e.e = "axreq" -> <<If(MadeOk(a, e), "request"), p, [a EXCEPT !.gids = @ \union {<<e.how, e.gid>>}]>>
    [] e.e = "axcall" -> <<{}, p, CallNext(a, e)>>
    [] e.e = "axresp" -> <<RespOk(w, p, a, e), p, Answered(a, e.id)>>
    [] e.e = "axret" -> <<If(RetOk(a, e), "exchange"), p, RetNext(a, e)>>
    [] e.e = "axfin" -> <<{}, p, [a EXCEPT !.free = @ \union {e.id}]>>
    [] e.e = "axblock" -> <<If(~a.stopped /\ a.single /\ ~Must(a, e.id), "exchange"), p, a>>   \* a call that did not return in time
    [] e.e = "axload" -> <<If(e.run <= a.cap, "load") \union If(e.busy = 0, "busy"), p, a>>
    [] e.e = "axdone" -> <<If(a.open = {} /\ a.offered = {}, "once"), p, a>>         \* nothing more is going to come
    [] e.e = "axkept" -> <<If(e.ok, "stable"), p, a>>      \* requests and answers stay what they were
    [] e.e = "axstopping" -> <<{}, p, [a EXCEPT !.stopped = TRUE]>>
    [] e.e = "axstop" -> <<If(e.ok, "stop"), p, a>>
    [] e.e = "axquiet" -> <<If(e.ok, "stop"), p, a>>
    [] e.e \in {"panic", "crash", "hang"} -> <<{"live"}, p, a>>
    [] OTHER -> <<{"driver"}, p, a>>

Init == t \in 1..Len(Traces) /\ i = 1 /\ p = New(World) /\ a = Service(1, TRUE)
Next ==
  /\ i > 0 /\ i <= Len(Traces[t].ev) /\ UNCHANGED t
  /\ LET s == Step(World, Traces[t].ev[i])
         bad == s[1] \intersect (Aspects \union {"live", "driver"})
     IN IF bad = {} THEN p' = s[2] /\ a' = s[3] /\ i' = i + 1
        ELSE PrintT(<<"REJECT", Traces[t].id, i, bad>>) /\ i' = -i /\ UNCHANGED <<p, a>>
Spec == Init /\ [][Next]_vars
=============================================================================
