------------------------------ MODULE AigerTrace ------------------------------
(* Trace validation of package aiger.  Every event is judged by itself. *)
EXTENDS Aiger, Json, TLC
CONSTANTS TraceFile, Aspects
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, i
vars == <<t, i>>
If(c, name) == IF c THEN {} ELSE {name}
Lanes(n) == 0..(n - 1)

Flip(s) == [k \in DOMAIN s |-> -s[k]]

Write(e) ==
  LET f == Parse(e.by, e.bin)
  IN IF f.st = "bad" THEN {"write"}
     ELSE If(Meets(f, e.obj, e.pats, Lanes(e.lanes)), "write")
          \union (IF f.inits = ObjInits(e.obj) THEN {}
                  ELSE IF e.bin /\ f.inits = Flip(ObjInits(e.obj)) THEN {"bininit"} ELSE {"write"})

Read(e) ==
  LET f == Parse(e.by, e.bin)
  IN IF e.fail THEN If(e.r = "err", "reject")
     ELSE IF f.st = "bad" THEN If(e.r = "err", "reject")
     ELSE IF e.r = "err" THEN If(f.st = "any" /\ ~e.own, "read")
     ELSE If(Meets(f, e.obj, e.pats, Lanes(e.lanes)) /\ f.inits = ObjInits(e.obj), "read")

Judge(e) ==
  CASE e.e = "write" -> Write(e)
    [] e.e = "read" -> IF e.r \in {"panic", "hang"} THEN {"live"} ELSE Read(e)
    [] e.e = "copy" -> If(/\ ObjShape(e.obj2)
                          /\ ObjMeaning(e.obj, e.pats, Lanes(e.lanes)) = ObjMeaning(e.obj2, e.pats, Lanes(e.lanes))
                          /\ ObjInits(e.obj) = ObjInits(e.obj2), "copy")
    [] e.e = "name" -> If(e.ok = (e.i >= 0 /\ e.i < e.n /\ ~e.nl), "name")
    [] e.e = "full" -> If(e.err = (e.k < e.n), "werr")   \* a destination with room for k of n bytes
    [] e.e = "panic" -> {"live"}
    [] OTHER -> {"driver"}

Init == t \in 1..Len(Traces) /\ i = 1
Next ==
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET bad == Judge(Traces[t].ev[i]) \intersect (Aspects \union {"live", "driver"})
     IN IF bad = {} THEN i' = i + 1
        ELSE IF bad = {"bininit"} THEN PrintT(<<"NOTE", Traces[t].id, i, bad>>) /\ i' = i + 1
        ELSE PrintT(<<"REJECT", Traces[t].id, i, bad>>) /\ i' = -i
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
