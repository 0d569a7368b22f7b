------------------------------- MODULE AxDesign -------------------------------
(***************************************************************************)
(* The design of the assumption exchanger: a client, a serving goroutine   *)
(* which takes requests, hands them to units and passes their answers on,  *)
(* all over unbuffered channels except one box for answers of units.  A    *)
(* unit is created when the last free one is about to be used.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cap, N,      \* units at most, requests
          Stops,       \* the service may be stopped at any time
          OldStop      \* stopping as it once was: the requests end, and the server cancels unit by unit
VARIABLES sub, ans, us, avail, unit, box, srv, hold, del, stopped, cl
vars == <<sub, ans, us, avail, unit, box, srv, hold, del, stopped, cl>>
Units == 1..Cap
Init == /\ sub = 0 /\ ans = <<>> /\ us = 1 /\ avail = {1} /\ unit = [u \in Units |-> 0] /\ box = <<>>
        /\ srv = "select" /\ hold = 0 /\ del = 0 /\ stopped = FALSE /\ cl = "idle"

Call ==
  /\ cl = "idle" /\ ~stopped
  /\ \/ sub < N /\ cl' = "ex"
     \/ Len(ans) < sub /\ cl' = "recv"
  /\ UNCHANGED <<sub, ans, us, avail, unit, box, srv, hold, del, stopped>>
GiveUp ==             \* the client polls
  /\ cl # "idle" /\ cl' = "idle" /\ UNCHANGED <<sub, ans, us, avail, unit, box, srv, hold, del, stopped>>

Dispatch(r, av) ==
  LET grow == us < Cap /\ Cardinality(av) = 1
      all == IF grow THEN av \union {us + 1} ELSE av
  IN \E u \in all : /\ us' = (IF grow THEN us + 1 ELSE us) /\ avail' = all \ {u}
                    /\ unit' = [unit EXCEPT ![u] = r] /\ srv' = "select" /\ hold' = 0
Accept ==
  /\ cl = "ex" /\ srv = "select" /\ (OldStop => ~stopped)
  /\ sub' = sub + 1 /\ cl' = "idle"
  /\ IF avail = {} THEN srv' = "wait" /\ hold' = sub' /\ UNCHANGED <<us, avail, unit>>
     ELSE Dispatch(sub', avail)
  /\ UNCHANGED <<ans, box, del, stopped>>
UnitDone(u) == unit[u] > 0 /\ unit' = [unit EXCEPT ![u] = -@]
               /\ UNCHANGED <<sub, ans, us, avail, box, srv, hold, del, stopped, cl>>
UnitSend(u) == unit[u] < 0 /\ box = <<>> /\ box' = <<u, -unit[u]>> /\ unit' = [unit EXCEPT ![u] = 0]
               /\ UNCHANGED <<sub, ans, us, avail, srv, hold, del, stopped, cl>>
Take ==
  /\ srv \in {"select", "wait"} /\ box # <<>>
  /\ del' = box[2] /\ avail' = avail \union {box[1]} /\ box' = <<>> /\ srv' = "deliver"
  /\ UNCHANGED <<sub, ans, us, unit, hold, stopped, cl>>
Deliver ==
  /\ srv = "deliver" /\ cl # "idle"
  /\ ans' = Append(ans, del) /\ cl' = "idle" /\ del' = 0
  /\ IF hold # 0 THEN Dispatch(hold, avail) ELSE srv' = "select" /\ UNCHANGED <<us, avail, unit, hold>>
  /\ UNCHANGED <<sub, box, stopped>>

Stop == Stops /\ ~stopped /\ stopped' = TRUE /\ UNCHANGED <<sub, ans, us, avail, unit, box, srv, hold, del, cl>>
(* everything that waits also waits for the stop *)
SrvStop == stopped /\ ~OldStop /\ srv # "ended" /\ srv' = "ended"
           /\ UNCHANGED <<sub, ans, us, avail, unit, box, hold, del, stopped, cl>>
UnitStop(u) == stopped /\ ~OldStop /\ unit[u] # 0 /\ unit' = [unit EXCEPT ![u] = 0]
               /\ UNCHANGED <<sub, ans, us, avail, box, srv, hold, del, stopped, cl>>
ClStop == stopped /\ ~OldStop /\ cl # "idle" /\ cl' = "idle" /\ UNCHANGED <<sub, ans, us, avail, unit, box, srv, hold, del, stopped>>
OldShut == OldStop /\ stopped /\ srv = "select" /\ srv' = "shut" /\ hold' = 1
           /\ UNCHANGED <<sub, ans, us, avail, unit, box, del, stopped, cl>>
OldCancel == /\ OldStop /\ srv = "shut"
             /\ IF hold > us THEN srv' = "ended" /\ UNCHANGED <<unit, hold>>
                ELSE unit[hold] > 0 /\ unit' = [unit EXCEPT ![hold] = 0] /\ hold' = hold + 1 /\ UNCHANGED srv
             /\ UNCHANGED <<sub, ans, us, avail, box, del, stopped, cl>>

Server == Accept \/ Take \/ Deliver \/ SrvStop \/ OldShut \/ OldCancel
UnitStep(u) == UnitDone(u) \/ UnitSend(u) \/ UnitStop(u)
Next == Call \/ GiveUp \/ Server \/ ClStop \/ Stop \/ \E u \in Units : UnitStep(u)
(* the client goes on receiving as long as something is due *)
Fair == /\ Init /\ [][Next]_vars /\ WF_vars(Server) /\ SF_vars(Accept) /\ SF_vars(Deliver) /\ WF_vars(ClStop) /\ WF_vars(Call)
        /\ \A u \in Units : WF_vars(UnitStep(u))

Answers == {ans[k] : k \in DOMAIN ans}
Under == ({unit[u] : u \in Units} \union {-unit[u] : u \in Units} \union {hold, del} \union (IF box = <<>> THEN {} ELSE {box[2]})) \intersect (1..N)
Once == Len(ans) = Cardinality(Answers) /\ (srv # "shut" => Answers \intersect Under = {})
Kept == ~stopped => Answers \union Under = 1..sub       \* nothing is lost
AtMost == us <= Cap /\ Cardinality({u \in Units : unit[u] > 0}) <= Cap
FreeUnit == us < Cap => avail # {}                      \* so that an idle one can be copied
IdleFree == \A u \in avail : unit[u] = 0
Serves == \A r \in 1..N : sub >= r ~> (r \in Answers \/ stopped)
StopEnds == stopped ~> (srv = "ended" /\ cl = "idle" /\ \A u \in Units : unit[u] = 0)
=============================================================================
