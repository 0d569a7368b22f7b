----------------------------------- MODULE Ax -----------------------------------
(***************************************************************************)
(* The assumption exchanger: a service answering solve requests, each under *)
(* its own assumptions, over one set of clauses (a solver record p of      *)
(* IncSat).  A service is a record                                         *)
(*   cap      solves that may run at once                                  *)
(*   rq       the requests ever offered: number -> [l, lim, model, why]    *)
(*   offered  requests in calls which have not returned                    *)
(*   open     accepted and not answered                                    *)
(*   early    answered before the call that offered them was seen to return*)
(*   free     requests whose solve may end (released, or limited)          *)
(*   gone     requests which were not accepted: their call brought an      *)
(*            answer to another one, or nothing                            *)
(*   single   only one call at a time                                      *)
(*   gids     the numbers a request generator gave                         *)
(*   stopped                                                               *)
(***************************************************************************)
EXTENDS IncSat

Service(cap, single) ==
  [cap |-> cap, rq |-> <<>>, offered |-> {}, open |-> {}, early |-> {}, free |-> {}, gone |-> {}, single |-> single,
   stopped |-> FALSE, gids |-> {}]

Request(e) == [l |-> {e.l[k] : k \in DOMAIN e.l}, lim |-> e.lim > 0, model |-> e.model, why |-> e.why]

(* a request e.id made by hand (how = 0) or by a generator, for the assumptions l with the given flags and limit: a  *)
(* generator does not give a number twice, and the request is not changed by what the caller does with its slice     *)
MadeOk(a, e) ==
  /\ e.ms = e.l /\ e.glim = e.lim /\ e.gmodel = e.model /\ e.gwhy = e.why
  /\ <<e.how, e.gid>> \notin a.gids

CallNext(a, e) ==        \* Ex or TryEx with request e.id (0: none)
  IF e.id = 0 THEN a
  ELSE [a EXCEPT !.rq = [k \in DOMAIN @ \union {e.id} |-> IF k = e.id THEN Request(e) ELSE @[k]],
                 !.offered = @ \union {e.id}, !.free = IF e.lim > 0 THEN @ \union {e.id} ELSE @]

(* with a single caller: must an exchange come about? *)
(* of more open requests than can run, some wait; which, is not promised     *)
Must(a, id) == \/ /\ a.open \intersect a.free # {}
                  /\ Cardinality(a.open) <= a.cap \/ Cardinality(a.open \ a.free) < a.cap
               \/ id # 0 /\ Cardinality(a.open) <= a.cap
Accepted(a, id) == IF id \in a.early THEN [a EXCEPT !.offered = @ \ {id}, !.early = @ \ {id}]
                   ELSE [a EXCEPT !.offered = @ \ {id}, !.open = @ \union {id}]
Refused(a, id) == IF id = 0 THEN a ELSE [a EXCEPT !.offered = @ \ {id}, !.gone = @ \union {id}]
Answered(a, id) == IF id \in a.open THEN [a EXCEPT !.open = @ \ {id}] ELSE [a EXCEPT !.early = @ \union {id}]

(* the answer e.re to request e.id of somebody, received by a call *)
Lits(ms) == {ms[k] : k \in DOMAIN ms}
RespModelOk(w, p, a, r, e) ==       \* e.mv: the greatest variable of the clauses
  LET L == Lits(e.ms) IN
  /\ ~Clash(L) /\ 0 \notin L
  /\ \A v \in 1..e.mv : v \in L \/ -v \in L
  /\ \A c \in p.cls : c \intersect L # {}
  /\ r.l \subseteq L
If(c, name) == IF c THEN {} ELSE {name}
RespOk(w, p, a, e) ==
  IF ~((a.stopped /\ e.id \in DOMAIN a.rq) \/ e.id \in a.open \/ (~a.single /\ e.id \in a.offered \ a.early)) THEN {"once"}
  ELSE LET r == a.rq[e.id] IN
    If(e.same, "once")
    \union If(e.r \in {-1, 0, 1} /\ VerdictOk(w, p, r.l, e.r, r.lim /\ e.exp), "verdict")
    \union (IF e.r = 1 /\ r.model THEN If(RespModelOk(w, p, a, r, e), "model") ELSE {})
    \union (IF e.r = -1 /\ r.why THEN If(WhyOk(w, p, r.l, Lits(e.ms)), "why") ELSE {})
    \union If(e.who \in 0..(a.cap - 1), "units")
    \union If(a.single => e.pend = Cardinality(a.open) - 1, "pending")
    \union If(~e.late, "late")

(* the return of a call with request e.id: out is sub, resp or none *)
RetOk(a, e) ==
  /\ e.out \in {"sub", "resp", "none"}
  /\ e.id = 0 => e.out # "sub"
  /\ e.out = "none" /\ ~a.stopped => e.try /\ (a.single => ~Must(a, e.id))
  /\ e.out # "sub" /\ ~a.stopped => e.id \notin a.early \* answered, so it had been taken
RetNext(a, e) == IF e.out = "sub" /\ e.id # 0 THEN Accepted(a, e.id) ELSE Refused(a, e.id)
=============================================================================
