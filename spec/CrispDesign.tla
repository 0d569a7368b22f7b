------------------------------ MODULE CrispDesign ------------------------------
(***************************************************************************)
(* The design of a CRISP session: a client whose calls are written to a    *)
(* buffered stream, solves which are driven by polling (the server answers *)
(* unknown until there is a result, the client continues or ends), a       *)
(* background solve stopped or tested through unbuffered channels, and a   *)
(* server handling one request after the other over a solver running       *)
(* concurrently.  The connection may break at any time.                    *)
(*                                                                         *)
(* cn, sn    number of clauses given by the client / known to the server   *)
(* csol, ssol  number of solves, tying models and failed assumptions to    *)
(*           the solve they are about                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Calls,     \* calls of the user
          Finishes,  \* whether the solver finds results
          Cuts,      \* whether the connection may break
          OldStop    \* the protocol of Stop as it once was: cancel first, then wait for the result

VARIABLES n, upc, wpc, sent, res, cproto, clast, cn, csol, buf,     \* client
          c2s, s2c, conn,                                           \* connection
          sproto, adding, srun, sres, sn, asn, ssol, bad             \* server, solver
cl == <<n, upc, wpc, sent, res, cproto, clast, cn, csol, buf>>
cx == <<c2s, s2c, conn>>
sv == <<sproto, adding, srun, sres, sn, asn, ssol>>
vars == <<cl, cx, sv, bad>>

Init ==
  /\ n = Calls /\ upc = "idle" /\ wpc = "off" /\ sent = FALSE /\ res = <<>> /\ cproto = "none" /\ clast = 0 /\ cn = 0 /\ csol = 0
  /\ buf = <<>> /\ c2s = <<>> /\ s2c = <<>> /\ conn = "up"
  /\ sproto = "none" /\ adding = FALSE /\ srun = "off" /\ sres = 0 /\ sn = 0 /\ asn = 0 /\ ssol = 0 /\ bad = {}

(* ------------------------------------------------------------- the client *)
CloseLen == IF cproto = "add" THEN <<"end">> ELSE <<>>
Up == conn = "up"
Call == upc = "idle" /\ n > 0 /\ n' = n - 1
Dead == upc' = "dead" /\ UNCHANGED <<wpc, sent, res, cproto, clast, cn, csol, buf, cx, sv, bad>>

UserAdd ==
  /\ Call
  /\ \/ Up /\ buf' = buf \o (IF cproto = "add" THEN <<"cls">> ELSE <<"add", "cls">>)
        /\ cproto' = "add" /\ clast' = 0 /\ cn' = cn + 1
        /\ UNCHANGED <<upc, wpc, sent, res, csol, cx, sv, bad>>
     \/ ~Up /\ Dead
UserSolve(async) ==
  /\ Call
  /\ \/ Up /\ c2s' = c2s \o buf \o CloseLen \o <<"solve">> /\ buf' = <<>>
        /\ cproto' = "solve" /\ clast' = 0 /\ csol' = csol + 1
        /\ upc' = (IF async THEN "async" ELSE "sync") /\ wpc' = "read" /\ sent' = FALSE /\ res' = <<>>
        /\ UNCHANGED <<cn, s2c, conn, sv, bad>>
     \/ ~Up /\ Dead
UserAsk(q) ==         \* model (1) or failed assumptions (2)
  /\ Call
  /\ IF clast # q THEN UNCHANGED <<upc, wpc, sent, res, cproto, clast, cn, csol, buf, cx, sv, bad>>     \* refused here
     ELSE \/ Up /\ c2s' = c2s \o buf \o CloseLen \o <<IF q = 1 THEN "model" ELSE "failed">> /\ buf' = <<>>
                /\ cproto' = "ask" /\ upc' = "data"
                /\ UNCHANGED <<wpc, sent, res, clast, cn, csol, s2c, conn, sv, bad>>
          \/ ~Up /\ Dead
UserReset ==
  /\ Call
  /\ \/ Up /\ c2s' = c2s \o buf \o CloseLen \o <<"reset">> /\ buf' = <<>>
        /\ cproto' = "none" /\ clast' = 0 /\ cn' = 0
        /\ UNCHANGED <<upc, wpc, sent, res, csol, s2c, conn, sv, bad>>
     \/ ~Up /\ Dead
UserData ==           \* the reply to model and failed
  /\ upc = "data"
  /\ IF s2c # <<>>
     THEN /\ bad' = bad \union (IF Head(s2c)[1] = "data" THEN {} ELSE {"reply"})
                        \union (IF Head(s2c)[1] = "data" /\ (Head(s2c)[2] # csol \/ Head(s2c)[3] # cn) THEN {"stale"} ELSE {})
          /\ s2c' = Tail(s2c) /\ upc' = "idle"
     ELSE /\ ~Up /\ upc' = "dead" /\ UNCHANGED <<bad, s2c>>
  /\ UNCHANGED <<n, wpc, sent, res, cproto, clast, cn, csol, buf, c2s, conn, sv>>

(* the result of the solve reaches the user *)
Take ==
  /\ upc' = IF res[1] = "error" THEN "dead" ELSE "idle"
  /\ wpc' = "off"
  /\ bad' = bad \union (IF res[1] \in {"sat", "unsat"} /\ (res[2] # csol \/ res[3] # cn) THEN {"answer"} ELSE {})
  /\ UNCHANGED <<n, sent, res, cproto, clast, cn, csol, buf, cx, sv>>
UserSync == upc = "sync" /\ wpc = "deliver" /\ Take
UserTest ==
  /\ upc = "async" /\ n > 0
  /\ IF wpc = "deliver" THEN Take
     ELSE n' = n - 1 /\ UNCHANGED <<upc, wpc, sent, res, cproto, clast, cn, csol, buf, cx, sv, bad>>
UserStop ==
  /\ upc = "async" /\ upc' = "stop"
  /\ UNCHANGED <<n, wpc, sent, res, cproto, clast, cn, csol, buf, cx, sv, bad>>
UserStopped == upc \in (IF OldStop THEN {"stopped"} ELSE {"stop", "stopped"}) /\ wpc = "deliver" /\ Take

(* the solve: reading an answer, then continuing or ending *)
WorkerRead ==
  /\ wpc = "read"
  /\ IF s2c = <<>> THEN /\ ~Up /\ wpc' = "deliver" /\ res' = <<"error">> /\ UNCHANGED <<clast, s2c, bad>>
     ELSE LET m == Head(s2c) IN
       /\ s2c' = Tail(s2c)
       /\ CASE m[1] = "unknown" -> /\ bad' = bad \union (IF sent THEN {"unknown after end"} ELSE {})
                                   /\ wpc' = "select" /\ UNCHANGED <<res, clast>>
            [] m[1] \in {"sat", "unsat", "ended"} ->
                 /\ wpc' = "deliver" /\ res' = m /\ UNCHANGED bad
                 /\ clast' = CASE m[1] = "sat" -> 1 [] m[1] = "unsat" -> 2 [] OTHER -> 0
            [] OTHER -> wpc' = "deliver" /\ res' = <<"error">> /\ bad' = bad \union {"reply"} /\ UNCHANGED clast
  /\ UNCHANGED <<n, upc, sent, cproto, cn, csol, buf, c2s, conn, sv>>
WorkerSelect ==
  /\ wpc = "select"
  /\ IF ~Up THEN wpc' = "deliver" /\ res' = <<"error">> /\ UNCHANGED <<upc, sent, c2s>>
     ELSE IF upc = "stop" /\ ~sent       \* the user waits in Stop: cancelled
          THEN upc' = "stopped" /\ sent' = TRUE /\ c2s' = Append(c2s, "end") /\ wpc' = "read" /\ UNCHANGED res
          ELSE c2s' = Append(c2s, "continue") /\ sent' = FALSE /\ wpc' = "read" /\ UNCHANGED <<upc, res>>
  /\ UNCHANGED <<n, cproto, clast, cn, csol, buf, s2c, conn, sv, bad>>

(* ------------------------------------------------------------- the server *)
Reply(m) == s2c' = IF Up THEN Append(s2c, m) ELSE s2c
Answer(ending) ==
  IF srun = "done" THEN /\ Reply(<<IF sres = 1 THEN "sat" ELSE "unsat", ssol, asn>>)
                        /\ sproto' = (IF sres = 1 THEN "sat" ELSE "unsat") /\ srun' = "off"
  ELSE IF ending THEN Reply(<<"ended">>) /\ sproto' = "end" /\ srun' = "off"
  ELSE Reply(<<"unknown">>) /\ sproto' = "solve" /\ UNCHANGED srun
Refuse == bad' = bad \union {"refused"} /\ UNCHANGED <<sv, s2c>>
Server ==
  /\ c2s # <<>> /\ c2s' = Tail(c2s) /\ UNCHANGED <<cl, conn>>
  /\ LET op == Head(c2s) IN
     CASE adding -> /\ op \in {"cls", "end"} /\ UNCHANGED <<sproto, srun, sres, asn, ssol, s2c, bad>>
                    /\ IF op = "cls" THEN sn' = sn + 1 /\ UNCHANGED adding ELSE adding' = FALSE /\ UNCHANGED sn
       [] ~adding /\ sproto = "solve" ->
            IF op \in {"continue", "end"} THEN Answer(op = "end") /\ UNCHANGED <<adding, sres, sn, asn, ssol, bad>> ELSE Refuse
       [] ~adding /\ sproto # "solve" ->
            CASE op = "add" -> adding' = TRUE /\ sproto' = "add" /\ UNCHANGED <<srun, sres, sn, asn, ssol, s2c, bad>>
              [] op = "reset" -> sn' = 0 /\ sproto' = "none" /\ UNCHANGED <<adding, srun, sres, asn, ssol, s2c, bad>>
              [] op = "solve" -> /\ srun' = "running" /\ ssol' = ssol + 1 /\ asn' = sn /\ Reply(<<"unknown">>) /\ sproto' = "solve"
                                 /\ UNCHANGED <<adding, sres, sn, bad>>
              [] op = "model" -> IF sproto = "sat" THEN Reply(<<"data", ssol, sn>>) /\ UNCHANGED <<sv, bad>> ELSE Refuse
              [] op = "failed" -> IF sproto = "unsat" THEN Reply(<<"data", ssol, sn>>) /\ UNCHANGED <<sv, bad>> ELSE Refuse
              [] OTHER -> Refuse
ServerGone ==         \* reading fails: the solve is ended, the handler is free again
  /\ ~Up /\ c2s = <<>> /\ sproto # "gone"
  /\ sproto' = "gone" /\ srun' = "off" /\ UNCHANGED <<cl, cx, adding, sres, sn, asn, ssol, bad>>
Solver ==
  /\ Finishes /\ srun = "running" /\ srun' = "done" /\ sres' \in {1, 2}
  /\ UNCHANGED <<cl, cx, sproto, adding, sn, asn, ssol, bad>>
Cut == Cuts /\ Up /\ conn' = "cut" /\ UNCHANGED <<cl, c2s, s2c, sv, bad>>

Client == UserAdd \/ UserSolve(TRUE) \/ UserSolve(FALSE) \/ UserAsk(1) \/ UserAsk(2) \/ UserReset
Done == (n = 0 /\ upc = "idle") \/ upc = "dead"
Rest == Done /\ UNCHANGED vars
Next == Client \/ UserData \/ UserSync \/ UserTest \/ UserStop \/ UserStopped \/ WorkerRead \/ WorkerSelect \/ Server \/ ServerGone
        \/ Solver \/ Cut \/ Rest
Fair == /\ Init /\ [][Next]_vars
        /\ WF_vars(UserData) /\ WF_vars(UserSync) /\ WF_vars(UserStopped) /\ WF_vars(WorkerRead) /\ WF_vars(WorkerSelect)
        /\ WF_vars(Server) /\ WF_vars(ServerGone) /\ WF_vars(Solver)

Good == bad = {}      \* no request is refused, no reply is misunderstood, answers are about the solve and problem asked about
OneAtATime == Len(s2c) <= 1 \/ ~Up
InStep == c2s = <<>> /\ buf = <<>> /\ Up => sn = cn          \* nothing under way: the same problem on both sides
StopReturns == upc \in {"stop", "stopped"} ~> upc \in {"idle", "dead"}
SyncReturns == Finishes => (upc = "sync" ~> upc \in {"idle", "dead"})
DataReturns == upc = "data" ~> upc \in {"idle", "dead"}
Ends == ~Up ~> srun # "running"
=============================================================================
