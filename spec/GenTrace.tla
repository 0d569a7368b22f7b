------------------------------- MODULE GenTrace -------------------------------
(* Trace validation of package gen.  The conn events of a stand-in solver    *)
(* are judged with the state of its connection, the others by themselves.    *)
EXTENDS Gen, Conn, Json, TLC
CONSTANTS TraceFile, Aspects
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, i, conn
vars == <<t, i, conn>>
If(c, name) == IF c THEN {} ELSE {name}

(* e.all: judged over all assignments of the named variables, otherwise over *)
(* those recorded                                                            *)
Cases(e, named) == IF e.all THEN SUBSET named ELSE {Range(e.as[k]) : k \in DOMAIN e.as}

Judge(e) ==
  CASE e.e = "php" ->
         If(/\ GMatrix(e.v, e.p, e.h) /\ GVarsOf(e.cl) \subseteq GNamed(e.v)
            /\ \A A \in Cases(e, GNamed(e.v)) : PhpOk(e.v, e.cl, A), "gen")
    [] e.e = "part" ->
         If(/\ GMatrix(e.v, e.n, e.k) /\ GVarsOf(e.cl) \subseteq GNamed(e.v)
            /\ \A A \in Cases(e, GNamed(e.v)) : GHolds(A, e.cl) <=> IsPart(e.v, A), "gen")
    [] e.e = "py" ->
         If(/\ GMatrix(e.v, e.n, e.k) /\ GVarsOf(e.cl) \subseteq GNamed(e.v)
            /\ \A A \in Cases(e, GNamed(e.v)) :
                 GHolds(A, e.cl) <=> (IsPart(e.v, A) /\ (e.n > 0 /\ e.k > 0 => NoTriple(e.v, e.n, A))), "gen")
    [] e.e = "py2" ->
         IF /\ GVarsOf(e.cl) \subseteq 1..e.n
            /\ \A A \in Cases(e, 1..e.n) : GHolds(A \intersect (1..e.n), e.cl) <=> NoTriple2(e.n, A) THEN {}
         ELSE IF KnownPy2(e.n, e.cl) THEN {"py2"} ELSE {"gen"}
    [] e.e = "color" ->
         IF e.m > (e.n * (e.n - 1)) \div 2 THEN {} ELSE If(ColourOk(e.n, e.m, e.k, e.cl), "gen")
    [] e.e = "graph" ->
         IF e.m > (e.n * (e.n - 1)) \div 2 THEN If(e.nil, "gen") ELSE If(~e.nil /\ GraphOk(e.n, e.m, e.g), "gen")
    [] e.e = "graphs" ->         \* neighbours seen in many graphs
         If(\A a \in 1..e.n : Range(e.g[a]) = (0..(e.n - 1)) \ {a - 1}, "gen")
    [] e.e = "rand" -> If(RandOk(e.n, e.m, 3, e.cl), "gen")
    [] e.e = "lits" -> If(AllLits(e.n, Range(e.ms)), "gen")
    [] e.e = "sizes" -> If(Range(e.ms) = 1..e.max, "gen")
    [] e.e = "same" -> If(e.a = e.b, "seed")
    [] e.e = "cycle" ->
         If(GVarsOf(e.cl) = 1..e.n /\ \A A \in Cases(e, 1..e.n) : CycleOk(e.n, e.cl, A), "gen")
    [] e.e = "cube" -> If(CubeOk(e.max, e.mv, e.c), "gen")
    [] e.e = "open" -> {"gen"}     \* a clause was not ended, or a literal is not one
    [] e.e = "gos" -> If(conn = "none", "driver")
    [] e.e = "solve" -> If(conn = "none", "driver") \union If(IF e.res = 0 THEN e.r \in {1, -1} ELSE e.r = e.res, "stand")
                          \union If(e.ms <= e.d + 3000, "stand")
    [] e.e = "ctl" -> If(ConnOk(conn, e), "stand")
                        \union If(e.r = 0 \/ (IF e.res = 0 THEN e.r \in {1, -1} ELSE e.r = e.res), "stand")
    [] e.e = "maxvar" -> If(e.r = e.w, "stand")
    [] e.e \in {"panic", "crash", "hang"} -> {"live"}
    [] OTHER -> {"driver"}
After(e) == CASE e.e = "gos" -> "run" [] e.e = "ctl" -> ConnNext(conn, e) [] OTHER -> conn

Init == t \in 1..Len(Traces) /\ i = 1 /\ conn = "none"
Next ==
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[i]
         all == Judge(e)
         bad == all \intersect (Aspects \union {"live", "driver"})
     IN /\ IF "py2" \in all THEN PrintT(<<"NOTE", Traces[t].id, i, {"py2"}>>) ELSE TRUE
        /\ IF bad = {} THEN i' = i + 1 /\ conn' = After(e)
           ELSE PrintT(<<"REJECT", Traces[t].id, i, bad>>) /\ i' = -i /\ UNCHANGED conn
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
