------------------------------ MODULE CircTrace ------------------------------
(* Trace validation of package logic: circuits, their clauses, cardinality
   literals, unrolling. *)
EXTENDS Circuit, Json, TLC, FiniteSetsExt

CONSTANTS TraceFile, Aspects
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, i, st
vars == <<t, i, st>>

If(c, name) == IF c THEN {} ELSE {name}
L == 0..(Traces[t].lanes - 1)

(* a circuit: fn the functions of the literals handed out, ins and lats the
   inputs and latches made, nodes and g the last structure seen with its
   functions, cnf the clause sets translated from it *)
New(tl) == [fn |-> (Var(tl) :> (IF tl > 0 THEN L ELSE {})), ins |-> {}, lats |-> {},
            nodes |-> <<>>, g |-> <<>>, cnf |-> <<>>]

Vals(c, ms) == [k \in DOMAIN ms |-> Fn(c.fn, L, ms[k])]

Nodes(ns) == [v \in DOMAIN ns |-> [k |-> ns[v][1], a |-> ns[v][2], b |-> ns[v][3]]]

OpStep(c, e) ==
  LET E == OpFn(e.op, Vals(c, e.a), L)
  IN <<If(BindOk(c.fn, L, e.r, E), "gate") \union If(e.kept = e.a, "kept"), [c EXCEPT !.fn = Bind(@, L, e.r, E)]>>

InStep(c, e) ==
  <<If(e.r > 0 /\ ~Known(c.fn, e.r), "fresh"),
    [c EXCEPT !.fn = (e.r :> Range(e.pat)) @@ @, !.ins = @ \union {e.r}]>>

LatchStep(c, e) ==
  <<If(e.r > 0 /\ ~Known(c.fn, e.r), "fresh"),
    [c EXCEPT !.fn = (e.r :> Range(e.pat)) @@ @, !.lats = @ \union {e.r}]>>

DumpStep(c, e) ==
  LET ns == Nodes(e.nodes)
      free == [v \in c.ins \union c.lats |-> c.fn[v]]
      topo == Topological(ns)
      g == IF topo THEN Functions(ns, free, L) ELSE <<>>
      kinds == \A v \in DOMAIN ns : /\ (ns[v].k = 0) = (v \in c.ins)
                                    /\ (ns[v].k = 2) = (v \in c.lats)
  IN <<If(topo, "topo") \union If(kinds, "kinds")
       \union (IF topo THEN If(\A v \in DOMAIN c.fn : v \in DOMAIN g /\ g[v] = c.fn[v], "struct") ELSE {})
       \union If(e.inpos = SetToSortSeq(c.ins, <), "inpos")
       \union If(\A k \in DOMAIN e.at : e.at[k] = k, "at"),
       [c EXCEPT !.nodes = ns, !.g = g]>>

EvalStep(c, e) ==
  <<If(\A v \in DOMAIN c.fn : (e.vs[v] = 1) = (e.lane \in c.fn[v]), "eval"), c>>

Eval64Step(c, e) ==
  <<If(\A v \in DOMAIN c.fn : Range(e.vs[v]) = c.fn[v], "eval64"), c>>

CnfStep(c, e) ==
  LET old == IF e.k \in DOMAIN c.cnf THEN c.cnf[e.k] ELSE [cls |-> <<>>, need |-> {}]
      need == old.need \union (IF e.all THEN DOMAIN c.nodes ELSE Reach(c.nodes, Range(e.roots)))
                \union {1}
      \* a translation adds what is not there yet, once, and tells how many gates (the constant included) that were
      added == Cardinality({v \in need \ old.need : c.nodes[v].k \in {1, 3}})
      cls == old.cls \o e.cls
      once == Cardinality({Range(cls[k]) : k \in DOMAIN cls}) = Len(cls)
      ok == \A k \in DOMAIN e.cls : \A m \in Range(e.cls[k]) : Var(m) \in DOMAIN c.g
  IN <<If(ok, "cnfvars") \union If(e.ttl = -1 \/ e.ttl = added, "cnfcount") \union If(once, "cnfonce")
       \union (IF ok THEN If(Sound(e.cls, c.g, L), "cnfsound")
                          \union If(Determined(cls, c.g, c.ins \union c.lats, need, L), "cnfunique")
               ELSE {}),
       [c EXCEPT !.cnf = (e.k :> [cls |-> cls, need |-> need]) @@ @]>>

RECURSIVE CardAll(_, _, _, _)
CardAll(f, fs, q, k) ==
  IF k > Len(q) THEN <<{}, f>>
  ELSE LET E == CardFn(q[k].op, q[k].b, fs, L)
           r == CardAll(Bind(f, L, q[k].r, E), fs, q, k + 1)
       IN <<If(BindOk(f, L, q[k].r, E), "card") \union r[1], r[2]>>

CardStep(c, e) ==
  LET r == CardAll(c.fn, Vals(c, e.ms), e.q, 1)
  IN <<r[1] \union If(e.n = Len(e.ms), "card") \union If(e.kept = e.ms, "kept"), [c EXCEPT !.fn = r[2]]>>

RollStep(c, e) ==
  LET un == Nodes(e.u)
      free == [v \in {e.uin[k] : k \in DOMAIN e.uin} |->
                 Range(e.pat[CHOOSE k \in DOMAIN e.uin : e.uin[k] = v])]
      topo == Topological(un)
      g == Functions(un, free, L)
      isFree(m, d) == c.nodes[Var(m)].k = 0 \/ (c.nodes[Var(m)].k = 2 /\ d = 0 /\ c.nodes[Var(m)].a = 0)
      fq == {k \in DOMAIN e.q : isFree(e.q[k][1], e.q[k][2])}
      at == {<<Var(e.q[k][1]), e.q[k][2], IF e.q[k][1] > 0 THEN e.q[k][3] ELSE -e.q[k][3]>> : k \in fq}
      fnat(v, d) == Fn(g, L, (CHOOSE x \in at : x[1] = v /\ x[2] = d)[3])
      fresh == /\ \A x \in at : un[Var(x[3])].k = 0
               /\ \A x, y \in at : (Var(x[3]) = Var(y[3])) => (x = y)
               /\ \A x, y \in at : (x[1] = y[1] /\ x[2] = y[2]) => (x = y)
      fr == Simulate(c.nodes, <<>>, 0, e.D, fnat, LAMBDA v : fnat(v, 0), L)
  IN IF ~topo THEN <<{"roll"}, c>>
     ELSE IF ~fresh THEN <<{"rollin"}, c>>
     ELSE <<If(\A j \in DOMAIN e.lens : /\ \A k \in 1..e.lens[j].nq : e.lens[j].l[Var(e.q[k][1])] > e.q[k][2]
                                        /\ e.lens[j].max = Max(Range(e.lens[j].l) \union {0}), "rolllen") \union
            If(\A k \in DOMAIN e.q : Fn(g, L, e.q[k][3]) = Fn(fr[e.q[k][2] + 1], L, e.q[k][1]), "roll"), c>>

Step(c, e) ==
  CASE e.e = "in" -> InStep(c, e)
    [] e.e = "latch" -> LatchStep(c, e)
    [] e.e = "op" -> OpStep(c, e)
    [] e.e = "dump" -> DumpStep(c, e)
    [] e.e = "eval" -> EvalStep(c, e)
    [] e.e = "eval64" -> Eval64Step(c, e)
    [] e.e = "cnf" -> CnfStep(c, e)
    [] e.e = "card" -> CardStep(c, e)
    [] e.e = "roll" -> RollStep(c, e)
    [] e.e = "note" -> <<{}, c>>
    [] e.e = "seq" -> \* init and next of latches read back
         <<If(\A k \in DOMAIN e.l : e.l[k][2] = e.l[k][4] /\ e.l[k][3] = e.l[k][5], "seq"), c>>
    [] e.e = "panic" -> <<{"live"}, c>>
    [] OTHER -> <<{"driver"}, c>>

Init == t \in 1..Len(Traces) /\ i = 1 /\ st = <<>>

Next ==
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[i]
     IN CASE e.e = "new" -> st' = (e.r :> New(e.T)) @@ st /\ i' = i + 1
          [] e.e = "copy" -> st' = (e.r :> st[e.c]) @@ st /\ i' = i + 1
          [] OTHER ->
             LET s == Step(st[e.c], e)
                 bad == s[1] \intersect (Aspects \union {"live", "driver"})
             IN IF bad = {}
                THEN st' = [st EXCEPT ![e.c] = s[2]] /\ i' = i + 1
                ELSE PrintT(<<"REJECT", Traces[t].id, i, bad>>) /\ i' = -i /\ st' = st
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
