------------------------------- MODULE Circuit -------------------------------
(***************************************************************************)
(* Boolean circuits with latches, as their users see them.  A circuit is a *)
(* map from variables to Boolean functions; a function is the set of       *)
(* "lanes" in which it is true, a lane being an assignment of all inputs   *)
(* (all of them for few inputs, a random sample for many).  Literals are   *)
(* non-zero integers, negation is the minus sign.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Var(m) == IF m < 0 THEN -m ELSE m
Fn(f, lanes, m) == IF m > 0 THEN f[m] ELSE lanes \ f[-m]
Known(f, m) == Var(m) \in DOMAIN f

(* the meaning of the constructors, over functions *)
OpFn(op, v, lanes) ==
  LET not(x) == lanes \ x
      imp(a, b) == not(a) \union b
  IN CASE op = "and" -> v[1] \intersect v[2]
       [] op = "ands" -> {l \in lanes : \A k \in DOMAIN v : l \in v[k]}
       [] op = "or" -> v[1] \union v[2]
       [] op = "ors" -> {l \in lanes : \E k \in DOMAIN v : l \in v[k]}
       [] op = "xor" -> (v[1] \ v[2]) \union (v[2] \ v[1])
       [] op = "implies" -> imp(v[1], v[2])
       [] op = "choice" -> (v[1] \intersect v[2]) \union (not(v[1]) \intersect v[3])

(* the literal r was returned for the function E: either its variable is
   known and denotes E, or this defines it *)
BindOk(f, lanes, r, E) == Known(f, r) => Fn(f, lanes, r) = E
Bind(f, lanes, r, E) ==
  IF Known(f, r) THEN f
  ELSE [x \in (DOMAIN f) \union {Var(r)} |->
          IF x = Var(r) THEN (IF r > 0 THEN E ELSE lanes \ E) ELSE f[x]]

(* number of list members true in lane l *)
RECURSIVE CountFrom(_, _, _)
CountFrom(fs, l, k) ==
  IF k > Len(fs) THEN 0 ELSE (IF l \in fs[k] THEN 1 ELSE 0) + CountFrom(fs, l, k + 1)
Count(fs, l) == CountFrom(fs, l, 1)

CardFn(op, b, fs, lanes) ==
  CASE op = "leq" -> {l \in lanes : Count(fs, l) <= b}
    [] op = "geq" -> {l \in lanes : Count(fs, l) >= b}
    [] op = "less" -> {l \in lanes : Count(fs, l) < b}
    [] op = "gr" -> {l \in lanes : Count(fs, l) > b}

---------------------------------------------------------------------------
(* Structure: nodes[v] is the record of variable v.
   kind 0 input, 1 gate (a, b), 2 latch (a init, b next), 3 constant true *)
IsGate(x) == x.k = 1
Topological(nodes) ==
  \A v \in DOMAIN nodes : IsGate(nodes[v]) =>
    /\ Var(nodes[v].a) \in 1..(v - 1)
    /\ Var(nodes[v].b) \in 1..(v - 1)

(* functions of all variables, given those of the free ones *)
Functions(nodes, free, lanes) ==
  FoldLeft(LAMBDA acc, v :
             Append(acc, CASE nodes[v].k = 3 -> lanes
                           [] nodes[v].k = 1 -> Fn(acc, lanes, nodes[v].a) \intersect Fn(acc, lanes, nodes[v].b)
                           [] OTHER -> IF v \in DOMAIN free THEN free[v] ELSE {}),
           <<>>, [v \in DOMAIN nodes |-> v])

(* variables on which roots depend, gates included *)
Reach(nodes, roots) ==
  FoldRight(LAMBDA v, acc :
              IF v \in acc /\ IsGate(nodes[v]) THEN acc \union {Var(nodes[v].a), Var(nodes[v].b)} ELSE acc,
            [v \in DOMAIN nodes |-> v], {Var(m) : m \in roots})

---------------------------------------------------------------------------
(* Clauses over the variables of a circuit *)
Sound(cls, g, lanes) ==
  \A k \in DOMAIN cls : \A l \in lanes : \E m \in Range(cls[k]) :
     IF m > 0 THEN l \in g[m] ELSE l \notin g[-m]

(* unit propagation in all lanes at once: p[v], n[v] are the lanes in which v
   is forced true, false *)
PropClause(s, c, lanes) ==
  LET fal(m) == IF m > 0 THEN s.n[m] ELSE s.p[-m]
      forced(m) == {l \in lanes : \A x \in Range(c) : x = m \/ l \in fal(x)}
      pv == [m \in {x \in Range(c) : x > 0} |-> forced(m)]
      nv == [m \in {-x : x \in {y \in Range(c) : y < 0}} |-> forced(-m)]
  IN [p |-> [v \in DOMAIN s.p |-> IF v \in DOMAIN pv THEN s.p[v] \union pv[v] ELSE s.p[v]],
      n |-> [v \in DOMAIN s.n |-> IF v \in DOMAIN nv THEN s.n[v] \union nv[v] ELSE s.n[v]]]

RECURSIVE Propagate(_, _, _)
Propagate(s, cls, lanes) ==
  LET s2 == FoldLeft(LAMBDA a, c : PropClause(a, c, lanes), s, cls)
  IN IF s2 = s THEN s ELSE Propagate(s2, cls, lanes)

(* the clauses leave the variables in need only their value in g, for every
   assignment of the free variables.  They do if propagation says so, and
   where it does not, all assignments of up to ten other variables decide. *)
Determined(cls, g, free, need, lanes) ==
  LET start == [p |-> [v \in DOMAIN g |-> IF v \in free THEN g[v] ELSE {}],
                n |-> [v \in DOMAIN g |-> IF v \in free THEN lanes \ g[v] ELSE {}]]
      s == Propagate(start, cls, lanes)
      open(l) == {v \in DOMAIN g : l \notin s.p[v] /\ l \notin s.n[v]}
      used == {Var(m) : m \in UNION {Range(cls[k]) : k \in DOMAIN cls}}
      undone(l) == need \intersect open(l)
      sat(l, X) == \A k \in DOMAIN cls : \E m \in Range(cls[k]) :
                      LET v == Var(m)
                          val == IF v \in open(l) THEN v \in X ELSE l \in s.p[v]
                      IN (m > 0) = val
      unique(l) == \/ undone(l) = {}
                   \/ Cardinality(open(l) \intersect (used \union need)) > 10
                   \/ \A X \in SUBSET (open(l) \intersect (used \union need)) :
                         sat(l, X) => \A v \in undone(l) : (v \in X) = (l \in g[v])
  IN \A l \in lanes : unique(l)

---------------------------------------------------------------------------
(* Sequential behaviour: value of every variable at steps 0..D.  inp(v, d)
   gives the function of input v at step d, xin(v) of an uninitialised latch *)
Frame(nodes, prev, inp(_), ini(_), lanes) ==
  FoldLeft(LAMBDA acc, v :
             Append(acc, CASE nodes[v].k = 3 -> lanes
                           [] nodes[v].k = 1 -> Fn(acc, lanes, nodes[v].a) \intersect Fn(acc, lanes, nodes[v].b)
                           [] nodes[v].k = 2 -> IF prev = <<>> THEN ini(v) ELSE Fn(prev, lanes, nodes[v].b)
                           [] OTHER -> inp(v)),
           <<>>, [v \in DOMAIN nodes |-> v])

RECURSIVE Simulate(_, _, _, _, _, _, _)
Simulate(nodes, frames, d, D, inp(_, _), xin(_), lanes) ==
  IF d > D THEN frames
  ELSE LET ini(v) == CASE nodes[v].a = 1 -> lanes [] nodes[v].a = -1 -> {} [] OTHER -> xin(v)
           fr == Frame(nodes, IF d = 0 THEN <<>> ELSE frames[d], LAMBDA v : inp(v, d), ini, lanes)
       IN Simulate(nodes, Append(frames, fr), d + 1, D, inp, xin, lanes)
=============================================================================
