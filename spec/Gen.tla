---------------------------------- MODULE Gen ----------------------------------
(***************************************************************************)
(* Package gen: what a generated problem is about.  A problem is the        *)
(* sequence of clauses (sequences of integers) given to the adder; an       *)
(* assignment is the set of variables which are true.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

GAbs(l) == IF l < 0 THEN -l ELSE l
GTrue(A, l) == IF l > 0 THEN l \in A ELSE -l \notin A
GHolds(A, cl) == \A k \in DOMAIN cl : \E j \in DOMAIN cl[k] : GTrue(A, cl[k][j])
GVarsOf(cl) == UNION {{GAbs(cl[k][j]) : j \in DOMAIN cl[k]} : k \in DOMAIN cl}
GSets(cl) == {Range(cl[k]) : k \in DOMAIN cl}

(* a matrix of variables, positive and all different *)
GCells(v) == UNION {{<<a, b>> : b \in DOMAIN v[a]} : a \in DOMAIN v}
GNamed(v) == {v[c[1]][c[2]] : c \in GCells(v)}
GMatrix(v, n, k) == /\ Len(v) = n /\ \A a \in DOMAIN v : Len(v[a]) = k
                    /\ \A c \in GCells(v) : v[c[1]][c[2]] > 0
                    /\ Cardinality(GNamed(v)) = n * k

(* ----------------------------------------------------------- pigeon holes *)
(* v[i][h]: pigeon i is in hole h.  Every satisfying assignment has a hole  *)
(* for every pigeon and no two pigeons share one; every placement (a        *)
(* pigeon in one hole only) is a satisfying assignment.                     *)
Housed(v, A) == /\ \A a \in DOMAIN v : \E h \in DOMAIN v[a] : v[a][h] \in A
                /\ \A a, b \in DOMAIN v : a < b => \A h \in DOMAIN v[a] : {v[a][h], v[b][h]} \subseteq A => FALSE
Placed(v, A) == Housed(v, A) /\ \A a \in DOMAIN v : Cardinality({h \in DOMAIN v[a] : v[a][h] \in A}) = 1
PhpOk(v, cl, A) == LET s == GHolds(A, cl) IN (s => Housed(v, A)) /\ (Placed(v, A) => s)

(* -------------------------------------------------------------- partitions *)
IsPart(v, A) == \A a \in DOMAIN v : Cardinality({p \in DOMAIN v[a] : v[a][p] \in A}) = 1

(* ------------------------------------------------------ pythagorean triples *)
Squares == {x * x : x \in 1..400}
Triples(n) == {t \in (1..n) \X (1..n) \X (1..n) :
                 t[1] < t[2] /\ t[2] < t[3] /\ t[1] * t[1] + t[2] * t[2] = t[3] * t[3]}
Legs(n) == {q \in (1..n) \X (1..n) : q[1] < q[2] /\ (q[1] * q[1] + q[2] * q[2]) \in {x * x : x \in 1..n}}
Root(x) == CHOOSE r \in 1..400 : r * r = x
InOne(v, A, els) == \E p \in DOMAIN v[1] : \A x \in els : v[x][p] \in A
NoTriple(v, n, A) == \A q \in Legs(n) : ~InOne(v, A, {q[1], q[2], Root(q[1] * q[1] + q[2] * q[2])})
(* two parts: variable i says in which one i is *)
NoTriple2(n, A) == \A q \in Legs(n) :
  LET els == {q[1], q[2], Root(q[1] * q[1] + q[2] * q[2])} IN ~(els \subseteq A) /\ els \intersect A # {}
(* the known deviation of Py2Triples: it takes the first n triples in order *)
(* of their second and then first element, whatever their third is          *)
RECURSIVE FirstLegs(_, _, _, _)
FirstLegs(n, a, b, acc) ==
  IF Len(acc) >= n THEN acc
  ELSE FirstLegs(n, IF a + 1 = b THEN 1 ELSE a + 1, IF a + 1 = b THEN b + 1 ELSE b,
                 IF (a * a + b * b) \in Squares
                 THEN Append(acc, {a, b, Root(a * a + b * b)}) ELSE acc)
KnownPy2(n, cl) ==
  LET ts == Range(FirstLegs(n, 1, 2, <<>>))
  IN GSets(cl) = ts \union {{-x : x \in s} : s \in ts}

(* ---------------------------------------------------------------- colouring *)
(* The clauses with a positive literal are the nodes: node a has colour c   *)
(* if the c-th literal of its clause is true.  The others forbid a colour   *)
(* for both ends of an edge (or two colours for one node, which is allowed).*)
NodeCl(cl) == SelectSeq(cl, LAMBDA c : \E j \in DOMAIN c : c[j] > 0)
Rest(cl) == {Range(cl[k]) : k \in {x \in DOMAIN cl : \A j \in DOMAIN cl[x] : cl[x][j] < 0}}
EdgesOf(v, cl) ==
  {{a, b} : <<a, b>> \in {q \in (DOMAIN v) \X (DOMAIN v) : q[1] < q[2] /\
      \E p \in DOMAIN v[1] : {-v[q[1]][p], -v[q[2]][p]} \in Rest(cl)}}
Conflicts(v, es) == UNION {{{-v[a][p] : a \in e} : p \in DOMAIN v[1]} : e \in es}
OneColour(v) == UNION {{{-v[a][p], -v[a][q]} : q \in DOMAIN v[a] \ {p}} : <<a, p>> \in GCells(v)}
ColourOk(n, m, k, cl) ==
  LET v == NodeCl(cl) IN
  IF n = 0 THEN cl = <<>>
  ELSE IF k = 0 THEN Len(cl) >= n /\ \A j \in DOMAIN cl : cl[j] = <<>>
  ELSE /\ GMatrix(v, n, k)
       /\ LET es == EdgesOf(v, cl) IN
          /\ Cardinality(es) = m
          /\ Conflicts(v, es) \subseteq Rest(cl)
          /\ Rest(cl) \subseteq Conflicts(v, es) \union OneColour(v)

(* ------------------------------------------------------------ random graphs *)
(* g[a] is the sequence of neighbours of node a-1, nodes count from 0       *)
GraphOk(n, m, g) ==
  /\ Len(g) = n
  /\ \A a \in DOMAIN g : \A k \in DOMAIN g[a] : g[a][k] \in 0..(n - 1)
  /\ \A a \in DOMAIN g : (a - 1) \notin Range(g[a]) /\ Cardinality(Range(g[a])) = Len(g[a])
  /\ \A a \in DOMAIN g : \A b \in Range(g[a]) : (a - 1) \in Range(g[b + 1])
  /\ Cardinality(UNION {{{a - 1, b} : b \in Range(g[a])} : a \in DOMAIN g}) = m

(* ----------------------------------------------------------- random clauses *)
RandOk(n, m, w, cl) ==
  /\ Len(cl) = m
  /\ \A k \in DOMAIN cl : /\ Len(cl[k]) = w
                          /\ \A j \in DOMAIN cl[k] : GAbs(cl[k][j]) \in 1..n
                          /\ Cardinality({GAbs(cl[k][j]) : j \in DOMAIN cl[k]}) = w
(* so many that every literal must have occurred (it would not have with    *)
(* probability below 10^-20)                                                *)
AllLits(n, ms) == ms = {l \in (-n)..n : l # 0}
CubeOk(max, mv, c) == /\ Len(c) \in 1..max
                      /\ \A j \in DOMAIN c : GAbs(c[j]) \in 1..mv
                      /\ Cardinality({GAbs(c[j]) : j \in DOMAIN c}) = Len(c)
(* a cycle of implications: all variables are equal *)
CycleOk(n, cl, A) == GHolds(A, cl) <=> (A = {} \/ A = 1..n)
=============================================================================
