-------------------------------- MODULE Aiger --------------------------------
(***************************************************************************)
(* The aiger format, version 1.9, as a function from bytes to what they    *)
(* mean.  Parse(b, bin) is a record whose field st is                      *)
(*   "ok"  b is a valid file, the other fields say which circuit it states *)
(*   "any" readers may differ on b; if it is accepted the fields bind      *)
(*   "bad" b is not a valid file                                           *)
(* Circuits are compared by the functions of Circuit.                      *)
(***************************************************************************)
EXTENDS Circuit, TLC

Big == 500000000        \* numbers saturate here
MaxM == 100000000       \* larger headers may be out of a reader's range

NL == 10
SP == 32
Digit(c) == c \in 48..57
At(b, p) == IF p \in DOMAIN b THEN b[p] ELSE -1

RECURSIVE NumEnd(_, _), NumVal(_, _, _, _)
NumEnd(b, p) == IF Digit(At(b, p)) THEN NumEnd(b, p + 1) ELSE p
NumVal(b, p, q, acc) ==
  IF p = q THEN acc
  ELSE NumVal(b, p + 1, q, IF acc >= Big \div 10 THEN Big ELSE acc * 10 + (b[p] - 48))

(* a line of numbers: n (" " n)* "\n" ; z: a number has a leading zero *)
RECURSIVE LineR(_, _, _, _)
LineR(b, p, ns, z) ==
  LET q == NumEnd(b, p)
      ns2 == Append(ns, NumVal(b, p, q, 0))
      z2 == z \/ (b[p] = 48 /\ q > p + 1)
  IN IF q = p \/ Len(ns) > 8 THEN [ok |-> FALSE, p |-> q, ns |-> ns, z |-> z]
     ELSE CASE At(b, q) = NL -> [ok |-> TRUE, p |-> q + 1, ns |-> ns2, z |-> z2]
            [] At(b, q) = SP -> LineR(b, q + 1, ns2, z2)
            [] OTHER -> [ok |-> FALSE, p |-> q, ns |-> ns2, z |-> z2]
Line(b, p) == LineR(b, p, <<>>, FALSE)

(* k lines with a number count in lo..hi *)
RECURSIVE LinesR(_, _, _, _, _)
LinesR(b, s, k, lo, hi) ==
  IF k = 0 \/ ~s.ok THEN s
  ELSE LET l == Line(b, s.p)
       IN LinesR(b, [ok |-> l.ok /\ Len(l.ns) \in lo..hi, p |-> l.p, z |-> s.z \/ l.z,
                     ls |-> Append(s.ls, l.ns)], k - 1, lo, hi)
Lines(b, p, k, lo, hi) == LinesR(b, [ok |-> TRUE, p |-> p, z |-> FALSE, ls |-> <<>>], k, lo, hi)
Firsts(ls) == [k \in DOMAIN ls |-> IF ls[k] = <<>> THEN 0 ELSE ls[k][1]]

(* justice literals: the counts, then the literals of each *)
RECURSIVE Groups(_, _, _, _)
Groups(b, s, counts, k) ==
  IF k > Len(counts) \/ ~s.ok THEN s
  ELSE LET l == Lines(b, s.p, counts[k], 1, 1)
       IN Groups(b, [ok |-> l.ok, p |-> l.p, z |-> s.z \/ l.z, ls |-> Append(s.ls, Firsts(l.ls))], counts, k + 1)

(* the 7-bit groups of binary gates *)
RECURSIVE Read7R(_, _, _, _, _)
Read7R(b, p, k, mul, acc) ==
  LET c == At(b, p)
      v == c % 128
      acc2 == IF k >= 4 THEN (IF v = 0 THEN acc ELSE Big) ELSE acc + v * mul
  IN IF c = -1 THEN [ok |-> FALSE, p |-> p, v |-> 0, z |-> FALSE]
     ELSE IF c < 128 THEN [ok |-> TRUE, p |-> p + 1, v |-> acc2, z |-> k > 0 /\ v = 0]
     ELSE Read7R(b, p + 1, k + 1, IF k >= 3 THEN 0 ELSE mul * 128, acc2)
Read7(b, p) == Read7R(b, p, 0, 1, 0)

RECURSIVE BinAnds(_, _, _, _)
BinAnds(b, s, lhs, k) ==
  IF k = 0 \/ ~s.ok THEN s
  ELSE LET d0 == Read7(b, s.p)
           d1 == Read7(b, d0.p)
           c0 == lhs - d0.v
           c1 == c0 - d1.v
       IN BinAnds(b, [ok |-> d0.ok /\ d1.ok /\ d0.v >= 1 /\ c0 >= 0 /\ c1 >= 0, p |-> d1.p,
                      z |-> s.z \/ d0.z \/ d1.z, ls |-> Append(s.ls, <<lhs, c0, c1>>)], lhs + 2, k - 1)

(* symbols and comments; cnt(kind) bounds the indices *)
Printable(nm) == Len(nm) > 0 /\ \A k \in DOMAIN nm : nm[k] \in 32..126
RECURSIVE FindNL(_, _), Tail7(_, _, _, _, _)
FindNL(b, p) == IF p > Len(b) THEN 0 ELSE IF b[p] = NL THEN p ELSE FindNL(b, p + 1)
Kinds == {105, 108, 111, 98, 99, 106, 102}
Tail7(b, p, syms, any, cnt) ==
  IF p > Len(b) THEN [ok |-> TRUE, syms |-> syms, any |-> any]
  ELSE IF b[p] = 99 /\ At(b, p + 1) = NL
       THEN [ok |-> TRUE, syms |-> syms, any |-> any \/ b[Len(b)] # NL]
  ELSE LET q == NumEnd(b, p + 1)
           v == NumVal(b, p + 1, q, 0)
           e == FindNL(b, q)
           nm == SubSeq(b, q + 1, e - 1)
           dup == \E s \in syms : s[1] = b[p] /\ s[2] = v
       IN IF b[p] \notin Kinds \/ q = p + 1 \/ At(b, q) # SP \/ e = 0 \/ v >= cnt[b[p]]
          THEN [ok |-> FALSE, syms |-> syms, any |-> any]
          ELSE Tail7(b, e + 1, syms \union {<<b[p], v, nm>>},
                     any \/ dup \/ ~Printable(nm) \/ (b[p + 1] = 48 /\ q > p + 2), cnt)

---------------------------------------------------------------------------
Even(n) == n % 2 = 0
Distinct(s) == Cardinality({s[k] : k \in DOMAIN s}) = Len(s)

(* gates defined from what is defined: <<functions, gates that remain>> *)
RECURSIVE Close(_, _, _)
AFn(f, lanes, u) == IF Even(u) THEN f[u \div 2] ELSE lanes \ f[u \div 2]
Close(f, ands, lanes) ==
  LET rdy == {a \in ands : a[2] \div 2 \in DOMAIN f /\ a[3] \div 2 \in DOMAIN f}
  IN IF rdy = {} THEN <<f, ands>>
     ELSE LET val(v) == LET a == CHOOSE x \in rdy : x[1] \div 2 = v
                        IN AFn(f, lanes, a[2]) \intersect AFn(f, lanes, a[3])
              vs == {a[1] \div 2 : a \in rdy}
          IN Close(f @@ [v \in vs |-> val(v)], ands \ rdy, lanes)

Bad == [st |-> "bad"]

Parse(b, bin) ==
  LET h == Line(b, 5)
      magic == At(b, 1) = 97 /\ At(b, 2) = (IF bin THEN 105 ELSE 97) /\ At(b, 3) = 103 /\ At(b, 4) = SP
      c(k) == IF k <= Len(h.ns) THEN h.ns[k] ELSE 0
      M == c(1) I == c(2) La == c(3) O == c(4) A == c(5) B == c(6) C == c(7) J == c(8) F == c(9)
      in == IF bin THEN [ok |-> TRUE, p |-> h.p, z |-> FALSE, ls |-> [k \in 1..I |-> <<2 * k>>]]
            ELSE Lines(b, h.p, I, 1, 1)
      la0 == Lines(b, in.p, La, IF bin THEN 1 ELSE 2, IF bin THEN 2 ELSE 3)
      la == IF bin THEN [la0 EXCEPT !.ls = [k \in DOMAIN la0.ls |-> <<2 * (I + k)>> \o la0.ls[k]]] ELSE la0
      o == Lines(b, la.p, O, 1, 1)
      bd == Lines(b, o.p, B, 1, 1)
      cs == Lines(b, bd.p, C, 1, 1)
      jc == Lines(b, cs.p, J, 1, 1)
      jl == Groups(b, [ok |-> TRUE, p |-> jc.p, z |-> FALSE, ls |-> <<>>], Firsts(jc.ls), 1)
      fa == Lines(b, jl.p, F, 1, 1)
      an == IF bin THEN BinAnds(b, [ok |-> TRUE, p |-> fa.p, z |-> FALSE, ls |-> <<>>], 2 * (I + La + 1), A)
            ELSE Lines(b, fa.p, A, 3, 3)
      cnt == (105 :> I) @@ (108 :> La) @@ (111 :> O) @@ (98 :> B) @@ (99 :> C) @@ (106 :> J) @@ (102 :> F)
      tl == Tail7(b, an.p, {}, FALSE, cnt)
      z == h.z \/ in.z \/ la.z \/ o.z \/ bd.z \/ cs.z \/ jc.z \/ jl.z \/ fa.z \/ an.z
      def == Firsts(in.ls) \o Firsts(la.ls) \o Firsts(an.ls)
      defd == {0} \union {def[k] \div 2 : k \in DOMAIN def}
      lits == {la.ls[k][2] : k \in DOMAIN la.ls} \union Range(Firsts(o.ls)) \union Range(Firsts(bd.ls))
              \union Range(Firsts(cs.ls)) \union UNION {Range(jl.ls[k]) : k \in DOMAIN jl.ls}
              \union Range(Firsts(fa.ls)) \union {an.ls[k][2] : k \in DOMAIN an.ls}
              \union {an.ls[k][3] : k \in DOMAIN an.ls}
      inits == \A k \in DOMAIN la.ls : Len(la.ls[k]) = 3 => la.ls[k][3] \in {0, 1, la.ls[k][1]}
      ands == Range(an.ls)
      base == [v \in {0} \union {x \div 2 : x \in Range(Firsts(in.ls) \o Firsts(la.ls))} |-> {}]
  IN IF ~magic \/ ~h.ok \/ Len(h.ns) < 5 THEN Bad
     ELSE IF I + La + A > M THEN Bad
     ELSE IF ~in.ok THEN Bad ELSE IF ~la.ok THEN Bad ELSE IF ~o.ok THEN Bad ELSE IF ~bd.ok THEN Bad
     ELSE IF ~cs.ok THEN Bad ELSE IF ~jc.ok THEN Bad ELSE IF ~jl.ok THEN Bad ELSE IF ~fa.ok THEN Bad
     ELSE IF ~an.ok THEN Bad
     ELSE IF \E k \in DOMAIN def : ~Even(def[k]) \/ def[k] < 2 \/ def[k] > 2 * M + 1 THEN Bad
     ELSE IF ~Distinct(def) \/ (\E u \in lits : (u \div 2) \notin defd) \/ ~inits THEN Bad
     ELSE IF Close(base, ands, {})[2] # {} THEN Bad
     ELSE IF ~tl.ok THEN Bad
     ELSE [st |-> IF z \/ tl.any \/ M >= MaxM \/ (bin /\ M # I + La + A) THEN "any" ELSE "ok",
           any2 |-> M >= MaxM,
           ins |-> [k \in DOMAIN in.ls |-> in.ls[k][1] \div 2],
           lats |-> [k \in DOMAIN la.ls |-> la.ls[k][1] \div 2],
           nexts |-> [k \in DOMAIN la.ls |-> la.ls[k][2]],
           inits |-> [k \in DOMAIN la.ls |->
                        IF Len(la.ls[k]) < 3 THEN -1
                        ELSE CASE la.ls[k][3] = 0 -> -1 [] la.ls[k][3] = 1 -> 1 [] OTHER -> 0],
           out |-> Firsts(o.ls), bad |-> Firsts(bd.ls), con |-> Firsts(cs.ls), jus |-> jl.ls,
           fair |-> Firsts(fa.ls), ands |-> ands, syms |-> tl.syms]

---------------------------------------------------------------------------
(* An object: nodes as in Circuit, lists of literals, symbols.  pats gives
   the lanes of its inputs and latches, by position. *)
ObjNodes(ob) == [v \in DOMAIN ob.nodes |-> [k |-> ob.nodes[v][1], a |-> ob.nodes[v][2], b |-> ob.nodes[v][3]]]

(* does the object have the inputs and latches it lists, each once *)
ObjShape(ob) ==
  LET ns == ObjNodes(ob)
  IN /\ Topological(ns)
     /\ Distinct(ob.ins) /\ Distinct(ob.lats)
     /\ \A k \in DOMAIN ob.ins : ob.ins[k] \in DOMAIN ns /\ ns[ob.ins[k]].k = 0
     /\ \A k \in DOMAIN ob.lats : ob.lats[k] \in DOMAIN ns /\ ns[ob.lats[k]].k = 2
     /\ \A m \in Range(ob.out) \union Range(ob.bad) \union Range(ob.con) \union Range(ob.fair)
            \union UNION {Range(ob.jus[k]) : k \in DOMAIN ob.jus} : (IF m < 0 THEN -m ELSE m) \in DOMAIN ns

Fns(f, lanes, ms) == [k \in DOMAIN ms |-> Fn(f, lanes, ms[k])]
(* where v is in fv; it often is at v or v - 1 *)
Where(fv, v) == IF v \in DOMAIN fv /\ fv[v] = v THEN v
                ELSE IF v - 1 \in DOMAIN fv /\ fv[v - 1] = v THEN v - 1
                ELSE CHOOSE k \in DOMAIN fv : fv[k] = v
(* everything the object states, as functions *)
ObjMeaning(ob, pats, lanes) ==
  LET ns == ObjNodes(ob)
      fv == ob.ins \o ob.lats
      free == TLCEval([v \in Range(fv) |-> Range(pats[Where(fv, v)])])
      g == Functions(ns, free, lanes)
  IN [ni |-> Len(ob.ins), nl |-> Len(ob.lats),
      next |-> [k \in DOMAIN ob.lats |-> Fn(g, lanes, ns[ob.lats[k]].b)],
      out |-> Fns(g, lanes, ob.out), bad |-> Fns(g, lanes, ob.bad), con |-> Fns(g, lanes, ob.con),
      jus |-> [k \in DOMAIN ob.jus |-> Fns(g, lanes, ob.jus[k])], fair |-> Fns(g, lanes, ob.fair),
      syms |-> {<<ob.syms[k][1], ob.syms[k][2], ob.syms[k][3]>> : k \in DOMAIN ob.syms}]
ObjInits(ob) == [k \in DOMAIN ob.lats |-> ob.nodes[ob.lats[k]][2]]

FileMeaning(f, pats, lanes) ==
  LET fv == f.ins \o f.lats
      base == TLCEval([v \in {0} \union Range(fv) |-> IF v = 0 THEN {} ELSE Range(pats[Where(fv, v)])])
      g == Close(base, f.ands, lanes)[1]
      fs(us) == [k \in DOMAIN us |-> AFn(g, lanes, us[k])]
  IN [ni |-> Len(f.ins), nl |-> Len(f.lats), next |-> fs(f.nexts), out |-> fs(f.out), bad |-> fs(f.bad),
      con |-> fs(f.con), jus |-> [k \in DOMAIN f.jus |-> fs(f.jus[k])], fair |-> fs(f.fair), syms |-> f.syms]

(* the object is what the file states *)
SameCounts(f, ob) == Len(f.ins) = Len(ob.ins) /\ Len(f.lats) = Len(ob.lats)
Meets(f, ob, pats, lanes) ==
  /\ ObjShape(ob)
  /\ SameCounts(f, ob)
  /\ LET fm == FileMeaning(f, pats, lanes)
         om == ObjMeaning(ob, pats, lanes)
         keys(ss) == {<<s[1], s[2]>> : s \in ss}
     IN /\ [fm EXCEPT !.syms = {}] = [om EXCEPT !.syms = {}]
        \* of a name given twice either one
        /\ om.syms \subseteq fm.syms /\ keys(om.syms) = keys(fm.syms)
=============================================================================
