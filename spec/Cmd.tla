---------------------------------- MODULE Cmd ----------------------------------
(***************************************************************************)
(* The gini command: from the bytes of its inputs and its options to what   *)
(* it may print and the codes it may exit with.                             *)
(*                                                                         *)
(* A run e has the inputs e.ins, each                                       *)
(*   [f |-> "cnf" | "icnf", by |-> bytes]  a text (Dimacs says what of)     *)
(*   [f |-> "cls", cl, n, proof]           a large problem whose answer is  *)
(*                                         known by a witness or by         *)
(*                                         containing a pigeon hole problem *)
(*   [f |-> "none"]                        nothing that can be read         *)
(* and printed the lines e.out, [k, w, n]: k first letter, w the status,    *)
(* n the numbers.                                                           *)
(***************************************************************************)
EXTENDS Dimacs, Gen

(* ------------------------------------------------------------- the problem *)
RECURSIVE SplitR(_, _, _, _)
SplitR(ls, k, cur, acc) ==
  IF k > Len(ls) THEN acc
  ELSE IF ls[k] = 0 THEN SplitR(ls, k + 1, <<>>, Append(acc, cur))
  ELSE SplitR(ls, k + 1, Append(cur, ls[k]), acc)
Split(ls) == SplitR(ls, 1, <<>>, <<>>)

GSeqVars(cl) == LET s == SetToSeq(GVarsOf(cl)) IN s
GUnits(ls) == [k \in DOMAIN ls |-> <<ls[k]>>]
CmdSat(cl, asm) == LET all == cl \o GUnits(asm) IN \E A \in SUBSET GVarsOf(all) : GHolds(A, all)

(* pigeon i of p is in hole h of h: variable h*p + i + 1 *)
PhpCore(p, h) ==
  {{x * p + i + 1 : x \in 0..(h - 1)} : i \in 0..(p - 1)}
  \union UNION {{{-(x * p + i + 1), -(x * p + j + 1)} : x \in 0..(h - 1)} :
                <<i, j>> \in {q \in (0..(p - 1)) \X (0..(p - 1)) : q[1] < q[2]}}
ProofOk(in, asm) ==
  CASE in.proof.k = "sat" -> GHolds(Range(in.proof.w), in.cl \o GUnits(asm))
    [] in.proof.k = "php" -> in.proof.p > in.proof.h /\ PhpCore(in.proof.p, in.proof.h) \subseteq GSets(in.cl)
    [] OTHER -> FALSE

(* ----------------------------------------------------------------- printing *)
Word(r) == CASE r = 1 -> "SATISFIABLE" [] r = -1 -> "UNSATISFIABLE" [] r = 0 -> "UNKNOWN"
IsLine(e, k, c) == k \in DOMAIN e.out /\ e.out[k].k = c
(* lines k.. that begin with c *)
RECURSIVE RunOf(_, _, _)
RunOf(e, k, c) == IF IsLine(e, k, c) THEN RunOf(e, k + 1, c) ELSE k
RECURSIVE Nums(_, _, _, _)
Nums(e, k, to, acc) == IF k >= to THEN acc ELSE Nums(e, k + 1, to, acc \o e.out[k].n)

(* values: at most one for every variable, and a 0 that ends them; every       *)
(* clause that does not hold anyway has a literal among them.  Unless the      *)
(* problem went over the network, where simplified clauses are sent, they are  *)
(* about every variable of these clauses.                                      *)
Tautology(c) == \E j, k \in DOMAIN c : c[j] = -c[k]
ValuesOk(vs, cl, asm, n, full) ==
  LET all == cl \o GUnits(asm)
      m == Len(vs) - 1
  IN /\ Len(vs) >= 1 /\ vs[Len(vs)] = 0
     /\ \A k \in 1..m : vs[k] # 0
     /\ Cardinality({GAbs(vs[k]) : k \in 1..m}) = m
     /\ full => GVarsOf(SelectSeq(all, LAMBDA c : ~Tautology(c))) \subseteq {GAbs(vs[k]) : k \in 1..m}
     /\ \A k \in 1..m : GAbs(vs[k]) <= MaxOf(<<n>> \o [j \in DOMAIN asm |-> GAbs(asm[j])], 1, MaxOf(GSeqVars(cl), 1, 0))
     /\ LET true == {vs[k] : k \in 1..m}
        IN \A k \in DOMAIN all : Tautology(all[k]) \/ \E j \in DOMAIN all[k] : all[k][j] \in true
FailedOk(fs, cl, asm, small) ==
  /\ Range(fs) \subseteq Range(asm)
  /\ small => ~CmdSat(cl, fs)

(* the status of a problem: the set of answers that are right *)
Right(sat, e) == (IF sat THEN {1} ELSE {-1}) \union (IF e.limited \/ e.sig THEN {0} ELSE {})

(* the line after the output of one cnf problem at line k, 0 if it is wrong *)
AfterCnf(e, k, cl, n, asm, right, small) ==
  IF ~IsLine(e, k, "s") \/ e.out[k].w \notin {Word(r) : r \in right} THEN 0
  ELSE LET w == e.out[k].w IN
       IF w = Word(1) /\ e.model
       THEN LET q == RunOf(e, k + 1, "v") IN IF ValuesOk(Nums(e, k + 1, q, <<>>), cl, asm, n, ~e.crisp) THEN q ELSE 0
       ELSE IF w = Word(-1) /\ e.failed
       THEN LET q == RunOf(e, k + 1, "f") IN IF q > k + 1 /\ FailedOk(Nums(e, k + 1, q, <<>>), cl, asm, small) THEN q ELSE 0
       ELSE k + 1

(* incremental: the answers right for each cube, in order *)
RECURSIVE CubesR(_, _, _, _, _, _)
CubesR(e, calls, k, lits, asm, acc) ==
  IF k > Len(calls) THEN acc
  ELSE CASE calls[k][1] = "add" -> CubesR(e, calls, k + 1, Append(lits, calls[k][2]), asm, acc)
         [] calls[k][1] = "assume" /\ calls[k][2] # 0 -> CubesR(e, calls, k + 1, lits, Append(asm, calls[k][2]), acc)
         [] calls[k][1] = "assume" -> CubesR(e, calls, k + 1, lits, <<>>, Append(acc, Right(CmdSat(Split(lits), asm), e)))
         [] OTHER -> CubesR(e, calls, k + 1, lits, asm, acc)
Cubes(e, calls) == CubesR(e, calls, 1, <<>>, <<>>, <<>>)
IsAnswer(e, k, right) == IsLine(e, k, "s") /\ e.out[k].w \in {Word(r) : r \in right}
RECURSIVE Answers(_, _, _, _)      \* how many of the lines from k on answer the cubes rs from j on
Answers(e, k, rs, j) == IF j > Len(rs) \/ ~IsAnswer(e, k, rs[j]) THEN j - 1 ELSE Answers(e, k + 1, rs, j + 1)

(* the lines at which the output of an input may end, if it starts at line k *)
Ends(e, in, k) ==
  CASE in.f = "none" -> {k}
    [] in.f = "cls" -> IF ~ProofOk(in, e.asm) THEN {}
                       ELSE {AfterCnf(e, k, in.cl, in.n, e.asm, Right(in.proof.k = "sat", e), FALSE)} \ {0}
    [] in.f = "cnf" ->
         LET f == Cnf(in.by, FALSE)
             cl == Split(f.lits)
             a == AfterCnf(e, k, cl, f.nv, e.asm, Right(CmdSat(cl, e.asm), e), TRUE)
         IN CASE f.st = Bad -> {k}
              [] f.st = Ok -> {a} \ {0}
              [] f.st = Any -> ({a} \ {0}) \union {k}
              [] OTHER -> k..(Len(e.out) + 1)
    [] in.f = "icnf" ->
         LET f == Icnf(in.by)
             rs == Cubes(e, f.calls)
             n == Answers(e, k, rs, 1)
         IN CASE f.st = Ok -> IF n = Len(rs) THEN {k + n} ELSE {}
              [] f.st = Free -> k..(Len(e.out) + 1)
              [] OTHER -> k..(k + n)
RECURSIVE AllEnds(_, _, _)
AllEnds(e, j, ks) == IF j > Len(e.ins) THEN ks ELSE AllEnds(e, j + 1, UNION {Ends(e, e.ins[j], k) : k \in ks})

(* interrupted: what was printed until then is right, then UNKNOWN *)
OutOk(e) ==
  \/ (Len(e.out) + 1) \in AllEnds(e, 1, {1})
  \/ e.sig /\ e.out = << [k |-> "s", w |-> Word(0), n |-> <<>>] >>

Stated(e) == {e.out[k].w : k \in {j \in DOMAIN e.out : e.out[j].k = "s"}}
(* exit codes: with satcomp one cnf problem's answer, otherwise no verdict *)
ExitOk(e) ==
  LET cnf == Len(e.ins) = 1 /\ e.ins[1].f \in {"cnf", "cls"} IN
  IF e.sig THEN e.exit \notin {10, 20} \/ ~(Word(0) \in Stated(e))
  ELSE IF e.satcomp /\ cnf
  THEN /\ (e.exit = 10) = (Word(1) \in Stated(e))
       /\ (e.exit = 20) = (Word(-1) \in Stated(e))
       /\ (Word(0) \in Stated(e) => e.exit = 0)
  ELSE /\ e.exit \notin {10, 20}
       /\ ((\A k \in DOMAIN e.ins : e.ins[k].f = "cls"
              \/ (e.ins[k].f = "cnf" /\ Cnf(e.ins[k].by, FALSE).st = Ok)
              \/ (e.ins[k].f = "icnf" /\ Icnf(e.ins[k].by).st = Ok)) => e.exit = 0)
=============================================================================
