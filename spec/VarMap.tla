-------------------------------- MODULE VarMap --------------------------------
(***************************************************************************)
(* The two-way map between the user's ("outer") and the application's      *)
(* ("inner") variables, as its caller may observe it.  The caller sees     *)
(* only the answers, so the record holds what has been observed:           *)
(*   o2i   outer variable -> inner variable, for those seen                *)
(*   inn   inner variables allocated and not freed                         *)
(*   fre   inner variables freed and not allocated again                   *)
(* Which inner variable is chosen is not determined, only that none is     *)
(* used twice at a time.  Literals are integers, 0 the null literal.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VAbs(l) == IF l < 0 THEN -l ELSE l
VSame(l, v) == IF l < 0 THEN -v ELSE v
VRan(f) == {f[x] : x \in DOMAIN f}

VNew == [o2i |-> <<>>, inn |-> {}, fre |-> {}]

(* the inner literal for outer literal m, answered r *)
InOk(p, m, r) ==
  IF m = 0 THEN r = 0
  ELSE IF VAbs(m) \in DOMAIN p.o2i THEN r = VSame(m, p.o2i[VAbs(m)])
  ELSE r # 0 /\ (r < 0) = (m < 0) /\ VAbs(r) \notin VRan(p.o2i) \union p.inn
InNext(p, m, r) ==
  IF m = 0 \/ VAbs(m) \in DOMAIN p.o2i THEN p
  ELSE [p EXCEPT !.o2i = [v \in DOMAIN @ \union {VAbs(m)} |-> IF v = VAbs(m) THEN VAbs(r) ELSE @[v]],
                 !.fre = @ \ {VAbs(r)}]

(* the outer literal for inner literal m; a variable the user has not been *)
(* seen to use yet may have its inner one already                          *)
OutKnown(p, m) == VAbs(m) \in VRan(p.o2i) \union p.inn
OuterOf(p, v) == CHOOSE o \in DOMAIN p.o2i : p.o2i[o] = v
OutOk(p, m, r) ==
  CASE m = 0 -> r = 0
    [] VAbs(m) \in VRan(p.o2i) -> r = VSame(m, OuterOf(p, VAbs(m)))
    [] VAbs(m) \in p.inn -> r = 0
    [] OTHER -> r = 0 \/ ((r < 0) = (m < 0) /\ VAbs(r) \notin DOMAIN p.o2i)
OutNext(p, m, r) ==
  IF r = 0 \/ VAbs(m) \in VRan(p.o2i) THEN p
  ELSE [p EXCEPT !.o2i = [v \in DOMAIN @ \union {VAbs(r)} |-> IF v = VAbs(r) THEN VAbs(m) ELSE @[v]],
                 !.fre = @ \ {VAbs(m)}]

(* a new inner literal *)
InnerOk(p, r) == r > 0 /\ r \notin VRan(p.o2i) \union p.inn
InnerNext(p, r) == [p EXCEPT !.inn = @ \union {r}, !.fre = @ \ {r}]

FreeOk(p, v) == v \in p.inn
FreeNext(p, v) == [p EXCEPT !.inn = @ \ {v}, !.fre = @ \union {v}]

(* the greatest outer variable: at least every one the user has used *)
MaxOuterOk(p, r) == \A o \in DOMAIN p.o2i : o <= r

(* slices *)
RECURSIVE InsOk(_, _, _, _)
InsOk(p, ms, rs, k) ==
  k > Len(ms) \/ (InOk(p, ms[k], rs[k]) /\ InsOk(InNext(p, ms[k], rs[k]), ms, rs, k + 1))
RECURSIVE InsNext(_, _, _, _)
InsNext(p, ms, rs, k) == IF k > Len(ms) THEN p ELSE InsNext(InNext(p, ms[k], rs[k]), ms, rs, k + 1)
(* out: only literals of known variables are asked for *)
RECURSIVE OutSeq(_, _, _, _)
OutSeq(p, ms, k, acc) ==
  IF k > Len(ms) THEN acc
  ELSE IF VAbs(ms[k]) \in VRan(p.o2i)
       THEN OutSeq(p, ms, k + 1, Append(acc, VSame(ms[k], OuterOf(p, VAbs(ms[k])))))
       ELSE OutSeq(p, ms, k + 1, acc)

(* the guarantee: a one-to-one map, apart from the inner variables *)
Coherent(p) ==
  /\ \A a, b \in DOMAIN p.o2i : a # b => p.o2i[a] # p.o2i[b]
  /\ VRan(p.o2i) \intersect p.inn = {}
  /\ VRan(p.o2i) \intersect p.fre = {}
  /\ 0 \notin DOMAIN p.o2i \union VRan(p.o2i) \union p.inn
=============================================================================
