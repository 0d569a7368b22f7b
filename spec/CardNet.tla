------------------------------- MODULE CardNet -------------------------------
(***************************************************************************)
(* The odd-even merge network behind logic.CardSort, run one compare-swap   *)
(* at a time over every 0/1 input of up to N literals (by the 0-1 principle *)
(* this decides all inputs).  Padding is true, as in the code.  The counting*)
(* literals read off the sorted outputs are checked at the end.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT N

RECURSIVE Pow(_), Merge(_, _, _), Sort(_, _)
Pow(n) == IF n <= 1 THEN 1 ELSE 2 * Pow((n + 1) \div 2)

RECURSIVE Cas(_, _, _)
Cas(k, lim, ss) == IF k >= lim THEN <<>> ELSE <<k>> \o Cas(k + ss, lim, ss)

(* sequences of <<l, h>> positions compared and swapped, over [l, h) *)
Merge(l, h, s) ==
  IF h <= l + s THEN <<>>
  ELSE LET ss == 2 * s
       IN IF ss >= h - l THEN << <<l, l + s>> >>
          ELSE Merge(l, h, ss) \o Merge(l + s, h, ss)
               \o [k \in DOMAIN Cas(l + s, h - s, ss) |->
                     LET p == Cas(l + s, h - s, ss)[k] IN <<p, p + s>>]
Sort(l, h) ==
  IF h - l <= 1 THEN <<>>
  ELSE LET m == l + (h - l) \div 2 IN Sort(l, m) \o Sort(m, h) \o Merge(l, h, 1)

Nets == [n \in 0..N |-> Sort(0, Pow(n))]

VARIABLES n, inp, a, k
vars == <<n, inp, a, k>>

Init == /\ n \in 0..N
        /\ inp \in SUBSET (0..(n - 1))
        /\ a = [x \in 0..(Pow(n) - 1) |-> IF x < n THEN x \in inp ELSE TRUE]
        /\ k = 1
Next == /\ k <= Len(Nets[n])
        /\ LET p == Nets[n][k]
           IN a' = [a EXCEPT ![p[1]] = a[p[1]] /\ a[p[2]], ![p[2]] = a[p[1]] \/ a[p[2]]]
        /\ k' = k + 1
        /\ UNCHANGED <<n, inp>>
Spec == Init /\ [][Next]_vars

Ones(f) == Cardinality({x \in DOMAIN f : f[x]})
(* every step keeps the multiset *)
Permutes == Ones(a) = Cardinality(inp) + Pow(n) - n
Done == k > Len(Nets[n])
Sorted == Done => \A x \in DOMAIN a : \A y \in DOMAIN a : (x < y /\ a[x]) => a[y]
Leq(b) == IF b >= n THEN TRUE ELSE IF b < 0 THEN FALSE ELSE ~a[(n - 1) - b]
Geq(b) == IF b <= 0 THEN TRUE ELSE IF b >= n + 1 THEN FALSE ELSE ~Leq(b - 1)
Counts == Done => \A b \in 0..n : /\ Leq(b) = (Cardinality(inp) <= b)
                                  /\ Geq(b) = (Cardinality(inp) >= b)
                                  /\ Leq(b - 1) = (Cardinality(inp) < b)
                                  /\ Geq(b + 1) = (Cardinality(inp) > b)
=============================================================================
