-------------------------------- MODULE Dimacs --------------------------------
(***************************************************************************)
(* The dimacs cnf, incremental cnf and solver output formats as functions  *)
(* from bytes to the calls a reader makes.  Cnf(b, strict), Icnf(b) and    *)
(* Sol(b) are records whose field st is                                    *)
(*   0 Ok    b is in the format; the calls bind                            *)
(*   1 Any   readers may differ on b; if it is accepted the calls bind     *)
(*   2 Free  either outcome, with any calls                                *)
(*   3 Bad   b is not in the format                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Ok == 0
Any == 1
Free == 2
Bad == 3
Max(a, b) == IF a > b THEN a ELSE b

NL == 10
SP == 32
Blank == {9, 13, 32}
WS == Blank \union {NL}
Odd == {11, 12, 37}          \* form feeds and the % of old benchmark files
Digit(c) == c \in 48..57
At(b, p) == IF p \in DOMAIN b THEN b[p] ELSE -1
BigVal == 1000000000       \* readers may refuse variables from here on
MaxVal == 2147483647       \* and have to beyond this
TooBig == -1

(* ------------------------------------------------ comments: lines "c..." *)
RECURSIVE LineEnd(_, _)
LineEnd(b, p) == IF p > Len(b) \/ b[p] = NL THEN p ELSE LineEnd(b, p + 1)
RECURSIVE StripR(_, _, _)
StripR(b, p, acc) ==
  IF p > Len(b) THEN acc
  ELSE LET q == LineEnd(b, p)
           r == IF q > Len(b) THEN Len(b) ELSE q
       IN StripR(b, q + 1, IF b[p] = 99 THEN acc ELSE acc \o SubSeq(b, p, r))
Strip(b) == StripR(b, 1, <<>>)

(* ------------------------------------------------------------------ words *)
RECURSIVE SkipWS(_, _), WordEnd(_, _)
SkipWS(b, p) == IF At(b, p) \in WS THEN SkipWS(b, p + 1) ELSE p
WordEnd(b, p) == IF p > Len(b) \/ At(b, p) \in WS THEN p ELSE WordEnd(b, p + 1)

RECURSIVE Val(_, _, _, _)
Val(b, p, q, acc) ==
  IF p = q \/ acc = TooBig THEN acc
  ELSE LET d == b[p] - 48
       IN Val(b, p + 1, q, IF acc > MaxVal \div 10 \/ (acc = MaxVal \div 10 /\ d > MaxVal % 10) THEN TooBig ELSE acc * 10 + d)

(* the word b[p..q-1] as a number: st and v *)
Number(b, p, q) ==
  LET neg == At(b, p) = 45
      sgn == At(b, p) \in {43, 45}
      d == IF sgn THEN p + 1 ELSE p
      v == Val(b, d, q, 0)
  IN CASE p < q /\ b[p] = 99 -> [st |-> Free, v |-> 0]
       [] \E k \in p..(q - 1) : b[k] \in Odd -> [st |-> Free, v |-> 0]
       [] d >= q \/ \E k \in d..(q - 1) : ~Digit(b[k]) -> [st |-> Bad, v |-> 0]
       [] v = TooBig -> [st |-> Bad, v |-> 0]
       [] OTHER -> [st |-> IF \/ At(b, p) = 43
                              \/ b[d] = 48 /\ q > d + 1
                              \/ v >= BigVal
                              \/ neg /\ v = 0 THEN Any ELSE Ok,
                    v |-> IF neg THEN -v ELSE v]

(* the words of b from p on as numbers: their worst st and their values *)
RECURSIVE NumbersR(_, _, _, _)
NumbersR(b, p, st, vs) ==
  LET s == SkipWS(b, p)
  IN IF s > Len(b) THEN [st |-> st, vs |-> vs]
     ELSE LET q == WordEnd(b, s)
              n == Number(b, s, q)
          IN NumbersR(b, q, Max(st, n.st), Append(vs, n.v))

(* all words of b from p on: sequences of <<from, to>> *)
RECURSIVE WordsR(_, _, _)
WordsR(b, p, acc) ==
  LET s == SkipWS(b, p)
  IN IF s > Len(b) THEN acc
     ELSE LET q == WordEnd(b, s) IN WordsR(b, q, Append(acc, <<s, q>>))
Words(b, p) == WordsR(b, p, <<>>)
RECURSIVE FirstWords(_, _, _, _)
FirstWords(b, p, k, acc) ==
  LET s == SkipWS(b, p)
  IN IF k = 0 \/ s > Len(b) THEN acc
     ELSE LET q == WordEnd(b, s) IN FirstWords(b, q, k - 1, Append(acc, <<s, q>>))

RECURSIVE MaxOf(_, _, _)
MaxOf(s, k, acc) == IF k > Len(s) THEN acc ELSE MaxOf(s, k + 1, Max(acc, s[k]))

(* -------------------------------------------------------------------- cnf *)
Abs(v) == IF v < 0 THEN -v ELSE v
NoHdr == [st |-> Ok, p |-> 1, nv |-> -1, nc |-> -1]
IsText(b, p, t) == \A k \in DOMAIN t : At(b, p + k - 1) = t[k]
Exactly1(b, p) == IF At(b, p) = SP /\ At(b, p + 1) \notin WS THEN Ok ELSE Any

(* the problem line: p at the first word *)
Hdr(b) ==
  LET s == SkipWS(b, 1)
      w == FirstWords(b, 1, 4, <<>>)
  IN IF At(b, s) # 112 THEN NoHdr
     ELSE IF \/ Len(w) < 4
             \/ w[1][2] # s + 1
             \/ w[2][2] # w[2][1] + 3 \/ ~IsText(b, w[2][1], <<99, 110, 102>>)
          THEN [NoHdr EXCEPT !.st = Bad]
     ELSE LET n == Number(b, w[3][1], w[3][2])
              m == Number(b, w[4][1], w[4][2])
              exact == /\ s = 1 /\ w[2][1] = 3 /\ b[2] = SP
                       /\ w[3][1] = 7 /\ b[6] = SP
                       /\ w[4][1] = w[3][2] + 1 /\ b[w[3][2]] = SP
                       /\ At(b, w[4][2]) \in {NL, -1}
              st == Max(Max(n.st, m.st), IF exact THEN Ok ELSE Any)
          IN [st |-> IF n.v < 0 \/ m.v < 0 THEN Bad ELSE st, p |-> w[4][2], nv |-> n.v, nc |-> m.v]

Cnf(bytes, strict) ==
  LET b == Strip(bytes)
      h == Hdr(b)
      n == NumbersR(b, h.p, h.st, <<>>)
      open == Len(n.vs) > 0 /\ n.vs[Len(n.vs)] # 0
      cls == Len(SelectSeq(n.vs, LAMBDA v : v = 0))
      vmax == MaxOf([k \in DOMAIN n.vs |-> Abs(n.vs[k])], 1, 0)
      st2 == IF open THEN Max(n.st, IF n.st = Free THEN Free ELSE Bad) ELSE n.st
      st3 == IF ~strict THEN Ok
             ELSE IF h.nv < 0 \/ cls # h.nc \/ vmax > h.nv THEN Bad
             ELSE IF vmax < h.nv THEN Any ELSE Ok
  IN [st |-> IF h.st = Bad \/ st2 = Bad THEN Bad
             ELSE IF st2 = Free THEN Free
             ELSE Max(st2, st3),
      hdr |-> h.nv >= 0, nv |-> h.nv, nc |-> h.nc,
      lits |-> n.vs]

(* calls: <<"init", v, c>>, <<"add", m>>, <<"eof">> *)
CnfCalls(f, calls) ==
  /\ Len(calls) = Len(f.lits) + 2
  /\ calls[1][1] = "init"
  /\ f.hdr => calls[1] = <<"init", f.nv, f.nc>>
  /\ \A k \in DOMAIN f.lits : calls[k + 1] = <<"add", f.lits[k]>>
  /\ calls[Len(calls)] = <<"eof">>

(* ------------------------------------------------------- incremental cnf *)
PInc == <<112, 32, 105, 110, 99, 99, 110, 102, 10>>
(* fold over the words; q = "out" | "add" | "asm" | "a" *)
RECURSIVE IcnfR(_, _, _, _)
IcnfR(b, w, k, s) ==
  IF k > Len(w) THEN [s EXCEPT !.st = IF s.q = "out" THEN @ ELSE IF @ = Free THEN Free ELSE Bad]
  ELSE LET f == w[k][1]
           e == w[k][2]
           isA == b[f] = 97
           n == Number(b, IF isA THEN f + 1 ELSE f, e)
           tag == IF isA \/ s.q \in {"asm", "a"} THEN "assume" ELSE "add"
       IN IF s.st = Bad THEN s
          ELSE IF isA /\ s.q # "out" THEN IcnfR(b, w, k + 1, [s EXCEPT !.st = IF @ = Free THEN Free ELSE Bad])
          ELSE IF isA /\ e = f + 1 THEN IcnfR(b, w, k + 1, [s EXCEPT !.q = "a"])
          ELSE IcnfR(b, w, k + 1,
                     [st |-> Max(s.st, IF isA THEN Max(Any, n.st) ELSE n.st),
                      q |-> IF n.v = 0 THEN "out" ELSE IF tag = "assume" THEN "asm" ELSE "add",
                      calls |-> Append(s.calls, <<tag, n.v>>)])
Icnf(bytes) ==
  LET b == Strip(bytes)
      w == Words(b, 1)
      exact == IsText(b, 1, PInc)
      loose == /\ Len(w) >= 2
               /\ w[1][2] = w[1][1] + 1 /\ b[w[1][1]] = 112
               /\ w[2][2] = w[2][1] + 6 /\ IsText(b, w[2][1], SubSeq(PInc, 3, 8))
      s == IcnfR(b, SubSeq(w, 3, Len(w)), 1, [st |-> IF exact THEN Ok ELSE Any, q |-> "out", calls |-> <<>>])
  IN IF ~exact /\ ~loose THEN [st |-> Bad, calls |-> <<>>]
     ELSE [st |-> s.st, calls |-> Append(s.calls, <<"eof">>)]

(* ------------------------------------------------------------ solver output *)
SAT == <<83, 65, 84, 73, 83, 70, 73, 65, 66, 76, 69>>
UNSAT == <<85, 78>> \o SAT
UNKNOWN == <<85, 78, 75, 78, 79, 87, 78>>
Status(t) == CASE t = SAT -> 1 [] t = UNSAT -> -1 [] t = UNKNOWN -> 0 [] OTHER -> 9

RECURSIVE LinesR(_, _, _)
LinesR(b, p, acc) ==
  IF p > Len(b) THEN acc
  ELSE LET q == LineEnd(b, p) IN LinesR(b, q + 1, Append(acc, SubSeq(b, p, q - 1)))

SolLine(l) ==
  LET w == Words(l, 2)
      ns == NumbersR(l, 2, Ok, <<>>)
      stn == ns.st
      tidy == At(l, 2) = SP /\ \A k \in 2..Len(l) : l[k] \in Blank => l[k] = SP /\ At(l, k + 1) \notin (Blank \union {-1})
      r == IF Len(w) = 1 THEN Status(SubSeq(l, w[1][1], w[1][2] - 1)) ELSE 9
  IN IF \A k \in DOMAIN l : l[k] \in WS THEN [st |-> Any, calls |-> <<>>]
     ELSE IF l[1] \in (Blank \union Odd) THEN [st |-> Free, calls |-> <<>>]
     ELSE IF l[1] = 115 THEN [st |-> IF r = 9 THEN Bad ELSE IF tidy THEN Ok ELSE Any,
                              calls |-> <<<<"solution", r>>>>]
     ELSE IF l[1] = 118 THEN [st |-> IF tidy THEN stn ELSE Max(stn, Any),
                              calls |-> [k \in DOMAIN ns.vs |-> <<"value", ns.vs[k]>>]]
     ELSE [st |-> Bad, calls |-> <<>>]

RECURSIVE Cat(_, _, _)
Cat(ls, k, acc) == IF k > Len(ls) THEN acc ELSE Cat(ls, k + 1, acc \o ls[k].calls)

(* one status line, then value lines, the last ends with the only 0 *)
SolShape(calls) ==
  /\ Len(calls) > 0 /\ calls[1][1] = "solution"
  /\ \A k \in 2..Len(calls) : calls[k][1] = "value"
  /\ IF Len(calls) = 1 THEN TRUE
     ELSE calls[1][2] # -1 /\ \A k \in 2..Len(calls) : (calls[k][2] = 0) = (k = Len(calls))

Sol(bytes) ==
  LET raw == LinesR(Strip(bytes), 1, <<>>)
      ls == [k \in DOMAIN raw |-> SolLine(raw[k])]
      calls == Cat(ls, 1, <<>>)
      st == MaxOf([k \in DOMAIN ls |-> ls[k].st], 1, Ok)
  IN [st |-> IF SolShape(calls) THEN st ELSE Max(st, Any), calls |-> Append(calls, <<"eof">>)]
=============================================================================
