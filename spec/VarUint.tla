------------------------------- MODULE VarUint -------------------------------
(* The numbers of the CRISP protocol on the wire: 7 bits per byte, lowest      *)
(* first, the top bit set in all bytes but the last, at most 32 bits in all.   *)
(* A number is <<high 16 bits, low 16 bits>>.                                  *)
EXTENDS Integers, Sequences

Zero == <<0, 0>>
Words == (0..65535) \X (0..65535)
Shift7(w) == <<w[1] \div 128, (w[1] % 128) * 512 + w[2] \div 128>>

RECURSIVE Enc(_)
Enc(w) == IF Shift7(w) = Zero THEN <<w[2] % 128>>
          ELSE <<128 + (w[2] % 128)>> \o Enc(Shift7(w))
RECURSIVE EncAll(_, _, _)
EncAll(ws, k, acc) == IF k > Len(ws) THEN acc ELSE EncAll(ws, k + 1, acc \o Enc(ws[k]))

(* the number of at most five 7-bit groups *)
FromGroups(g) ==
  LET G(k) == IF k <= Len(g) THEN g[k] ELSE 0
  IN <<G(3) \div 4 + G(4) * 32 + G(5) * 4096, G(1) + G(2) * 128 + (G(3) % 4) * 16384>>

(* reading at position k of by: the number and the position after it, or what  *)
(* is wrong: "over" (more than 32 bits) or "end" (the bytes are too few)       *)
RECURSIVE DecFrom(_, _, _)
DecFrom(by, k, g) ==
  IF k > Len(by) THEN [st |-> "end", w |-> Zero, k |-> k]
  ELSE LET b == by[k]
           h == Append(g, b % 128)
       IN IF Len(h) = 5 /\ b > 15 THEN [st |-> "over", w |-> Zero, k |-> k + 1]
          ELSE IF b < 128 THEN [st |-> "ok", w |-> FromGroups(h), k |-> k + 1]
          ELSE DecFrom(by, k + 1, h)
Dec(by, k) == DecFrom(by, k, <<>>)

(* numbers with a meaning of their own in the protocol *)
Reserved(w) == w[1] = 65535 /\ w[2] >= 65280
NotLit(w) == Reserved(w) \/ w = <<0, 1>>

(* literals up to a zero *)
RECURSIVE RecvFrom(_, _, _)
RecvFrom(by, k, acc) ==
  LET d == Dec(by, k) IN
  IF d.st # "ok" THEN [st |-> d.st, ls |-> acc, k |-> d.k]
  ELSE IF d.w = Zero THEN [st |-> "ok", ls |-> acc, k |-> d.k]
  ELSE IF NotLit(d.w) THEN [st |-> "notlit", ls |-> acc, k |-> d.k]
  ELSE RecvFrom(by, d.k, Append(acc, d.w))
=============================================================================
