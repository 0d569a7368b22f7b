------------------------------- MODULE VarTrace -------------------------------
(* Trace validation of z.Vars and of the conversions of literals. *)
EXTENDS VarMap, Json, TLC
CONSTANTS TraceFile, Aspects
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, i, st
vars == <<t, i, st>>
If(c, name) == IF c THEN {} ELSE {name}

(* unsigned 32-bit words as <<high, low>> 16-bit halves *)
Word(d) == LET v == VAbs(d) IN <<v \div 32768, (v % 32768) * 2 + (IF d < 0 THEN 1 ELSE 0)>>
ConvOk(e) ==
  LET v == VAbs(e.d) IN
  /\ e.lit = Word(e.d)                           \* integer to literal
  /\ e.back = e.d                                \* and back
  /\ e.v = v
  /\ e.not = Word(-e.d) /\ e.nn = e.lit /\ e.vn = v
  /\ e.sign = (IF e.d < 0 THEN -1 ELSE 1) /\ e.pos = (e.d > 0)
  /\ e.vpos = Word(v) /\ e.vneg = Word(-v)
  /\ e.str = ToString(e.d)
  /\ e.vstr = "v" \o ToString(v)

Step(p, e) ==
  CASE e.e = "in" -> <<If(InOk(p, e.m, e.r), "map"), InNext(p, e.m, e.r)>>
    [] e.e = "ins" -> <<If(Len(e.rs) = Len(e.ms) /\ InsOk(p, e.ms, e.rs, 1), "map"),
                        IF Len(e.rs) = Len(e.ms) THEN InsNext(p, e.ms, e.rs, 1) ELSE p>>
    [] e.e = "out" -> <<If(OutOk(p, e.m, e.r), "map"), OutNext(p, e.m, e.r)>>
    [] e.e = "outs" -> <<If(\A k \in DOMAIN e.ms : OutKnown(p, e.ms[k]), "driver")
                         \union If(e.rs = OutSeq(p, e.ms, 1, <<>>), "map"), p>>
    [] e.e = "inner" -> <<If(InnerOk(p, e.r), "inner"), InnerNext(p, e.r)>>
    [] e.e = "free" -> <<If(FreeOk(p, e.m), "driver"), FreeNext(p, e.m)>>
    [] e.e = "conv" -> <<If(ConvOk(e), "conv"), p>>
    [] e.e \in {"panic", "crash", "hang"} -> <<{"live"}, p>>
    [] OTHER -> <<{"driver"}, p>>

Init == t \in 1..Len(Traces) /\ i = 1 /\ st = (0 :> VNew)
Next ==
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[i] IN
     IF e.e = "copy" THEN st' = (e.t :> st[e.s]) @@ st /\ i' = i + 1
     ELSE LET s == Step(st[e.s], e)
              bad == (s[1] \union If(Coherent(s[2]), "map")) \intersect (Aspects \union {"live", "driver"})
          IN IF bad = {} THEN st' = [st EXCEPT ![e.s] = s[2]] /\ i' = i + 1
             ELSE PrintT(<<"REJECT", Traces[t].id, i, bad>>) /\ i' = -i /\ st' = st
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
