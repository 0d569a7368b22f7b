-------------------------------- MODULE VuTrace --------------------------------
(* Trace validation for the wire encoding: a stream object reads the bytes tr.in *)
(* (delivered in any chunks, then an end or an error) and writes to a            *)
(* destination that takes tr.lim bytes (-1: any number).                         *)
EXTENDS VarUint, Json, TLC

CONSTANTS TraceFile, Aspects
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, i, k, out, total, err
vars == <<t, i, k, out, total, err>>
\* k: position in the input; out: bytes written and not yet seen; total: written in all;
\* err: a write or flush returned an error

W(e) == e.w
ReadOk(tr, e) ==
  LET d == Dec(tr.in, k) IN
  IF d.st # "ok" \/ (e.e = "data" /\ Reserved(d.w)) THEN e.r = "err"
  ELSE e.r = "ok" /\ e.w = d.w
RecvOk(tr, e) ==
  LET d == RecvFrom(tr.in, k, <<>>)
  IN IF d.st # "ok" THEN e.r = "err" ELSE e.r = "ok" /\ e.ls = d.ls
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
FlushOk(tr, e) ==
  LET over == tr.lim >= 0 /\ total > tr.lim
  IN IF over THEN (e.err \/ err) /\ Prefix(e.by, out)
     ELSE ~e.err /\ e.by = out
WriteOk(tr, e) == e.err => tr.lim >= 0

Ok(tr, e) ==
  CASE e.e \in {"read", "data"} -> ReadOk(tr, e)
    [] e.e = "recv" -> RecvOk(tr, e)
    [] e.e \in {"write", "send"} -> WriteOk(tr, e)
    [] e.e = "flush" -> FlushOk(tr, e)
    [] OTHER -> FALSE

Init == t \in 1..Len(Traces) /\ i = 1 /\ k = 1 /\ out = <<>> /\ total = 0 /\ err = FALSE
Next ==
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET tr == Traces[t]
         e == tr.ev[i]
         add == CASE e.e = "write" -> Enc(e.w)
                  [] e.e = "send" -> EncAll(e.ls, 1, <<>>) \o <<0>>
                  [] OTHER -> <<>>
     IN IF Ok(tr, e)
        THEN /\ i' = i + 1
             /\ k' = CASE e.e \in {"read", "data"} -> Dec(tr.in, k).k
                       [] e.e = "recv" -> RecvFrom(tr.in, k, <<>>).k
                       [] OTHER -> k
             /\ out' = IF e.e = "flush" THEN <<>> ELSE out \o add
             /\ total' = total + Len(add)
             /\ err' = (err \/ (e.e \in {"write", "send", "flush"} /\ e.err))
        ELSE PrintT(<<"REJECT", tr.id, i, {"wire"}>>) /\ i' = -i /\ UNCHANGED <<k, out, total, err>>
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
