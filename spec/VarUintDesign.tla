----------------------------- MODULE VarUintDesign -----------------------------
(* The encoding itself: it is inverse to decoding, also in the middle of other *)
(* bytes; no encoding is the beginning of another; what decodes is at most     *)
(* five bytes; every number has one shortest encoding, which is Enc.           *)
EXTENDS VarUint
CONSTANTS MaxBytes
VARIABLES w, by
Halves == {0, 1, 2, 63, 64, 127, 128, 129, 255, 256, 511, 512, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 65279,
           65280, 65534, 65535}
Bytes == {0, 1, 15, 16, 17, 127, 128, 129, 143, 144, 255}
Init == \/ w \in Halves \X Halves /\ by = <<>>
        \/ w = Zero /\ by \in {<<b>> : b \in Bytes}
Next == /\ by # <<>> /\ Len(by) < MaxBytes
        /\ \E b \in Bytes : by' = Append(by, b)
        /\ UNCHANGED w
Spec == Init /\ [][Next]_<<w, by>>

RoundTrip ==
  by = <<>> =>
    \A pre \in {<<>>, <<7>>, <<255, 3>>} : \A post \in {<<>>, <<0>>, <<128, 128>>} :
      LET d == Dec(pre \o Enc(w) \o post, Len(pre) + 1)
      IN d.st = "ok" /\ d.w = w /\ d.k = Len(pre) + 1 + Len(Enc(w))
Prefixes ==
  by = <<>> => \A n \in 0..(Len(Enc(w)) - 1) : Dec(SubSeq(Enc(w), 1, n), 1).st = "end"
Decoding ==
  by # <<>> =>
    LET d == Dec(by, 1) IN
      /\ d.k <= 6
      /\ d.st = "ok" => d.w \in Words /\ Len(Enc(d.w)) <= d.k - 1
                        /\ ((Len(Enc(d.w)) = d.k - 1) = (Enc(d.w) = SubSeq(by, 1, d.k - 1)))
      /\ (d.st = "end") = (Len(by) <= 4 /\ \A j \in DOMAIN by : by[j] >= 128)
=============================================================================
