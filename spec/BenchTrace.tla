------------------------------- MODULE BenchTrace -------------------------------
(* Trace validation of package bench. *)
EXTENDS Bench, Json
CONSTANTS TraceFile, Aspects
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, i, disk, hs
vars == <<t, i, disk, hs>>
If(c, name) == IF c THEN {} ELSE {name}
NoRuns == [x \in {} |-> 0]

Files == Traces[t].files
Exists(e) == e.root \in DOMAIN disk
D(e) == disk[e.root]
H(e) == hs[e.h]
HDisk(e) == disk[H(e).root]
HasRun(e) == e.name \in DOMAIN HDisk(e).runs
N(e) == Len(HDisk(e).fs)
Made(e) == [st |-> "ok", fs |-> e.fs, paths |-> e.paths, link |-> e.link, runs |-> NoRuns]

Judge(e) ==
  CASE e.e = "create" ->
         IF Exists(e) \/ e.there THEN If(e.err /\ NoChange(e), "keep")
         ELSE If(OnlyAdds(e, e.root), "keep") \union
              IF 0 \in Range(e.fs) THEN If(e.err, "suite")
              ELSE If(~e.err /\ SuiteOk(Files, Made(e), e.so) /\ RunsOk(NoRuns, e.so.runs), "suite")
    [] e.e = "open" ->
         If(NoChange(e), "keep") \union
         IF ~Exists(e) THEN If(e.err, "suite")
         ELSE IF D(e).st = "junk" THEN {}
         ELSE If(~e.err /\ SuiteOk(Files, D(e), e.so), "suite") \union If(e.err \/ RunsOk(D(e).runs, e.so.runs), "run")
    [] e.e = "run" ->
         IF ~GoodName(e.nm) \/ HasRun(e) THEN If(e.err, "run") \union If(NoChange(e), "keep") \union
                                              If(Names(e.names, DOMAIN H(e).runs), "run")
         ELSE If(OnlyAdds(e, RunDir(H(e).root, e.name)), "keep") \union
              If(/\ ~e.err /\ e.ro.name = e.name /\ e.ro.own
                 /\ e.ro.rec = [e.rec EXCEPT !.t = e.ro.rec.t, !.start = e.ro.rec.start]
                 /\ e.ro.rec.t >= e.t0 - 1 /\ e.ro.rec.t <= e.t1 + 1
                 /\ e.ro.irs = NoIrs(N(e))
                 /\ Names(e.names, DOMAIN H(e).runs \union {e.name}), "run")
    [] e.e = "do" ->
         IF ~HasRun(e) \/ HDisk(e).runs[e.name].done[e.i + 1] THEN If(e.err, "run") \union If(NoChange(e), "keep")
         ELSE LET r == H(e).runs[e.name]   f == Files[HDisk(e).fs[e.i + 1]]
              IN If(OnlyAdds(e, RunDir(H(e).root, e.name)), "keep") \union If(e.cwd, "keep")
                 \union If(~e.err /\ e.ir.i = e.i /\ IrOk(e, r, f), "run")
                 \union If(e.err \/ InTime(e, r, f), "late")
    [] e.e = "remove" ->
         If(IF GoodName(e.nm) /\ HasRun(e) THEN /\ ~e.err /\ e.add = <<>> /\ e.mod = <<>>
                                                /\ Range(e.del) = {p \in Range(e.was) : AtOrUnder(p, RunDir(H(e).root, e.name))}
            ELSE NoChange(e) /\ (~GoodName(e.nm) => e.err), "keep")
         \union If(Names(e.names, IF GoodName(e.nm) THEN DOMAIN H(e).runs \ {e.name} ELSE DOMAIN H(e).runs), "run")
    [] e.e = "select" ->
         If(NoChange(e), "keep") \union
         If(/\ Names(e.got, DOMAIN H(e).runs \intersect Range(e.keep)) /\ e.own
            /\ Names(e.after, DOMAIN H(e).runs) /\ e.afterown, "select")
    [] e.e = "len" -> If(e.suite = N(e) /\ e.run = N(e), "run")
    [] e.e = "stats" -> If(StatsOk(e, H(e).runs[e.name].irs), "stats")
    [] e.e = "summary" -> If(SummaryOk(e, H(e).runs), "stats")
    [] e.e = "listing" -> If(ListingOk(e, H(e).runs, N(e)), "stats")
    [] e.e = "cactus" -> If(CactusOk(e, H(e).runs, N(e)), "stats")
    [] e.e = "scatter" -> If(ScatterOk(e, H(e).runs, N(e)), "stats")
    [] e.e = "is" ->
         If(IF ~Exists(e) THEN ~e.suite /\ ~e.run
            ELSE IF D(e).st = "junk" THEN TRUE
            ELSE IF e.name = "" THEN e.suite /\ ~e.run
            ELSE ~e.suite /\ (e.run = (e.name \in DOMAIN D(e).runs)), "is")
    [] e.e = "sel" -> If(NoChange(e), "keep") \union If(SelOk(Files, e), "sel")
    [] e.e \in {"panic", "hang"} -> {"live"}
    [] OTHER -> {"driver"}

NewDisk(e) ==
  CASE e.e = "create" /\ ~Exists(e) /\ ~e.there -> (e.root :> (IF e.err THEN [Made(e) EXCEPT !.st = "junk"] ELSE Made(e))) @@ disk
    [] e.e = "run" /\ ~e.err ->
         [disk EXCEPT ![H(e).root].runs =
            (e.name :> [rec |-> e.ro.rec, irs |-> NoIrs(N(e)), done |-> [k \in 1..N(e) |-> FALSE]]) @@ @]
    [] e.e = "do" /\ ~e.err ->
         [disk EXCEPT ![H(e).root].runs[e.name].irs[e.i + 1] = e.ir, ![H(e).root].runs[e.name].done[e.i + 1] = TRUE]
    [] e.e = "remove" /\ HasRun(e) ->
         [disk EXCEPT ![H(e).root].runs = [x \in DOMAIN @ \ {e.name} |-> @[x]]]
    [] OTHER -> disk
Mem(runs) == [x \in DOMAIN runs |-> [rec |-> runs[x].rec, irs |-> runs[x].irs]]
NewHs(e) ==
  CASE e.e = "create" /\ ~e.err -> (e.h :> [root |-> e.root, runs |-> NoRuns]) @@ hs
    [] e.e = "open" /\ ~e.err -> (e.h :> [root |-> e.root, runs |-> Mem(D(e).runs)]) @@ hs
    [] e.e = "run" /\ ~e.err -> [hs EXCEPT ![e.h].runs = (e.name :> [rec |-> e.ro.rec, irs |-> NoIrs(N(e))]) @@ @]
    [] e.e = "do" /\ ~e.err -> [hs EXCEPT ![e.h].runs[e.name].irs[e.i + 1] = e.ir]
    [] e.e = "remove" /\ GoodName(e.nm) -> [hs EXCEPT ![e.h].runs = [x \in DOMAIN @ \ {e.name} |-> @[x]]]
    [] OTHER -> hs

Init == t \in 1..Len(Traces) /\ i = 1 /\ disk = [x \in {} |-> 0] /\ hs = [x \in {} |-> 0]
Next ==
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[i]
         bad == Judge(e) \intersect (Aspects \union {"live", "driver"})
     IN IF bad = {} THEN i' = i + 1 /\ disk' = NewDisk(e) /\ hs' = NewHs(e)
        ELSE PrintT(<<"REJECT", Traces[t].id, i, bad>>) /\ i' = -i /\ UNCHANGED <<disk, hs>>
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
