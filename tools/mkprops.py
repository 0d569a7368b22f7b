#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts live)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":list(observe),"hook_needed":hook}})

p("C01","A solve's verdict is right after any incremental history",
 "Whenever a solver answers sat, the clauses added so far have a model in which all assumptions in force hold, and whenever it answers unsat, they have none. A plain solve always answers one of the two, and keeps doing so however often solving, adding clauses and assuming alternate, including after the clauses themselves have become unsatisfiable.",
 ["histories","inputs"],
 "every sequence of adding clauses (empty, unit, duplicate-literal, tautological and growing-variable ones included), assuming, solving and reading results, on one solver",
 "The tests solve a few php and random 3-cnf instances once or twice and compare sat answers with the solver's own model check; no test knows the right answer of an arbitrary history, and wrong unsat answers after earlier solves are invisible to them.",
 ["internal/xo/s.go","internal/xo/cdb.go","internal/xo/trail.go","internal/xo/derive.go","gini.go"],
 [("CDCL loop: propagate, derive, back-jump, guess","internal/xo/s.go:Solve"),
  ("clause intake and level-0 units / empty clause","internal/xo/cdb.go:Add"),
  ("clean-up of the previous solve's conflict","internal/xo/s.go:cleanupSolve")],
 [("clauses","the conjunction of everything added","internal/xo/cdat.go"),("assumptions","literals assumed for the next solve","internal/xo/s.go:assumes")],
 ["return value of Solve / Try / Test","Value after sat"])

p("C02","A sat answer comes with a complete model of clauses and assumptions",
 "After a sat answer, reading values gives every variable exactly one truth value, a literal and its negation always differ, every clause added so far has a true literal and every assumption in force is true. Re-reading the values before the next operation gives the same model.",
 ["histories","inputs"],
 "every history that ends in a sat answer of solve, try, test, or an asynchronous or concurrent solve",
 "Models are only checked by the solver's own internal self check, which reads the same clause store and the same assignment that a defect would have corrupted, and never looks at assumptions.",
 ["internal/xo/s.go","internal/xo/vars.go","internal/xo/cdat.go","internal/xo/trail.go"],
 [("complete assignment before answering sat","internal/xo/s.go:Solve (guess == LitNull)"),("trail assignment","internal/xo/trail.go:Assign")],
 [("values","truth value per literal","internal/xo/vars.go:Vals")],
 ["Value(m)"])

p("C03","Why returns assumptions in force that really are inconsistent",
 "After an unsat answer, the reported failed assumptions are all among the assumptions in force for that answer, and the clauses added so far are inconsistent with just the reported ones. In particular the report is empty only when the clauses alone are unsatisfiable. A list once returned stays the caller's: nothing done later changes it.",
 ["histories","inputs"],
 "every history ending in an unsat answer of solve, try or test, with any mix of consumed and tested assumptions, repeated, contradictory or already implied ones",
 "Tests look at the failed set of one or two hand-written problems; whether the failed set suffices depends on every learned clause and on the order of propagation in the whole history.",
 ["internal/xo/s.go","crisp/client.go","ax/ax.go"],
 [("final conflict analysis","internal/xo/s.go:Why/final/finalRec")],
 [("failed","last failed assumptions","internal/xo/s.go:failed")],
 ["Why(dst)"])

p("C04","Assumptions last exactly one solve, unless tested",
 "An assumption made with assume holds for the next solve or test and for no later one: a solve forgets the assumptions made since the last test, whatever its answer. Assumptions that were tested stay in force for every solve until the matching untest, and then no longer hold.",
 ["histories"],
 "every interleaving of assume, solve, try, test and untest, with any answers in between",
 "A handful of fixed interleavings are tested; leaking or losing an assumption needs a particular sequence of sat/unsat answers and scopes before it changes a verdict.",
 ["internal/xo/s.go"],
 [("assumption list reset on every solve exit","internal/xo/s.go:Solve (defer)"),("scope stack","internal/xo/s.go:Test/Untest, testLevels")],
 [("testLevels","stack of test scopes","internal/xo/s.go")],
 ["Solve/Test/Untest results","Value of assumed literals","Why"])

p("C05","Test and untest open and close sound propagation scopes",
 "Test answers unsat only if the clauses and the assumptions in force are inconsistent, sat only with a full model, and unknown only if unit propagation of the added clauses finds no conflict; the literals it returns include every assumption newly assigned and everything unit propagation derives from them, and all of them follow from clauses and assumptions. Untest restores exactly the assumptions of the enclosing scope and answers unsat only if these are inconsistent with the clauses. Lists returned stay as returned, whatever is done later.",
 ["histories","inputs"],
 "every properly nested sequence of assume, test, solve and untest (any depth), over any clauses",
 "The tests check return codes on php and a few random instances; they never compare the propagated literals or the restored state with the clauses' meaning.",
 ["internal/xo/s.go","internal/xo/trail.go"],
 [("makeAssumptions under Test","internal/xo/s.go:Test"),("backWithLates","internal/xo/trail.go"),("cleanupSolve bounded by endTestLevel","internal/xo/s.go:cleanupSolve")],
 [("endTestLevel","decision level of the innermost scope","internal/xo/s.go")],
 ["Test/Untest return values"])

p("C06","Reasons of implied literals are true, acyclic and sufficient",
 "For a literal returned by test, the reported reasons are literals that are true in that scope, and clauses together with the reasons imply the literal. Following reasons from any implied literal never cycles and ends in assumptions or in literals implied by the clauses alone. Lists returned stay as returned, whatever is done later.",
 ["histories","inputs"],
 "every literal returned by a test, at any scope depth and after any number of solves that learned clauses or reclaimed clause memory",
 "No existing test examines the reasons' meaning; reasons point into clause memory that is moved by garbage collection and rearranged by watching.",
 ["internal/xo/s.go","internal/xo/trail.go","internal/xo/cdat.go"],
 [("implied literal is kept first in its reason clause","internal/xo/trail.go:Prop"),("relocation of reasons","internal/xo/cdb.go:relocate")],
 [("Reasons","clause that implied each variable","internal/xo/vars.go")],
 ["Reasons(dst, m)"])

p("C07","Activated clauses bind exactly while their literal is assumed",
 "A clause added with an activation literal constrains exactly the solves that assume that literal, any number of clauses may share one literal, and it never constrains a solve that does not assume it. After deactivation those clauses are gone for good while all other clauses stay, and an activation literal handed out later, recycled or not, behaves like a brand-new one.",
 ["histories","inputs"],
 "every interleaving of activating, assuming, solving and deactivating, with recycling of literals and reclaiming of clauses",
 "Tests activate and deactivate in one loop over random clauses and only look for internal panics; a stale or lost clause shows only as a wrong verdict in a later solve of a specific history.",
 ["internal/xo/active.go","internal/xo/cdb.go","internal/xo/s.go","gini.go"],
 [("occurrence lists per activation literal, recycled literals","internal/xo/active.go"),("removal of clauses and of learned clauses that mention the literal","internal/xo/cdb.go:Remove")],
 [("Occs","clauses of each activation literal","internal/xo/active.go"),("Free","recyclable literals","internal/xo/active.go")],
 ["Activate/ActivateWith/ActivationLit/Deactivate, Solve"])

p("C08","A copy is an equivalent and independent solver",
 "A copy taken at any point between operations, or while an asynchronous solve is paused, has the same clauses, activation literals, scopes and last result as the original. From then on neither is affected by anything done to the other, even when both are used concurrently.",
 ["histories","schedules"],
 "every history before the copy, every pair of histories after it, and every interleaving of the two when run in parallel",
 "One test copies a paused solver and solves; sharing of a slice or forgetting of a field shows only after particular later operations on one of the two.",
 ["internal/xo/s.go","internal/xo/cdb.go","internal/xo/cdat.go","internal/xo/cgc.go","internal/xo/vars.go","internal/xo/guess.go","internal/xo/active.go","gini.go"],
 [("deep copies of all parts","internal/xo/s.go:Copy and the Copy methods it calls")],
 [],["Copy/SCopy, then all operations of both"])

p("C09","Asynchronous solves deliver exactly one right result in every schedule",
 "An asynchronous solve delivers one result: the right verdict when it finished, or unknown only when it was told to stop or timed out; waiting, testing, trying, pausing, unpausing and stopping never lose, invent or duplicate a result and never block forever, whatever the timing. A stopped, timed-out or paused-and-resumed solver is left fully usable, and its later answers are right.",
 ["schedules","histories"],
 "every schedule of control calls against the solving goroutine and every sequence of control calls the interface permits",
 "The tests exercise a few control calls with real-time sleeps, so one or two schedules; the races between a result arriving and a control request are never forced.",
 ["internal/xo/ctl.go","internal/xo/s.go","gini.go","inter/solve.go"],
 [("rendezvous channels for stop, pause and result","internal/xo/ctl.go"),("control tick in the solve loop","internal/xo/s.go:Solve")],
 [("cResult, cStopOrPause","unbuffered channels between user and solver","internal/xo/ctl.go")],
 ["GoSolve and the returned connection's Stop/Try/Test/Pause/Unpause/Wait"])

p("C10","A time limit bounds only its own call",
 "A solve with a time limit returns, within bounded slack of the limit, either a right verdict or unknown, and never unknown before the limit has passed. Having been timed out changes nothing about later calls: clauses and tested assumptions are kept, the limit does not carry over, and later solves answer as a fresh solver would.",
 ["histories","schedules","inputs"],
 "every history in which time-limited solves, with limits that expire or not, are mixed with other operations",
 "The tests check a single time-limited solve of one easy and one hard instance on a fresh solver; nothing is asked of the solver afterwards.",
 ["internal/xo/s.go","internal/xo/ctl.go","ax/ax.go","gini.go"],
 [("deadline check at the propagation tick","internal/xo/s.go:Solve"),("deadline bookkeeping","internal/xo/s.go:Try")],
 [("deadline","point in time after which solve gives up","internal/xo/s.go")],
 ["Try(d), later Solve/Assume/Add"])

p("C11","The concurrent solving service answers each request exactly once, right",
 "Every request accepted by the assumption-solving service is answered exactly once, under its own assumptions and only these, with a right verdict and, when asked for, a model or failed assumptions that fit that request; unknown is answered only if the request's time limit passed. A request keeps what it was made with, whatever its maker does to the slices afterwards, and a request generator never repeats a number. At most the agreed number of solves run at once, each answer tells how many accepted requests are still open, and stopping the service ends it without blocking forever.",
 ["schedules","histories","configurations"],
 "every sequence of submit, receive, try and stop calls, any capacity, any mix of limits and options, any order in which the workers finish",
 "The tests submit a few requests in a fixed order; the mapping of answers to requests under arbitrary completion orders and the shutdown path are not reached.",
 ["ax/ax.go","ax/req.go","ax/resp.go"],
 [("serving goroutine and per-copy solving goroutines","ax/ax.go:serve/handleReq/handleResult"),("time limits by alarm","ax/ax.go:alarm")],
 [("units","solver copies with their state","ax/ax.go")],
 ["ax.NewT", "ax.T.Ex", "ax.T.TryEx", "ax.T.Stop", "ax.Request", "ax.Response"])

p("C12","A remote solver behaves like a local one over any session",
 "A client connected to a solving server observes for every sequence of adding, assuming, solving, reading values, failed assumptions and models, resetting and stopping exactly what a local solver over the same clauses may answer. After a reset it behaves like a new connection, and sessions of different clients never influence each other.",
 ["histories","schedules"],
 "every sequence of client calls in one session and any number of concurrent sessions up to the server's capacity",
 "The tests run a few straight-line sessions; stale cached answers and leftovers across solves and resets need multi-step sessions.",
 ["crisp/client.go","crisp/server.go","crisp/handler.go","crisp/netsolve.go"],
 [("request encoding and answer caching","crisp/client.go"),("per-connection solver and protocol state","crisp/handler.go")],
 [("model, failed caches","answers cached at the client","crisp/client.go")],
 ["crisp.Client methods"])

p("C13","The server enforces the protocol's call order without harming others",
 "A request that the protocol does not allow in the connection's current state, or that is malformed, is answered with the protocol's error and never with a wrong answer, and never blocks or crashes the server. Whatever bytes one client sends, short of using up the machine's memory, and however it disconnects, other and later clients are served correctly.",
 ["histories","fault_sequences","inputs"],
 "every sequence of raw protocol requests, legal or not, truncated or malformed, with disconnections at any point",
 "The tests only speak the protocol through the well-behaved client.",
 ["crisp/handler.go","crisp/proto.go","crisp/server.go","docs/crisp/crisp.tex"],
 [("protocol state check before each request","crisp/handler.go"),("request vocabulary","crisp/proto.go")],
 [("proto","protocol state of the connection","crisp/handler.go")],
 ["bytes on the connection"])

p("C14","The wire encoding of numbers and literals is lossless in any chunking",
 "Any sequence of unsigned 32-bit numbers written with the protocol's variable-length encoding is read back as the same sequence, however reads and writes are split into chunks, and literal sequences keep order and sign. Encodings of numbers of more than 32 bits and early ends of the stream are reported as errors, never as numbers.",
 ["inputs","schedules","fault_sequences"],
 "every sequence of 32-bit values (boundary values included), every chunking of the stream, every truncation",
 "One test round-trips random values through an in-memory buffer in one chunk.",
 ["crisp/vu32io.go","crisp/exts.go"],
 [("7-bit groups with continuation bit","crisp/vu32io.go")],
 [],["vu32io put/get via the network connection"])

p("C15","Combinational circuits mean their Boolean formulas",
 "Every circuit literal built with and, or, xor, implication, choice and their n-ary forms evaluates, for every input assignment, to that Boolean function of its arguments, however gates are simplified or shared and however the circuit grows. Evaluating with booleans and with 64 parallel lanes agree in every lane, and sharing never identifies two literals whose functions differ. Slices passed in are left as they were.",
 ["inputs","programs"],
 "every construction sequence of gates over inputs, constants and earlier literals, and every input assignment",
 "Tests build a few gates and check satisfiability of their equivalence; simplification and sharing cases depend on operand order, signs, constants and table growth.",
 ["logic/c.go"],
 [("structural hashing and local simplification","logic/c.go:And"),("evaluation","logic/c.go:Eval/Eval64")],
 [("nodes, strash","and-inverter graph with hash table","logic/c.go")],
 ["literals returned, Eval, Eval64"])

p("C16","Clausal translation of a circuit has exactly the circuit's behaviours",
 "The clauses produced for a circuit have, for every assignment of the circuit's inputs, exactly one extension to its gates, and it gives each gate its function's value; asserting a literal therefore leaves exactly the input assignments that make it true. Translating incrementally in any number of steps and orders, from any chosen roots, yields together the same meaning for everything reachable from those roots, delivers each clause once and reports how many gates it added.",
 ["programs","inputs","histories"],
 "every circuit, every choice of roots and every sequence of incremental translation steps interleaved with building more gates",
 "Tests check one equivalence and one counter; a missing or flipped clause on a gate not on the checked path is invisible.",
 ["logic/c.go"],
 [("Tseitin clauses per and gate","logic/c.go:ToCnf/ToCnfFrom/CnfSince")],
 [("marks","gates already translated","logic/c.go:CnfSince")],
 ["clauses delivered to the adder"])

p("C17","Cardinality literals count correctly at every bound",
 "For any list of literals (repetitions and constants included, any length) the literals returned for less-or-equal, greater-or-equal, less and greater than a bound are true exactly when the number of true list members satisfies that comparison, for every bound, those below 0 and beyond the length included. Sorting outputs are monotone and are a permutation of the inputs, and the list passed in is left as it was.",
 ["inputs","programs"],
 "every list of literals of any length, every bound, every input assignment",
 "Tests sample a few sizes and random assignments.",
 ["logic/card.go"],
 [("odd-even merge sorting network","logic/card.go")],
 [],["Leq/Geq/Less/Gr"])

p("C18","Unrolling a sequential circuit is simulating it",
 "For every sequential circuit, every literal and every time step, the unrolled literal evaluates to the value that step-by-step simulation from the initial state gives that literal at that step, as a function of the unrolled inputs of each step and of the free initial values. Asking in any order of literals and times, and repeatedly, gives consistent literals, and the reported unrolled lengths are those asked for.",
 ["programs","inputs","histories"],
 "every sequential circuit (latches initialised true, false or free), every order of unrolling queries, every input sequence",
 "Tests unroll single latches, a constant and one counter in increasing time order.",
 ["logic/roll.go","logic/s.go"],
 [("memoised per-literal unrolling","logic/roll.go:At"),("latch initial and next values","logic/s.go:Latch/SetNext")],
 [("dmap","unrolled literal per literal and step","logic/roll.go")],
 ["Roll.At, Eval of the unrolled circuit"])

p("C19","Aiger files round-trip the circuit's behaviour",
 "Writing a sequential circuit in ascii or binary aiger and reading it back yields a circuit with the same inputs, latches (with initial values and next-state functions), outputs, bad-state, constraint, justice and fairness signals and symbol names, position by position with the same functions. A destination that fails makes the write report an error. Valid aiger text is read as the function the aiger format defines.",
 ["inputs","programs"],
 "every sequential circuit with any sharing, constants and inverted roots, in both formats, and every valid aiger file",
 "Tests write or read single example files and mostly check for the absence of errors.",
 ["logic/aiger/aiger.go","logic/aiger/dfs.go"],
 [("ascii and binary writers","logic/aiger/aiger.go:WriteAscii/WriteBinary"),("readers with and-gate ordering","logic/aiger/aiger.go:ReadAscii/ReadBinary, dfs.go")],
 [],["WriteAscii/WriteBinary/ReadAscii/ReadBinary"])

p("C20","Malformed aiger input is rejected with an error",
 "Input that is not a valid aiger file - wrong counts, undefined or twice-defined literals, combinational cycles, bad initial values, missing sections, early end - is answered with an error, never with a circuit, a panic or an endless loop. Every prefix of a valid file that is not itself valid is likewise rejected.",
 ["inputs","fault_sequences"],
 "every single-fault corruption and every truncation of a valid ascii or binary file",
 "Four hand-made bad files are tested.",
 ["logic/aiger/aiger.go"],
 [("header and section checks","logic/aiger/aiger.go:readHeader.."),("definition and cycle checks","logic/aiger/aiger.go:commit/mapAnds")],
 [],["ReadAscii/ReadBinary errors"])

p("C21","Dimacs readers deliver exactly the file's clauses, cubes and models",
 "Reading a dimacs cnf, incremental cnf or solver-output text delivers to the visitor exactly the clauses, assumption cubes, status and values the text contains, in order, whatever comments, line breaks, blanks or buffer boundaries it has. Text that is not in the format is answered with an error, in strict mode also for wrong header counts.",
 ["inputs","fault_sequences"],
 "every text of the three formats with any layout, any read chunking and any single-fault corruption",
 "Tests read a few small well-formed strings in one chunk.",
 ["dimacs/cnf.go","dimacs/icnf.go","dimacs/solve.go","dimacs/cfilt.go","dimacs/int.go","dimacs/lit.go","gini.go"],
 [("comment filter and token readers","dimacs/cfilt.go, dimacs/int.go"),("cnf / icnf readers","dimacs/cnf.go, dimacs/icnf.go")],
 [],["visitor callbacks, returned errors"])

p("C22","Written dimacs states exactly the clauses in force",
 "At any point of any history, writing a solver as dimacs produces a valid file whose header matches its content and whose models, over the solver's variables, are exactly the models of the clauses in force; reading it back gives an equivalent solver. Writing never disturbs the solver, and an error of the destination is returned.",
 ["histories","inputs"],
 "every history of adding, solving, activating, deactivating and writing, the empty solver included",
 "One test writes a fixed clause set once.",
 ["gini.go","internal/xo/cdb.go","internal/xo/dimacs.go","internal/xo/cdat.go"],
 [("clause store traversal","internal/xo/cdb.go:Write, internal/xo/cdat.go:Dimacs")],
 [],["Gini.Write, NewDimacs"])

p("C23","Variables and literals of inner and outer users never collide",
 "With inner variables allocated alongside the user's own, every outer literal keeps denoting the same variable for its lifetime, a fresh literal or inner variable never coincides with one in use, and freed inner variables may be reused only after being freed; conversions between outer and inner and between integer and literal form are exact inverses. A solver wrapped this way answers like one without the wrapping over the user's clauses.",
 ["histories","inputs"],
 "every interleaving of using outer literals, allocating and freeing inner variables, asking for fresh literals and solving",
 "One test maps a few literals; collisions need particular allocation orders.",
 ["z/dv.go","z/lit.go","z/var.go","sv.go","gini.go"],
 [("two-way variable maps with a free list","z/dv.go"),("wrapping of solver operations","sv.go")],
 [],["ToInner/ToOuter, Inner, FreeInner, Lit, wrapped Add/Assume/Value/Why"])

p("C24","Learning, restarts and clause clean-up never change the problem",
 "Everything a solver derives and keeps - learned clauses, fixed literals, reasons - follows from the clauses it was given, and no given clause in force is ever lost or altered by restarts, clause garbage collection, memory compaction or growth, at any moment between operations. Long-running and incremental solving therefore gives the same verdicts as a fresh solver.",
 ["histories","inputs","schedules"],
 "every problem and history, including ones with many thousand conflicts, restarts and collections, and collections between incremental calls",
 "Collections need thousands of conflicts before they happen at all and the tests compare nothing afterwards; a lost clause is only visible as a wrong later answer.",
 ["internal/xo/cgc.go","internal/xo/cdat.go","internal/xo/cdb.go","internal/xo/derive.go","internal/xo/watch.go","internal/xo/trail.go"],
 [("collection and relocation","internal/xo/cgc.go, internal/xo/cdat.go:Compact, internal/xo/cdb.go"),("conflict analysis and minimisation","internal/xo/derive.go"),("watch lists","internal/xo/watch.go, internal/xo/trail.go:Prop")],
 [("CDat","clause arena","internal/xo/cdat.go"),("Watches","two watched literals per clause","internal/xo/vars.go")],
 ["verdicts and models of long histories; clause store between operations"])

p("C25","Generated problems mean what their names say",
 "Each generator produces a formula whose satisfying assignments are exactly the objects it is named for: pigeon-hole placements, partitions into sets, pythagorean-triple colourings, graph colourings, and random clauses of the requested width and number over the requested variables. In particular each generated instance has the verdict that mathematics gives it. The same seed gives the same random clauses, everything that was asked for can come out, and the stand-in solver for tests keeps the calling protocol of a real one and gives the answer it was told to give.",
 ["inputs","configurations"],
 "every parameter choice of every generator and every random seed",
 "Tests run generators once and mostly look for crashes or one known verdict.",
 ["gen/gen.go","gen/color.go","gen/pt.go","gen/cubes.go","gen/rands.go"],
 [("clause generation","gen/*.go")],
 [],["clauses delivered to the adder"])

p("C26","The gini command reports right verdicts, models and exit codes",
 "For every cnf input, plain or compressed, from a file or standard input, the command prints the one status line that is right for it, and on request values that form a model, ended by a 0, or failed assumptions that suffice; with -satcomp it exits 10 for sat, 20 for unsat and 0 for unknown. For incremental inputs it reports for each cube, in order, the right verdict, with or without assumption exchange. Unknown is printed only when the time limit has passed or it was interrupted; inputs that cannot be read or are damaged get no verdict and do not keep other inputs from theirs.",
 ["inputs","configurations"],
 "every input file and every combination of the command's options, time limits included",
 "The command has no tests at all.",
 ["cmd/gini/main.go","cmd/gini/icnf.go","dimacs/solve.go"],
 [("main flow and exit codes","cmd/gini/main.go"),("cube loop","cmd/gini/icnf.go")],
 [],["stdout and exit status of the built command"])

p("C27","Benchmark suites and runs read back as they were made",
 "A suite made of files, copied or linked, holds them in the order given with their contents and known extensions, and what is returned and every later opening of it give the same instances, origins and hashes. A run records, for each instance done, sat exactly for exit code 10, unsat exactly for 20, otherwise unknown, with output, error and times; a command is ended when the limit of the instance or of the run has passed. Opening a run reads back its name, command, limits, start, environment (values of one line) and every result at the index of its instance; instances not done are unknown. Making a suite or run where there is one, a run name which is no plain name, and running an instance again are errors and change nothing; removing a run removes exactly that run, selecting runs changes nothing. Totals, rates, summaries, listings and plots state what is recorded, and drawing them never fails. Selecting files gives as many as asked, if there are, of those that match, none more often than the directories listed hold it.",
 ["histories","inputs","configurations"],
 "every history of creating, opening, running, removing and comparing, every set of files and limits",
 "The package has no tests at all; its value is what it reads back long after it was written.",
 ["bench/suite.go","bench/run.go","bench/instrun.go","bench/cmp.go","bench/sel.go"],
 [("making and reading suites and runs","bench/suite.go, bench/run.go"),("executing an instance within limits","bench/instrun.go"),("comparing","bench/cmp.go"),("selecting files","bench/sel.go")],
 [("suite","directory: instances, map, hash, runs","bench/suite.go"),("run","directory: command, limits, environment, a directory per instance","bench/run.go")],
 ["returned objects and the directory tree after each call"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
