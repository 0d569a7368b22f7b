"""One function per property."""
import json
import os
import re

import circ
import cmdrun
import inc
from vlib import *

CHECKS = {}
NOTES = {}
_INC = ("TLA+ specification IncSat; recorded executions of the real solver validated against it by TLC (trace validation)",
        "Every recorded answer is judged by TLC against the abstract solver IncSat: exactly for problems of up to 9 variables "
        "(all assignments), by planted assignments and models for larger ones. Histories are sampled, not exhausted; only what "
        "the public API (and, where it builds, the observation overlay) shows is judged.")
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C22", "C24"):
    NOTES[_p] = _INC
_HIST = "; every history of IncMC up to a length replayed"
_CDCL = "; TLA+ model Cdcl of the search checked exhaustively by TLC, wrong designs refuted"
for _p, _x in (("C01", _HIST), ("C04", _HIST + _CDCL), ("C05", _HIST + _CDCL), ("C07", _HIST + _CDCL), ("C08", _HIST),
               ("C24", _HIST + _CDCL), ("C03", _CDCL)):
    NOTES[_p] = (_INC[0] + _x, _INC[1])


def check(f):
    CHECKS[f.__name__] = f
    return f


CDCL = ["Answers", "Learnt", "Facts", "Bottom", "Fresh", "Trail", "InScope"]


def cdcl(c, calls, refuted):
    """the design of the solver up to some calls, and wrong designs which the model must tell from it"""
    if calls:
        c.tlc_model("Cdcl", {"Calls": calls, "Bug": "none"}, CDCL, name="Cdcl")
        if c.thorough:
            c.tlc_model("Cdcl", {"Calls": 5, "Bug": "none"}, CDCL, ["Ends"], spec="Fair", name="Cdcl-live")
    for b, k in refuted.items():
        c.tlc_refutes("Cdcl", {"Calls": k, "Bug": b}, CDCL, name="Cdcl-" + b)


def hist(c, quick, thorough, aspects):
    """every history of IncMC up to a length"""
    n = inc.histories(c, thorough if c.thorough else quick)
    inc.judge(c, inc.generate(c, "hist", n, 400, 60 if c.thorough else 20), aspects, "hist")


@check
def C01(c):
    c.tlc_model("IncMC", {"Calls": 6 if c.thorough else 5, "Acts": 1, "Depth": 2, "Show": False}, ["Good"], view="Hidden")
    hist(c, 5, 6, {"verdict", "model", "why"})
    inc.run(c, {"core": (20000, 400, 12), "hard": (20000, 400, 12), "mix": (10000, 200, 10), "big": (2000, 40, 15),
                "restart": (150, 16, 12)},
            {"verdict", "model"})


@check
def C02(c):
    inc.run(c, {"core": (15000, 300, 10), "copy": (15000, 300, 10), "mix": (15000, 300, 10), "big": (2000, 60, 15)},
            {"model", "reread"})


@check
def C03(c):
    cdcl(c, 0, {"why": 4})
    inc.run(c, {"asm": (20000, 400, 10), "scope": (15000, 300, 10), "mix": (15000, 300, 10), "big": (2000, 40, 15),
                "fix": (4000, 24, 10)},
            {"why", "whydst"})


@check
def C04(c):
    cdcl(c, 0, {"restart": 4})
    hist(c, 4, 5, {"verdict", "model", "why"})
    inc.run(c, {"asm": (30000, 600, 15), "scope": (15000, 300, 10), "try": (10000, 200, 10), "mix": (10000, 200, 8),
                "restart": (250, 16, 20)},
            {"verdict", "model", "why"})


@check
def C05(c):
    cdcl(c, 0, {"scope": 4, "level0": 5, "untest": 5})
    hist(c, 4, 5, {"testbcp", "testlits", "untest", "verdict", "model", "why"})
    inc.run(c, {"scope": (30000, 600, 15), "rsn": (15000, 300, 10), "mix": (10000, 200, 8), "big": (1000, 40, 10)},
            {"testbcp", "testlits", "untest", "verdict", "model", "why"})


@check
def C06(c):
    inc.run(c, {"rsn": (40000, 1000, 25), "scope": (10000, 300, 10)}, {"rsntrue", "rsnsuffice", "rsncycle"})


@check
def C07(c):
    cdcl(c, 0, {"keep": 5, "fixed": 4})
    hist(c, 4, 5, {"verdict", "model", "why", "actlit", "actrefuse"})
    inc.run(c, {"act": (30000, 600, 15), "db": (10000, 200, 10), "mix": (10000, 200, 8), "big": (1000, 40, 10)},
            {"verdict", "model", "why", "actlit", "actrefuse"})


@check
def C08(c):
    hist(c, 4, 5, inc.ALL)
    inc.run(c, {"copy": (30000, 800, 20), "mix": (10000, 200, 8)}, inc.ALL)


NOTES["C09"] = (
    "TLA+ model Ctl of the user/solver rendezvous, checked exhaustively by TLC (safety, deadlock freedom, every call "
    "returns); every call sequence of CtlPlan (printed by TLC) replayed on the real solver and, with random ones, validated "
    "against Conn/IncSat by TLC", "Model: 2 solves with up to 4 calls each. Real schedules are those the machine produces for problems solved at "
    "once, after a while or never, with control ticks every 1 to 20000 propagations; a call that has not returned after "
    "60 s counts as blocked.")
NOTES["C10"] = (_INC[0] + "; time limits of microseconds to seconds with control ticks every 1 to 20000 propagations",
                "Unknown is accepted only after the limit has passed; a limit is exceeded by more than the slack when a call "
                "returns over 3 s late, repeatedly. " + _INC[1])


@check
def C09(c):
    for fin in (True, False):
        c.tlc_model("Ctl", {"Rounds": 2, "Calls": 4 if c.thorough else 3, "Finishes": fin}, ["Good", "Locked", "OneResult"],
                    ["Returns", "Ends"], spec="Fair", deadlock=True, name="Ctl")
    n = inc.plans(c, 4 if c.thorough else 3)
    inc.run(c, {"plan": (n, n if c.thorough else n // 2, 15), "async": (20000, 500, 10), "asyncbig": (4000, 40, 10), "hardtry": (300, 24, 8)},
            {"conn", "verdict", "model", "why", "reread"})


@check
def C10(c):
    inc.run(c, {"try": (25000, 700, 12), "hardtry": (600, 40, 12), "asyncbig": (2000, 30, 6)},
            {"verdict", "model", "why", "late", "testbcp", "untest"})


@check
def C22(c):
    inc.run(c, {"write": (30000, 700, 15), "mix": (5000, 60, 4)}, {"write", "writeerr", "verdict", "model", "why"})


@check
def C24(c):
    cdcl(c, 7 if c.thorough else 5, {"drop": 4, "keep": 5})
    hist(c, 4, 5, {"verdict", "model", "learnt", "fixed", "reason", "given"})
    inc.run(c, {"db": (30000, 800, 20), "hard": (10000, 200, 8), "big": (2000, 40, 15), "fix": (1500, 12, 8),
                "restart": (150, 16, 12)},
            {"verdict", "model", "learnt", "fixed", "reason", "given"})


NOTES["C12"] = (
    "TLA+ specification IncSat; recorded sessions of crisp clients with a real server validated against it by TLC (trace "
    "validation); TLA+ model CrispDesign of client, server and stopping over a connection which may break, checked exhaustively by TLC",
    "Server and clients run in one process over unix sockets, up to 3 clients at a time. " + _INC[1])
NOTES["C13"] = (
    "TLA+ specification Crisp of the protocol over IncSat; raw connections to a real server: every sequence of requests in every "
    "phase up to a length (CrispPlan, printed by TLC) and random ones, validated by TLC (trace validation)",
    "A request not answered within 8 s counts as blocked. Literals of huge variables, which make the server allocate memory "
    "for them, are not sent.")


@check
def C12(c):
    props = (["Good", "OneAtATime", "InStep"], ["StopReturns", "SyncReturns", "DataReturns", "Ends"])
    for fin in (True, False):
        c.tlc_model("CrispDesign", {"Calls": 8 if c.thorough else 6, "Finishes": fin, "Cuts": True, "OldStop": False}, *props,
                    spec="Fair", deadlock=True, name="CrispDesign-%s" % fin)
    c.tlc_refutes("CrispDesign", {"Calls": 3, "Finishes": True, "Cuts": False, "OldStop": True}, *props, spec="Fair",
                  deadlock=True, name="CrispDesign-OldStop")
    inc.run(c, {"remote": (12000, 500, 15), "remotebig": (4000, 40, 12)},
            {"verdict", "model", "why", "whydst", "reread", "conn", "late", "args", "refuse", "maxvar", "answer", "leak"})


@check
def C13(c):
    n = inc.rawplans(c, 3 if c.thorough else 2)
    inc.run(c, {"rawplan": (n, min(n, 1200), 25), "raw": (12000, 500, 15)},
            {"proto", "leak", "verdict", "model", "why", "args"})


NOTES["C14"] = (
    "TLA+ specification VarUint, its laws checked exhaustively by TLC over boundary numbers and byte strings (VarUintDesign); what "
    "the real code wrote and read is validated against it by TLC (trace validation)",
    "Numbers, chunkings, truncations and failing destinations are sampled, boundary values preferred. Encodings longer than needed "
    "(but of at most 5 bytes and 32 bits) are read as their number. The stream object is reached through an overlay in package "
    "crisp; if that does not build, only through a client.")


@check
def C14(c):
    c.tlc_model("VarUintDesign", {"MaxBytes": 6 if c.thorough else 5}, ["RoundTrip", "Prefixes", "Decoding"])
    circ.run(c, "VuTrace", "vu", {"io": (60000, 600, 8), "net": (3000, 300, 8)}, {"wire"})


# ------------------------------------------------------------------ circuits
GATE = {"gate", "fresh", "eval", "eval64", "struct", "topo", "kinds", "inpos", "at", "kept"}
_CIRC = ("TLA+ specification Circuit; recorded executions of package logic validated against it by TLC (trace validation)",
         "Circuits with up to 6 free variables are judged over all their assignments, larger ones over up to 64 random "
         "assignments; circuits and call sequences are sampled.")
for _p in ("C15", "C16", "C17", "C18"):
    NOTES[_p] = _CIRC


@check
def C15(c):
    circ.run(c, "CircTrace", "circ", {"gate": (60000, 700, 10), "cnf": (5000, 60, 3), "card": (5000, 60, 3)}, GATE)


@check
def C16(c):
    circ.run(c, "CircTrace", "circ", {"cnf": (40000, 400, 10)},
             {"cnfvars", "cnfsound", "cnfunique", "cnfcount", "cnfonce", "struct", "topo"})


@check
def C17(c):
    c.tlc_model("CardNet", {"N": 10 if c.thorough else 8}, ["Permutes", "Sorted", "Counts"])
    circ.run(c, "CircTrace", "circ", {"card": (40000, 500, 10)}, {"card", "struct", "gate", "kept"})


@check
def C18(c):
    circ.run(c, "CircTrace", "circ", {"roll": (60000, 700, 12)}, {"roll", "rollin", "rolllen", "seq", "struct"})


# --------------------------------------------------------------------- aiger
for _p in ("C19", "C20"):
    NOTES[_p] = ("TLA+ specification Aiger (the file format as a function from bytes to circuits); every file the real code "
                 "wrote or read is judged by TLC against it (trace validation)",
                 "Files are sampled: objects of up to about 40 gates, files of up to a few hundred bytes, all prefixes of some. "
                 "Functions are compared over all assignments of up to 5 inputs and latches, over 32 random ones beyond. Where "
                 "the format leaves readers a choice (leading zeros, repeated symbols, an unterminated last comment line, "
                 "headers beyond 10^8 variables) either outcome is accepted.")


@check
def C19(c):
    circ.run(c, "AigerTrace", "aig", {"round": (700, 700, 10), "valid": (500, 500, 10)},
             {"write", "bininit", "read", "copy", "name", "werr"})
    for name, tr, pos, asp in c.notes:
        if "bininit" in asp:
            c.known_finding("bininit", {"kind": name, "trace": tr, "event": pos},
                            "binary aiger states inverted initial values of latches")
            break


@check
def C20(c):
    circ.run(c, "AigerTrace", "aig", {"bad": (900, 900, 10), "prefix": (40, 40, 10), "valid": (100, 100, 5)}, {"reject", "read"})


# -------------------------------------------------------------------- dimacs
NOTES["C21"] = ("TLA+ specification Dimacs (the three formats as functions from bytes to visitor calls); what the real readers "
                "made of every text is judged by TLC against it (trace validation)",
                "Texts are sampled (up to 500 bytes, some over 4 kB; all prefixes of some). Where the formats leave readers a "
                "choice (blank lines around the problem line, leading zeros, a '%' end, numbers of 10^9 and more, fewer "
                "variables used than the header of a strict file states) either outcome is accepted.")


@check
def C21(c):
    circ.run(c, "DimacsTrace", "dim", {"text": (60000, 1500, 8), "bad": (20000, 1500, 6), "cut": (3000, 60, 4),
                                       "long": (3000, 24, 4)}, {"read", "reject"})


# ----------------------------------------------------------------- variables
NOTES["C23"] = ("TLA+ specification VarMap; the design VarMapDesign (two vectors and a free stack) checked exhaustively against "
                "it by TLC; every call sequence of the design up to the bound replayed on z.Vars and, with random ones and the "
                "literal conversions, validated by TLC; executions of the wrapped solver validated against IncSat",
                "All call sequences of up to 3 (thorough: 4) calls over 2 outer variables are replayed, longer ones sampled. "
                "Inner variables of a wrapped solver are put into clauses through the observation overlay.")


@check
def C23(c):
    k = 4 if c.thorough else 3
    c.tlc_model("VarMapDesign", {"Calls": 8 if c.thorough else 6, "Outers": 3, "Show": False}, ["Good"], view="NoPlan")
    ps = []
    for l in c.tlc_print("VarMapDesign", {"Calls": k, "Outers": 2, "Show": True}, "PLAN"):
        ps.append([{"o": a, "a": int(b)} for a, b in re.findall(r'<<\s*"(\w+)",\s*(\d+)\s*', l.split(",", 1)[1])])
    if len(ps) < 300 or any(len(p) != k for p in ps):
        raise CheckError("call sequences of VarMapDesign: %d" % len(ps))
    f = os.path.join(c.dir, "plans.json")
    with open(f, "w") as fh:
        json.dump(ps, fh)
    os.environ["ZZPLANS"] = f
    c.info["plans"] = len(ps)
    asp = {"map", "inner", "conv"}
    circ.judge(c, "VarTrace", "vars", "plan", circ.generate(c, "vars", "plan", len(ps), len(ps), 10), asp)
    circ.run(c, "VarTrace", "vars", {"seq": (300000, 1500, 6), "conv": (300000, 200, 3)}, asp)
    inc.run(c, {"sv": (30000, 500, 12), "core": (8000, 120, 5)}, inc.ALL)


# -------------------------------------------------------- assumption exchange
NOTES["C11"] = (
    "TLA+ model AxDesign of client, serving goroutine and units, checked exhaustively by TLC (every request answered once, never "
    "more than the agreed number of solves, stopping ends everything); every call sequence of AxPlan (printed by TLC), random ones "
    "and concurrent clients on the real service, validated against Ax/IncSat by TLC (trace validation)",
    "The solvers of the service are wrapped so that the script decides in which order solves end; one kind uses them bare. "
    "A call that must return and has not after 6 s (30 s among several clients) counts as blocked. Interleavings of several clients "
    "are those the machine produces.")


@check
def C11(c):
    props = (["Once", "Kept", "AtMost", "FreeUnit", "IdleFree"], ["Serves", "StopEnds"])
    for cap, n in ((1, 3), (2, 5), (3, 5)) if c.thorough else ((1, 3), (2, 4)):
        c.tlc_model("AxDesign", {"Cap": cap, "N": n, "Stops": True, "OldStop": False}, *props, spec="Fair", name="AxDesign-%d" % cap)
    c.tlc_refutes("AxDesign", {"Cap": 2, "N": 3, "Stops": True, "OldStop": True}, *props, spec="Fair", name="AxDesign-OldStop")
    n = inc.axplans(c, 6 if c.thorough else 5)
    inc.run(c, {"axplan": (n, min(n, 1000), 10), "ax": (15000, 400, 7), "axfree": (10000, 250, 8), "axhard": (4000, 40, 5)},
            {"once", "verdict", "model", "why", "units", "pending", "late", "exchange", "load", "busy", "stable", "stop", "request"}, "AxTrace")


# ------------------------------------------------------------ generated problems
NOTES["C25"] = (
    "TLA+ specification Gen (the objects a generated problem is about, the connection of the stand-in solver); the clauses the "
    "real generators delivered judged by TLC against it (trace validation)",
    "Parameters are sampled. Problems of up to 8 variables are judged over all their assignments; larger ones over about 30: "
    "objects built from the definition, models found by local search, random ones, and small changes of these; random colourings "
    "and random clauses by their structure. That random generators can produce everything is judged on long runs.")


@check
def C25(c):
    asp = {"gen", "seed", "stand"}
    circ.run(c, "GenTrace", "gen", {"cnf": (900, 900, 10), "seed": (100, 100, 5), "stand": (200, 200, 10)}, asp)
    for name, tr, pos, a in c.notes:
        if "py2" in a:
            c.known_finding("py2triples", {"kind": name, "trace": tr, "event": pos}, "Py2Triples(n) is not about the triples in [1..n]")
            break


# ------------------------------------------------------------------ the command
NOTES["C26"] = (
    "TLA+ specification Cmd (from the bytes of the inputs and the options to what may be printed and the exit codes, with Dimacs "
    "reading the texts); recorded runs of the built command judged by TLC against it (trace validation)",
    "Inputs, options, packings, damages, time limits and interrupts are sampled. Small problems (up to 7 variables) are decided by "
    "the specification; large ones have a witness or contain a pigeon hole problem. A process may take 30 s beyond its limits.")


@check
def C26(c):
    cmdrun.run(c, {"cnf": 350, "many": 150, "inc": 250, "bad": 250, "usage": 20, "big": 60, "crisp": 150, "slow": 30},
               {"out", "exit", "time"})


# --------------------------------------------------------------- benchmarks
NOTES["C27"] = (
    "TLA+ specification Bench of suites and runs as directories and as opened handles; TLA+ model BenchDesign of executing an instance "
    "within its limit, checked exhaustively by TLC; every call sequence of BenchPlan (printed by TLC) and random ones on the real package, "
    "in scratch directories as an unprivileged user, validated by TLC (trace validation)",
    "Instances are small files, the commands a stand-in which exits, takes its time, burns time or forks as the file says. A limit is "
    "exceeded when a call returns over 3 s late, repeatedly. The bench command itself is run only in this package's calls.")


@check
def C27(c):
    props = ["Recorded", "Right", "NotLeft"], ["Ends"]
    c.tlc_model("BenchDesign", {"Bug": "none"}, *props, spec="Fair")
    for b in ("pipes", "early"):
        c.tlc_refutes("BenchDesign", {"Bug": b}, *props, spec="Fair", name="BenchDesign-" + b)
    asp = {"suite", "run", "keep", "late", "select", "stats", "is", "sel"}
    ps = [re.findall(r'"([^"]*)"', l)[1:] for l in c.tlc_print("BenchPlan", {"Calls": 5 if c.thorough else 4}, "PLAN")]
    f = os.path.join(c.dir, "plans.json")
    with open(f, "w") as fh:
        json.dump(ps, fh)
    os.environ["ZZPLANS"] = f
    c.info["plans"] = len(ps)
    circ.judge(c, "BenchTrace", "bench", "plan", circ.generate(c, "bench", "plan", len(ps), len(ps), 10), asp)
    circ.run(c, "BenchTrace", "bench", {"seq": (800, 800, 20)}, asp)
