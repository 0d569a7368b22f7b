"""Runs of the built gini command: inputs and options at random, what was printed and when."""
import bz2
import concurrent.futures
import gzip
import os
import random
import re
import signal
import subprocess
import time
from vlib import *

GRACE = 30.0       # seconds a run may take beyond its limits


def lit(r, n):
    return r.randint(1, n) * r.choice((1, -1))


def text(r, cl, n, hdr=True):
    """a cnf text without anything doubtful"""
    s = []
    if r.random() < .3:
        s.append("c %s" % r.choice(("generated", "1 2 0", "p cnf 1 1")))
    if hdr:
        s.append("p cnf %d %d" % (n, len(cl)))
    if r.random() < .2:
        s.append("c x")
    for c in cl:
        w = [str(x) for x in c] + ["0"]
        if r.random() < .1 and len(w) > 1:
            k = r.randrange(1, len(w))
            s += [" ".join(w[:k]), " ".join(w[k:])]
        elif r.random() < .1 and s and s[-1][:1] not in "cp":
            s[-1] += " " + " ".join(w)
        else:
            s.append(" ".join(w))
    return "\n".join(s) + ("\n" if r.random() < .95 else "")


def clauses(r, n, m):
    return [[lit(r, n) for _ in range(r.choice((0, 1, 2, 2, 2, 3, 3, 3)) if r.random() < .3 else r.choice((2, 3)))] for _ in range(m)]


def small(r):
    n = r.randint(1, 6)
    cl = clauses(r, n, r.randint(0, 4 * n))
    return cl, n


def icnf(r):
    n = r.randint(1, 5)
    s = ["p inccnf"]
    for _ in range(r.randint(1, 4)):
        for c in clauses(r, n, r.randint(0, 6)):
            s.append(" ".join(map(str, c + [0])))
        if r.random() < .15:
            s.append("c x")
        for _ in range(r.randint(0, 5)):
            s.append("a " + " ".join(map(str, [lit(r, n) for _ in range(r.randint(0, 3))] + [0])))
    return "\n".join(s) + "\n"


def planted(r):
    n = r.randint(50, 300) if r.random() < .75 else r.randint(900, 1600)
    w = [v * r.choice((1, -1)) for v in range(1, n + 1)]
    cl = []
    m = n * 3 if n < 900 else n
    while len(cl) < m:
        vs = r.sample(range(1, n + 1), 3)
        c = [v * r.choice((1, -1)) for v in vs]
        if any(w[abs(x) - 1] == x for x in c):
            cl.append(c)
    return cl, n, [x for x in w if x > 0]


def php(p, h):
    cl = [[x * p + i + 1 for x in range(h)] for i in range(p)]
    cl += [[-(x * p + i + 1), -(x * p + j + 1)] for i in range(p) for j in range(i) for x in range(h)]
    return cl, p * h


def damage(r, b):
    b = bytearray(b)
    for _ in range(r.randint(1, 2)):
        if not b:
            break
        k = r.randrange(len(b))
        o = r.randrange(4)
        if o == 0:
            del b[k:]
        elif o == 1:
            del b[k]
        elif o == 2:
            b[k] = r.choice(b"0 1-apx\n79")
        else:
            b[k:k] = bytes([r.choice(b"0 -x\n2")])
    return bytes(b)


class Runner:
    def __init__(self, c):
        self.c = c
        self.gini = c.go_build("./cmd/gini", "gini")
        self.crispd = c.go_build("./cmd/crispd", "crispd")
        self.srv = []
        self.addrs = []
        self.hangs = 0

    def serve(self, k):
        for j in range(k):
            a = os.path.join(self.c.dir, "s%d.sock" % j)
            p = subprocess.Popen([self.crispd, "@" + a], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.c.dir)
            self.srv.append(p)
            t = time.time()
            while not os.path.exists(a):
                if time.time() - t > 20 or p.poll() is not None:
                    raise CheckError("crispd does not serve")
                time.sleep(.01)
            self.addrs.append("@" + a)

    def close(self):
        for p in self.srv:
            p.kill()
            p.wait()

    def put(self, d, name, data, pack):
        if pack == ".gz":
            data = gzip.compress(data, 6)
        elif pack == ".bz2":
            data = bz2.compress(data)
        f = os.path.join(d, name + pack)
        with open(f, "wb") as fh:
            fh.write(data)
        return f

    def one(self, kind, idx):
        r = random.Random("%d/%s/%d" % (self.c.seed, kind, idx))
        d = os.path.join(self.c.dir, "run-%s-%d" % (kind, idx))
        os.makedirs(d)
        try:
            return getattr(self, kind)(r, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------- one process
    def go(self, d, args, ins, opt, stdin=None, tl=None, sig=None):
        if self.hangs >= 3:     # enough has been seen
            return []
        base = {"satcomp": False, "model": False, "failed": False, "asm": []}
        base.update(opt)
        opt = base
        a = [self.gini]
        if opt["satcomp"]:
            a.append("-satcomp")
        if opt["model"]:
            a.append("-model")
        if opt["failed"]:
            a.append("-failed")
        k = 0
        while k < len(opt["asm"]):
            n = min(len(opt["asm"]) - k, 1 + (len(opt["asm"]) + k) % 3)
            a += ["-assume", ",".join(map(str, opt["asm"][k:k + n]))]
            k += n
        if tl is not None:
            a += ["-timeout", "%dms" % tl]
        elif len(ins) + len(args) + len(a) + sum(len(x.get("by", ())) for x in ins) & 7 == 0:
            a += ["-timeout", ("50m", "2h", "999h", "40s")[sum(len(x.get("by", ())) for x in ins) >> 3 & 3]]
        lim = 30000 if tl is None else tl
        a += args
        t = time.time()
        p = subprocess.Popen(a, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
        killed = False
        if sig is not None:
            th = concurrent.futures.ThreadPoolExecutor(1)
            th.submit(lambda: (time.sleep(sig), p.send_signal(signal.SIGINT if int(sig * 1000) % 2 else signal.SIGTERM)))
        try:
            out, err = p.communicate(stdin or b"", timeout=lim / 1000.0 * max(1, len(ins)) + GRACE)
        except subprocess.TimeoutExpired:
            killed = True
            p.kill()
            out, err = p.communicate()
        ms = int((time.time() - t) * 1000)
        cmd = [os.path.basename(x) if x.startswith(self.c.dir) else x for x in a]
        if killed:
            self.hangs += 1
            return [{"e": "hang", "cmd": cmd}]
        if p.returncode < 0 or b"goroutine " in err or b"panic:" in err:
            return [{"e": "crash", "cmd": cmd, "code": p.returncode, "err": err.decode("latin1")[-1500:]}]
        lines = []
        for l in out.decode("latin1").split("\n")[:-1] if out.endswith(b"\n") or not out else out.decode("latin1").split("\n"):
            if l[:1] == "c" or (l == "" and sig is not None):
                continue
            m = re.fullmatch(r"s (SATISFIABLE|UNSATISFIABLE|UNKNOWN)", l)
            if m:
                lines.append({"k": "s", "w": m.group(1), "n": []})
            elif re.fullmatch(r"[vf]( +(-?[1-9][0-9]*|0))* *", l) and len(l) < 200:
                lines.append({"k": l[0], "w": "", "n": [int(x) for x in l[1:].split()]})
            else:
                lines.append({"k": "?", "w": l[:80], "n": []})
        e = {"e": "run", "satcomp": opt["satcomp"], "model": opt["model"], "failed": opt["failed"], "asm": opt["asm"],
             "sig": sig is not None, "crisp": "-crisp" in args, "limited": ms >= lim, "ms": ms, "by": int(lim * max(1, len(ins)) + GRACE * 1000),
             "exit": p.returncode, "ins": ins, "out": lines, "cmd": cmd}
        return [e]

    def opts(self, r, n, satcomp=None):
        o = {"satcomp": r.random() < .5 if satcomp is None else satcomp, "model": r.random() < .7, "failed": r.random() < .7}
        o["asm"] = [lit(r, n + (1 if r.random() < .1 else 0)) for _ in range(r.choice((0, 0, 0, 1, 2, 3, 4)))]
        return o

    def extra(self, r):
        a = []
        if r.random() < .2:
            a.append("-stats")
        if r.random() < .2:
            a += ["-mon", r.choice(("50us", "1ms", "1s"))]
        return a

    # ------------------------------------------------------------------- kinds
    def cnf(self, r, d):
        """one small problem"""
        cl, n = small(r)
        o = self.opts(r, n)
        b = text(r, cl, n + r.choice((0, 0, 0, 1, 3))).encode()
        ins = [{"f": "cnf", "by": list(b)}]
        a = self.extra(r)
        how = r.random()
        if how < .15:
            return self.go(d, a + ["-"], ins, o, stdin=b)
        if how < .3 and o["satcomp"]:
            return self.go(d, a, ins, o, stdin=b)
        return self.go(d, a + [self.put(d, "x.cnf", b, r.choice(("", "", ".gz", ".bz2")))], ins, o)

    def many(self, r, d):
        """several inputs of all sorts, some unreadable"""
        ins, fs = [], []
        for k in range(r.randint(2, 5)):
            q = r.random()
            pack = r.choice(("", "", ".gz", ".bz2"))
            if q < .55:
                cl, n = small(r)
                b = text(r, cl, n).encode()
                ins.append({"f": "cnf", "by": list(b)})
                fs.append(self.put(d, "x%d.cnf" % k, b, pack))
            elif q < .7:
                b = icnf(r).encode()
                ins.append({"f": "icnf", "by": list(b)})
                fs.append(self.put(d, "x%d.icnf" % k, b, pack))
            elif q < .78:
                b = b"p cnf 2 2\n1 2 0\n-1 x 0\n"
                ins.append({"f": "cnf", "by": list(b)})
                fs.append(self.put(d, "x%d.cnf" % k, b, pack))
            elif q < .84:
                ins.append({"f": "none"})
                fs.append(os.path.join(d, "missing.cnf"))
            elif q < .92:
                ins.append({"f": "none"})
                fs.append(self.put(d, "x%d%s" % (k, r.choice((".txt", ".cnf.zip", "", ".xcnfx"))), b"p cnf 1 1\n1 0\n", ""))
            else:
                ins.append({"f": "none"})
                fs.append(self.put(d, "x%d.cnf.%s" % (k, r.choice(("gz", "bz2"))), b"p cnf 1 1\n1 0\n", ""))
        return self.go(d, self.extra(r) + fs, ins, self.opts(r, 4, satcomp=False))

    def inc(self, r, d):
        b = icnf(r).encode()
        o = {"satcomp": r.random() < .3, "model": r.random() < .2, "failed": r.random() < .2}
        a = ["-ax"] if r.random() < .5 else []
        return self.go(d, a + [self.put(d, "x.icnf", b, r.choice(("", "", ".gz", ".bz2")))], [{"f": "icnf", "by": list(b)}], o)

    def bad(self, r, d):
        """a damaged text, or text damaged while packed"""
        q = r.random()
        if q < .3:
            b = damage(r, icnf(r).encode())
            a = ["-ax"] if r.random() < .5 else []
            return self.go(d, a + [self.put(d, "x.icnf", b, "")], [{"f": "icnf", "by": list(b)}], {})
        cl, n = small(r)
        b = text(r, cl, n).encode()
        o = self.opts(r, n)
        if q < .75:
            b = damage(r, b)
            return self.go(d, self.extra(r) + [self.put(d, "x.cnf", b, "")], [{"f": "cnf", "by": list(b)}], o)
        pack = r.choice((".gz", ".bz2"))
        f = self.put(d, "x.cnf", b, pack)
        z = bytearray(open(f, "rb").read())
        if r.random() < .5:
            del z[r.randrange(len(z)):]
        else:
            k = len(z) - 1 - r.randrange(8) if pack == ".gz" else r.randrange(10, 14)
            z[k] ^= 1 << r.randrange(8)
        with open(f, "wb") as fh:
            fh.write(z)
        return self.go(d, [f], [{"f": "none"}], o)

    def usage(self, r, d):
        f = self.put(d, "x.cnf", b"p cnf 1 1\n1 0\n", "")
        a = r.choice((["-assume", "0", f], ["-assume", "1,x", f], ["-assume", "1,,2", f], ["-nosuch", f], ["-timeout", "5", f],
                      ["-satcomp", f, f], ["-assume", "", f]))
        ev = self.go(d, a, [], {})
        for e in ev:
            if e["e"] == "run":
                e["e"] = "usage"
        return ev

    def big(self, r, d):
        o = {"satcomp": r.random() < .5, "model": r.random() < .8, "failed": True}
        if r.random() < .5:
            cl, n, w = planted(r)
            p = {"k": "sat", "w": w}
            ws = set(w)
            if r.random() < .5:
                o["asm"] = [v if v in ws else -v for v in r.sample(range(1, n + 1), r.randint(1, 10))]
        else:
            h = r.randint(2, 6)
            cl, n = php(h + 1, h)
            r.shuffle(cl)
            p = {"k": "php", "p": h + 1, "h": h}
        f = self.put(d, "x.cnf", text(r, cl, n).encode(), r.choice(("", ".gz", ".bz2")))
        return self.go(d, self.remote(r) + [f], [{"f": "cls", "cl": cl, "n": n, "proof": p}], o)

    def remote(self, r, p=.3):
        if r.random() < p:
            return ["-crisp", r.choice(self.addrs)]
        return self.extra(r)

    def crisp(self, r, d):
        cl, n = small(r)
        o = self.opts(r, n)
        b = text(r, cl, n + r.choice((0, 0, 1, 2))).encode()
        f = self.put(d, "x.cnf", b, r.choice(("", ".gz")))
        return self.go(d, self.remote(r, 1.0) + [f], [{"f": "cnf", "by": list(b)}], o)

    def slow(self, r, d):
        """too hard for the time there is, or interrupted"""
        h = 12
        cl, n = php(h + 1, h)
        o = {"satcomp": r.random() < .5, "model": True, "failed": True}
        inp = {"f": "cls", "cl": cl, "n": n, "proof": {"k": "php", "p": h + 1, "h": h}}
        q = r.random()
        f = self.put(d, "x.cnf", text(r, cl, n).encode(), "")
        if q < .25:
            return self.go(d, self.extra(r) + [f], [inp], o, sig=r.uniform(.1, .5))
        if q < .5:
            o["satcomp"] = False
            b = text(r, [[1, 2], [-1]], 2).encode()
            g = self.put(d, "y.cnf", b, "")
            return self.go(d, self.remote(r) + [f, g], [inp, {"f": "cnf", "by": list(b)}], o, tl=r.randint(50, 400))
        return self.go(d, self.remote(r, .4) + [f], [inp], o, tl=r.randint(1, 400))


def run(c, kinds, aspects):
    mul = 8 if c.thorough else 1
    x = Runner(c)
    recs = []
    try:
        x.serve(4)
        jobs = [(k, j) for k, n in kinds.items() for j in range(n * mul)]
        with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
            for (k, j), ev in zip(jobs, ex.map(lambda q: x.one(*q), jobs)):
                if ev:
                    recs.append((k, j, ev))
        if any(p.poll() is not None for p in x.srv):
            recs.append(("server", 0, [{"e": "crash", "cmd": "crispd"}]))
        c.info["runs"] = {k: n * mul for k, n in kinds.items()}
        judge(c, x, recs, aspects)
    finally:
        x.close()


def judge(c, x, recs, aspects):
    def strip(ev):
        return {"ev": [{k: v for k, v in e.items() if k not in ("cmd", "err", "code")} for e in ev]}
    r = recs[len(recs) // 3]
    c.sample({"kind": r[0], "trace": r[2]})
    rej = c.tlc_traces("CmdTrace", [strip(q[2]) for q in recs], {"Aspects": set(aspects)}, name="cmd", shards=CPUS)
    seen = set()
    for j, pos, asp in rej:
        k, idx, ev = recs[j]
        key = (k, tuple(asp))
        if key in seen or len(seen) >= 5:
            continue
        seen.add(key)
        x.hangs = 0
        again = x.one(k, idx) if k != "server" else ev
        rj = c.tlc_traces("CmdTrace", [strip(again)], {"Aspects": set(aspects)}, name="cmd-confirm", shards=1)
        if not rj and ev[0]["e"] == "hang":     # a machine too busy
            continue
        e = {a: b for a, b in ev[0].items()}
        for i in e.get("ins", []):
            if "by" in i:
                i["text"] = bytes(i["by"]).decode("latin1")
        c.violation({"kind": k, "index": idx, "aspects": asp, "run": e},
                    "gini %s: %s exit %s, printed %s; rejected by the specification: %s%s" % (
                        k, " ".join(e.get("cmd", [])[1:]) if isinstance(e.get("cmd"), list) else e.get("cmd"), e.get("exit", e.get("code")),
                        json.dumps(e.get("out", e.get("err", e["e"])))[:300], ",".join(asp), "" if rj else " (not repeated)"))
