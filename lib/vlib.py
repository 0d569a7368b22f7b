"""Common machinery of the checks: building the driver, running it, running TLC,
judging, reporting.  Exit codes: 0 held, 1 violation, 2 the check itself failed."""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class CheckError(Exception):
    """The check could not be carried out."""


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off")
    if "HOME" not in e:
        e["HOME"] = "/root"
    e.pop("GOOS", None)
    e.pop("GOARCH", None)
    return e


def tla(v):
    """a python value as a TLA+ constant"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise CheckError("no TLA+ form: %r" % (v,))


def clean(x):
    """JSON as TLC's Json module can read it"""
    if x is None:
        return []
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items() if k != "msg"}
    if isinstance(x, list):
        return [clean(v) for v in x]
    return x


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="gv-%s-" % prop)
        self.drv = None
        # observation files that do not build against a changed tree are left out
        self.tags = [["verif"], ["verif", "nocrisp"], ["nohooks"], ["nohooks", "nocrisp"]]
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.info = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.notes = []

    # ---------------------------------------------------------------- build
    def build(self, race=False):
        if self.drv and not race:
            return self.drv
        out = os.path.join(self.dir, "drv-race" if race else "drv")
        err = ""
        for tags in self.tags:
            hooks = "verif" in tags
            rep = {}
            for f in glob.glob(os.path.join(VERIF, "drv", "*.go")):
                rep[os.path.join(REPO, "cmd", "zzverif", os.path.basename(f))] = f
            if hooks:
                ov = os.path.join(VERIF, "drv", "overlay")
                rep[os.path.join(REPO, "internal/xo/zz_verif.go")] = os.path.join(ov, "xo_verif.go")
                rep[os.path.join(REPO, "zz_verif.go")] = os.path.join(ov, "gini_verif.go")
            if "nocrisp" not in tags:
                rep[os.path.join(REPO, "crisp/zz_verif.go")] = os.path.join(VERIF, "drv", "overlay", "crisp_verif.go")
            oj = os.path.join(self.dir, "overlay.json")
            with open(oj, "w") as f:
                json.dump({"Replace": rep}, f)
            cmd = ["go", "build", "-overlay", oj, "-o", out]
            if race:
                cmd.append("-race")
            cmd += ["-tags", " ".join(tags)]
            cmd.append("./cmd/zzverif")
            p = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                self.tags = [tags]
                self.info["hooks"] = tags
                if not race:
                    self.drv = out
                return out
            err = p.stdout
        raise CheckError("the driver does not build:\n" + err[-3000:])

    def go_build(self, pkg, out, race=False):
        o = os.path.join(self.dir, out)
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", o, pkg]
        p = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CheckError("does not build: %s\n%s" % (pkg, p.stdout[-3000:]))
        return o

    def run_drv(self, *args, timeout=600, race=False):
        """run a driver command; returns its stdout.  A driver that fails is an error of the check."""
        drv = self.build(race)
        p = subprocess.run([drv] + [str(a) for a in args], cwd=self.dir, env=goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
        if p.returncode:
            raise CheckError("driver %s failed (%d): %s %s" % (args[0], p.returncode, p.stdout[-500:], p.stderr[-3000:]))
        return p.stdout

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfgtext, name, workers, heap, extra=(), timeout=800):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            os.symlink(f, os.path.join(d, os.path.basename(f)))
        cfg = os.path.join(d, "%s.cfg" % name)
        with open(cfg, "w") as f:
            f.write(cfgtext)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx%s" % heap, "-Xss64m", "-cp", JAVA_CP,
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", cfg] + list(extra) + \
              [os.path.join(d, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                               errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out: %s" % name)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return p.returncode, p.stdout

    @staticmethod
    def _stats(out):
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        if not m:
            return None
        return int(m[-1][0]), int(m[-1][1])

    def tlc_model(self, module, consts, invariants=(), properties=(), spec="Spec", constraint=None, deadlock=False,
                  name=None, workers=CPUS, heap="8g", symmetry=None, view=None, extra_cfg="", timeout=800):
        """exhaustively check a design model; anything but success is an error of the check."""
        name = name or module
        cfg = ["SPECIFICATION %s" % spec, "CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE")]
        if consts:
            cfg.append("CONSTANTS")
            for k, v in consts.items():
                if isinstance(v, str) and v.startswith("<-"):
                    cfg.append("%s <- %s" % (k, v[2:].strip()))
                elif isinstance(v, str) and v.startswith("raw:"):
                    cfg.append("%s = %s" % (k, v[4:]))
                else:
                    cfg.append("%s = %s" % (k, tla(v)))
        for i in invariants:
            cfg.append("INVARIANT %s" % i)
        for p in properties:
            cfg.append("PROPERTY %s" % p)
        if constraint:
            cfg.append("CONSTRAINT %s" % constraint)
        if symmetry:
            cfg.append("SYMMETRY %s" % symmetry)
        if view:
            cfg.append("VIEW %s" % view)
        cfg.append(extra_cfg)
        t = time.time()
        rc, out = self._tlc(module, "\n".join(cfg) + "\n", name, workers, heap, timeout=timeout)
        st = self._stats(out)
        if rc != 0 or st is None or "No error has been found" not in out:
            raise CheckError("model %s: TLC exit %d\n%s" % (name, rc, out[-4000:]))
        self.states += st[1]
        self.transitions += st[0]
        self.info.setdefault("models", {})[name] = {"distinct_states": st[1], "generated": st[0],
                                                    "wall_s": round(time.time() - t, 1)}
        return out

    def tlc_refutes(self, *a, **k):
        """the design model without one of its parts must fail: the model can tell the difference."""
        info, st, tr = dict(self.info.get("models", {})), self.states, self.transitions
        try:
            self.tlc_model(*a, **k)
        except CheckError as e:
            if any("TLC exit %d" % k in str(e) for k in (11, 12, 13)):
                self.info.setdefault("refuted", []).append(k.get("name") or a[0])
                return
            raise
        raise CheckError("model %s holds where it must not" % (k.get("name") or a[0]))

    def tlc_simulate(self, module, consts, num, depth, name=None, spec="Spec", invariants=(), timeout=300):
        """random behaviours of a model; returns what it printed with PrintT(<<"BEH", ...>>)-like lines"""
        cfg = ["SPECIFICATION %s" % spec, "CHECK_DEADLOCK FALSE", "CONSTANTS"]
        for k, v in consts.items():
            cfg.append("%s = %s" % (k, tla(v)))
        for i in invariants:
            cfg.append("INVARIANT %s" % i)
        rc, out = self._tlc(module, "\n".join(cfg) + "\n", name or module, 1, "2g",
                            extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed + 7)],
                            timeout=timeout)
        if rc != 0 or "Error:" in out:
            raise CheckError("simulation of %s: TLC exit %d\n%s" % (module, rc, out[-3000:]))
        return out

    def tlc_print(self, module, consts, tag, workers=1):
        """explore a module completely; returns the tuples <<tag, ...>> it printed."""
        cfg = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "CONSTANTS"] + ["%s = %s" % (k, tla(v)) for k, v in consts.items()]
        rc, out = self._tlc(module, "\n".join(cfg) + "\n", module, workers, "4g")
        st = self._stats(out)
        if rc != 0 or st is None:
            raise CheckError("%s: TLC exit %d\n%s" % (module, rc, out[-3000:]))
        self.states += st[1]
        self.info.setdefault("models", {})[module] = {"states": st[0], "distinct": st[1], "consts": consts}
        if tag.startswith('"'):
            return sorted(set(re.findall(r"^%s.*$" % tag, out, re.M)))
        return sorted(set(re.sub(r"\s+", " ", m) for m in re.findall(r'<<\s*"%s".*?>>\s*>>' % tag, out, re.S)))

    def tlc_traces(self, module, traces, consts, name=None, shards=None, heap="3g", sizes=None, timeout=800):
        """validate traces; returns [(trace index, event index, failed aspects)] of the rejected ones."""
        if not traces:
            return []
        name = name or module
        n = len(traces)
        shards = shards or max(1, min(CPUS, n // 8 or 1))
        cost = [len(json.dumps(tr)) for tr in traces]
        order = sorted(range(n), key=lambda k: -cost[k])
        bins = [order[k::shards] for k in range(shards)]

        def one(k):
            return some(bins[k], str(k))

        def some(js, k):
            f = os.path.join(self.dir, "%s-%d-%s.ndjson" % (name, os.getpid(), k))
            with open(f, "w") as fh:
                for j in js:
                    tr = clean(traces[j])
                    tr["id"] = j
                    fh.write(json.dumps(tr) + "\n")
            cs = dict(consts)
            cs["TraceFile"] = f
            cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + \
                  "\n".join("%s = %s" % (a, tla(b)) for a, b in cs.items()) + "\n"
            rc, out = self._tlc(module, cfg, "%s-%s" % (name, k), 1, heap, timeout=timeout)
            os.unlink(f)
            st = self._stats(out)
            if rc != 0 and "threw an unexpected exception" in out and "The behavior up to this point is" in out and not re.search("OutOfMemory|StackOverflow", out):
                # what was recorded has no meaning in the specification (an element which is not there, say): that is
                # no behaviour of it.  Find one such trace.
                if len(js) == 1:
                    n = self._stats(out)
                    pos = min(max(1, n[1] if n else 1), len(traces[js[0]]["ev"]))
                    self.info["meaningless"] = re.sub(r"\s+", " ", out[out.find("Error:"):][:600])
                    return (0, 0), [(js[0], pos, ("meaning",))]
                h = len(js) // 2
                for part, s in ((js[:h], "a"), (js[h:], "b")):
                    st, rej = some(part, k + s)
                    if any("meaning" in r[2] for r in rej):
                        break
                return st, rej
            if rc != 0 or st is None:
                raise CheckError("trace validation %s: TLC exit %d\n%s" % (name, rc, out[-4000:]))
            rej = []
            for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}', out):
                rej.append((int(m.group(1)), int(m.group(2)), sorted(re.findall(r'"([^"]*)"', m.group(3)))))
            rej = sorted(set((a, b, tuple(c)) for a, b, c in rej))
            for m in re.finditer(r'<<\s*"NOTE",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}', out):
                self.notes.append((name, int(m.group(1)), int(m.group(2)), tuple(sorted(re.findall(r'"([^"]*)"', m.group(3))))))
            rs = {a: b for a, b, _ in rej}
            want = sum((rs[j] + 1) if j in rs else (len(traces[j]["ev"]) + 1) for j in js)
            if st[1] != want:
                raise CheckError("trace validation %s: %d states, expected %d\n%s" % (name, st[1], want, out[-3000:]))
            return st, rej
        rejects = []
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            for st, rej in ex.map(one, range(shards)):
                self.states += st[1]
                self.transitions += st[0]
                rejects += [(a, b, list(c)) for a, b, c in rej]
        self.traces += n
        v = self.info.setdefault("validated", {})
        v[name] = v.get(name, 0) + n
        e = self.info.setdefault("events", {})
        e[name] = e.get(name, 0) + sum(len(t["ev"]) for t in traces)
        return sorted(rejects)

    # -------------------------------------------------------------- results
    def sample(self, x):
        if len(self.samples) < 3:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 1500 else s[:1500] + "...")

    def violation(self, replay, what):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, len(self.violations)))
        with open(f, "w") as fh:
            json.dump({"property": self.prop, "what": what, "replay": replay}, fh, indent=1)
        self.violations.append((f, what))

    def known_finding(self, fid, replay, what):
        """a deviation that is reported, not raised, if known-findings.txt lists it"""
        pat = r"finding: property=%s id=%s (.*)" % (re.escape(self.prop), re.escape(fid))
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(pat, l)
            if m:
                if m.group(1) not in self.known:
                    self.known.append(m.group(1))
                return
        self.violation(replay, what)

    def finish(self):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for f, what in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, f))
            print("  " + what[:600].replace("\n", "\n  "))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"]}
        if self.level != "model_checking":
            cov["evaluations"] = self.traces
        cov.update(self.info)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %s; %d states, %d traces of the real code, %.1f s" % (
            self.prop, self.tier, "VIOLATED" if self.violations else "held", self.states, self.traces, time.time() - self.t0))
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
