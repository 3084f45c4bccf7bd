"""Shared machinery of the checks: the pool of processes with the code under test, cases for the
Refine module, verdicts, evidence and known findings."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("TEALISH_REPO", "/repo")
PY = "/opt/venv/bin/python"

import gen      # noqa: E402
import teal     # noqa: E402
import tl       # noqa: E402
import tlc      # noqa: E402

QUIET = {"", "ok", "refused", "skip", "cut", "diverge", "stuck"}
NCPU = min(8, os.cpu_count() or 8)


class Worker:
    """A process that runs the code under test in a scratch directory"""

    def __init__(self, env=None, files=None):
        self.env, self.files = env, files or {}
        self.hangs = 0
        self.start()

    def start(self):
        self.dir = tempfile.mkdtemp(prefix="vw_")
        for n, t in self.files.items():
            with open(os.path.join(self.dir, n), "w") as f:
                f.write(t)
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="", **(self.env or {}))
        e.pop("CASES", None)
        self.p = subprocess.Popen([PY, os.path.join(HERE, "worker.py")], cwd=self.dir, env=e, text=True,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, r):
        if self.hangs > 1 and r["op"] != "exec":
            # (code that hangs often: its other answers still come at once)
            r = dict(r, timeout=2 if self.hangs < 5 else .5)
        kill = threading.Timer(r.get("timeout", 20) * 2 + 10, self.p.kill)
        kill.start()
        try:
            self.p.stdin.write(json.dumps(r) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        finally:
            kill.cancel()
        if not line:
            late = self.p.poll() is not None and self.p.returncode in (-9, None)
            self.close()
            self.start()
            return {"acc": False, "err": "Hang" if late else "Died", "msg": "the process ended", "eln": 0, "escaped": True}
        a = json.loads(line)
        self.hangs += a.get("err") == "Hang"
        return a

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


class Pool:
    def __init__(self, n=NCPU, env=None):
        self.ws = [Worker(env) for _ in range(n)]

    def map(self, reqs):
        out = [None] * len(reqs)
        it = iter(range(len(reqs)))
        lock = threading.Lock()

        def go(w):
            while True:
                with lock:
                    i = next(it, None)
                if i is None:
                    return
                out[i] = w.ask(reqs[i])
        ts = [threading.Thread(target=go, args=(w,)) for w in self.ws]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out

    def compile(self, texts):
        return self.map([{"op": "compile", "text": t} for t in texts])

    def close(self):
        for w in self.ws:
            w.close()


def case(id, P, ans, **kw):
    """a case of the Refine module"""
    c = dict(id=id, P=P, T=[], acc=False, msg="", eln=0, map=[], emsg=[], chk=["accept"],
             ci=[tl.iv(0), tl.iv(1), tl.iv(5)], cb=[tl.bv(b"\x05"), tl.bv(b"abcdefgh")],
             c32=[tl.bv(bytes(range(32))), tl.bv(bytes(32))], env=[], nd=2, fuel=1500, strict=False, run=1)
    if ans is not None:
        c["acc"] = bool(ans["acc"])
        if ans["acc"]:
            c["T"] = teal.program(ans["teal"])
            c["map"], c["emsg"] = ans["map"], ans["emsg"]
        else:
            c["msg"], c["eln"] = ans["msg"][:300], ans["eln"]
    c.update(kw)
    return c


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.states = self.transitions = self.cases = 0
        self.counts = Counter()
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.meta = {}               # case id -> what to write to a replay file
        self._pool = None
        self.limit = float(os.environ.get("VERIF_LIMIT", 0) or (60 if tier == "quick" else 780))
        self.notes = []

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self):
        return self.limit - (time.time() - self.t0)

    def rng(self, tag=""):
        return random.Random(f"{self.prop}/{self.seed}/{tag}")

    @property
    def pool(self):
        if self._pool is None:
            self._pool = Pool()
        return self._pool

    def violation(self, what, data):
        self.violations.append((what, data))

    # -- the Refine module -----------------------------------------------------------------
    def refine(self, cases, meta=None, module="Refine", expect=None, timeout=None, ignore=(), **kw):
        """run TLC; verdicts that are not quiet are violations. meta: id -> replay data"""
        if not cases:
            return None
        if os.environ.get("VERIF_SAVE"):
            json.dump(cases, open(os.environ["VERIF_SAVE"], "w"))
        r = tlc.run(module, cases, shards=NCPU, timeout=timeout or max(30, 850 - (time.time() - self.t0)), **kw)
        self.states += r["states"]
        self.transitions += r.get("transitions", r["states"])
        self.cases += len(cases)
        if not r["complete"]:
            self.notes.append(f"{module}: out of time, {len(r['verdicts'])} behaviours checked")
        seen, byid = set(), {c["id"]: c for c in cases}
        for v in r["verdicts"]:
            self.counts[v[1]] += 1
            if v[1] == "refused" and v[0].startswith("family:") and "refused" not in v[0]:
                raise tlc.SpecError(f"family refused: {v}")
            if v[1] in QUIET or v[1] in ignore or v[0] in seen:
                continue
            d = dict((meta or {}).get(v[0], {}))
            if d.get("finding") and v[1] == d["finding"]["verdict"]:
                if d["finding"]["what"] not in self.known:
                    self.known.append(d["finding"]["what"])
                continue
            seen.add(v[0])
            d.update(verdict=v, case=v[0], module=module, judged=byid.get(v[0]))
            self.violation(f"{v[1]} {str(v[2])[:400]}", d)
        return r

    # -- the end ---------------------------------------------------------------------------
    def finish(self, level="model_checking", coverage=None):
        if self._pool:
            self._pool.close()
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.cases,
               "samples": self.samples[:3], "verdicts": dict(self.counts)}
        cov.update(self.extra)
        cov.update(coverage or {})
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for w in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        for i, (what, d) in enumerate(self.violations[:5]):
            p = os.path.join(ROOT, "evidence", "replay", f"{self.prop}-{i}.json")
            with open(p, "w") as f:
                json.dump(dict(d, property=self.prop, what=what), f, indent=1, default=str)
            print(f"VIOLATION property={self.prop} replay={p}")
            print("  " + what[:600].replace("\n", " | "))
        if len(self.violations) > 5:
            print(f"  and {len(self.violations) - 5} more")
        print(f"{self.prop} {self.tier}: {len(self.violations)} violations, {dict(self.counts)}, "
              f"{self.states} states, {round(time.time() - self.t0, 1)} s")
        sys.stdout.flush()
        return 1 if self.violations else 0


def findings(prop):
    """[{program, verdict, what}] of the known findings of a property"""
    out = []
    for line in open(os.path.join(ROOT, "findings", "KNOWN_FINDINGS")):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        head, _, what = line[8:].strip().partition(" -- ")
        f = dict(x.split("=", 1) for x in head.split())
        if f["property"] == prop:
            f["what"] = what
            out.append(f)
    return out


def corpus(*props):
    """[(name, text)] handwritten programs (of all properties if none is given)"""
    out = []
    base = os.path.join(ROOT, "corpus")
    for p in props or sorted(os.listdir(base)):
        d = os.path.join(base, p)
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith(".tl"):
                    out.append((f"{p}/{f}", open(os.path.join(d, f)).read()))
    return out


def repo_programs():
    """Tealish programs of the repository (used as inputs only)"""
    out = []
    for base in ("examples", "tests"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            for f in sorted(fs):
                if f.endswith(".tl"):
                    p = os.path.join(d, f)
                    out.append((os.path.relpath(p, REPO), open(p).read()))
    return sorted(out)
