"""Running TLC on the specification."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class SpecError(Exception):
    """TLC could not evaluate the specification (no verdict)"""


def launch(module, cases, extra=(), heap="1500m", stack="64m", cfg=None, env=None):
    d = tempfile.mkdtemp(prefix="tlc_")
    path = os.path.join(d, "cases.json")
    with open(path, "w") as f:
        json.dump(cases, f)
    e = dict(os.environ, CASES=path, **(env or {}))
    cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xmx" + heap, "-Xss" + stack,
           "-XX:-UsePerfData", "-Djava.io.tmpdir=" + d,
           "-cp", JARS, "tlc2.TLC", "-workers", "1", "-continue", "-deadlock", "-nowarning", "-noGenerateSpecTE",
           "-metadir", os.path.join(d, "meta"), "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    out = open(os.path.join(d, "out"), "w")
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=out, stderr=subprocess.STDOUT)
    return {"p": p, "d": d, "out": out, "n": len(cases)}


LINE = re.compile(r'^"?VERDICT (.*?)"?$')


def finish(r, timeout):
    try:
        r["p"].wait(timeout)
    except subprocess.TimeoutExpired:
        r["p"].kill()
        r["p"].wait()
        r["late"] = True
    r["out"].close()
    text = open(os.path.join(r["d"], "out"), errors="replace").read()
    shutil.rmtree(r["d"], ignore_errors=True)
    verdicts = []
    for line in text.split("\n"):
        m = LINE.match(line.strip())
        if m:
            s = m[1]
            if '\\"' in s:
                s = json.loads('"' + s + '"')
            verdicts.append(json.loads(s))
    states = re.search(r"(\d+) states generated, (\d+) distinct", text)
    complete = "Model checking completed" in text or "states left on queue" in text and "0 states left" in text
    if "late" in r:
        complete = False
    elif not complete:
        m = re.findall(r"^/\\\\ c = (\d+)", text, re.M)
        k = max(0, text.find("Error:"))
        e = SpecError(text[k:k + 3000])
        e.case = int(m[-1]) if m and "Error: " in text and "StackOverflow" not in text and "OutOfMemory" not in text else 0
        e.verdicts = verdicts
        raise e
    return {"verdicts": verdicts, "states": int(states[2]) if states else 0, "complete": complete, "text": text}


def run(module, cases, shards=8, timeout=800, **kw):
    """Check the cases with several TLC processes"""
    t0 = time.time()
    # similar cost in each shard
    order = sorted(range(len(cases)), key=lambda i: -len(json.dumps(cases[i])))
    parts = [[cases[i] for i in order[k::shards]] for k in range(min(shards, len(cases)))]
    rs = [launch(module, p, **kw) for p in parts]
    res = {"verdicts": [], "states": 0, "complete": True}
    err = None
    for r, part in zip(rs, parts):
        f = None
        for _ in range(6):
            try:
                f = finish(r, max(1, timeout - (time.time() - t0)))
                break
            except SpecError as e:
                # code that the specification can't execute
                if not e.case or e.case > len(part):
                    err = e
                    break
                bad = part[e.case - 1]
                res["verdicts"].append([bad["id"], "unmodelled", str(e)[-600:], 0, 0])
                part = [c for c in part if c["id"] != bad["id"]]
                if not part:
                    break
                r = launch(module, part, **kw)
        if f is None:
            continue
        res["verdicts"] += f["verdicts"]
        res["states"] += f["states"]
        res["complete"] &= f["complete"]
    if err:
        raise err
    res["time"] = time.time() - t0
    return res


def generate(module, cfg, num, depth, seed, env=None, timeout=120):
    """what a specification writes: in simulation mode, or (num=None) in all its states"""
    extra = ("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)) if num else ()
    r = launch(module, [], extra=extra, cfg=cfg, env=env)
    try:
        r["p"].wait(timeout)
    except subprocess.TimeoutExpired:
        r["p"].kill()
        r["p"].wait()
    r["out"].close()
    text = open(os.path.join(r["d"], "out"), errors="replace").read()
    shutil.rmtree(r["d"], ignore_errors=True)
    out = []
    for line in text.split("\n"):
        m = LINE.match(line.strip())
        if m:
            s = m[1]
            if '\\"' in s:
                s = json.loads('"' + s + '"')
            out.append(json.loads(s))
    if not out:
        raise SpecError(text[:2000])
    return out


def model(module, cfg, env=None, timeout=300):
    """model checking of a specification by itself: the number of states"""
    r = launch(module, [], cfg=cfg, env=env)
    return finish(r, timeout)["states"]
