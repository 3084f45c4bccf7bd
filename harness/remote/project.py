"""Runs histories of langspec commands in scratch projects (inside a worker); every command in a process of its own."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import tealish

# the launcher answers every request from a table of URLs (nothing else can be reached)
LAUNCH = r'''
import io, json, sys
import requests
from requests.adapters import HTTPAdapter
places = json.load(open(sys.argv[1]))
log = open(sys.argv[2], "a")
def send(self, request, **kw):
    log.write(request.method + " " + request.url + "\n")
    log.flush()
    p = places.get(request.url, {"status": 404, "body": "none"})
    if p["status"] == 0:
        raise requests.exceptions.ConnectionError("no connection")
    r = requests.Response()
    r.status_code, r.url, r.request, r.connection = p["status"], request.url, request, self
    r.headers["Content-Type"] = "text/plain; charset=utf-8"
    if "to" in p:
        r.headers["Location"] = p["to"]
    r.raw = io.BytesIO(p["body"].encode())
    r.reason = "x"
    return r
HTTPAdapter.send = send
from tealish.cli import cli
cli(prog_name="tealish", args=sys.argv[3:])
'''


def names(text):
    """the opcodes of a listing: [name, parameters, results]"""
    out = []
    for line in text.split("\n"):
        m = re.match(r"^\s*([A-Za-z_0-9]+)\((.*)\)\s*(?:->\s*(.*))?$", line)
        if m:
            ps = [p.split(":")[-1].strip() for p in m[2].split(",") if p.strip()]
            rs = [r.strip() for r in (m[3] or "").split(",") if r.strip()]
            out.append([m[1], ps, rs])
        elif line.strip() and "New ops" not in line:
            out.append(["?" + line.strip()[:60], [], []])
    return out


def run(arg):
    """arg: specs [text], places [[argument, url]], progs [[text, opcode]], acts, remote"""
    top = tempfile.mkdtemp(prefix="project_")
    try:
        specs = [json.loads(s) for s in arg["specs"]]
        dirs = [os.path.join(top, "p%d" % i) for i in (1, 2)]
        table, log, launch = (os.path.join(top, x) for x in ("table", "log", "launch.py"))
        open(launch, "w").write(LAUNCH)
        progs = []
        for d in dirs:
            os.mkdir(d)
        for i, (t, op) in enumerate(arg["progs"]):
            progs.append("prog%d.tl" % (i + 1))
            for d in dirs:
                open(os.path.join(d, progs[-1]), "w").write(t)
        remote, fails = list(arg["remote"]), [0] * len(arg["remote"])
        hist = []
        for a in arg["acts"]:
            k, e, out, d = a["k"], 0, [], dirs[a["d"] - 1]
            own = os.path.join(d, "langspec.json")
            if k == "publish":
                remote[a["r"] - 1], fails[a["r"] - 1] = a["t"], a["how"]
            elif k == "write":
                if a["t"]:
                    open(own, "w").write(arg["specs"][a["t"] - 1])
                elif os.path.exists(own):
                    os.remove(own)
            else:
                t = {}
                for i, (_, url) in enumerate(arg["places"]):
                    how = fails[i]
                    if remote[i]:
                        body = arg["specs"][remote[i] - 1]
                        if how % 2:
                            to = "https://files.example.com/%d/langspec.json" % i
                            t[url], t[to] = {"status": 302, "body": "", "to": to}, {"status": 200, "body": body}
                        else:
                            t[url] = {"status": 200, "body": body}
                    else:
                        t[url] = [{"status": 404, "body": "Not found"}, {"status": 500, "body": arg["specs"][0]}, {"status": 0, "body": ""},
                                  {"status": 200, "body": "<html>"}, {"status": 200, "body": "{}"}, {"status": 404, "body": arg["specs"][1]}][how % 6]
                json.dump(t, open(table, "w"))
                what = arg["places"][a["r"] - 1][0]
                args = {"fetch": ["langspec", "fetch", what], "update": ["langspec", "update"], "diff": ["langspec", "diff"],
                        "compare": ["langspec", "diff", what], "compile": ["compile", progs[a["t"] - 1]]}[k]
                env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(tealish.__file__)), PYTHONDONTWRITEBYTECODE="1")
                r = subprocess.run([sys.executable, launch, table, log] + args, cwd=d, env=env, capture_output=True, text=True, timeout=100)
                e = r.returncode
                teal = os.path.join(d, "build", progs[a["t"] - 1][:-3] + ".teal")
                if k == "compile":
                    done = os.path.exists(teal)
                    if done:
                        if not re.search(r"^\s*%s\b" % re.escape(arg["progs"][a["t"] - 1][1]), open(teal).read(), re.M):
                            out = [["the opcode is not in the TEAL", [], []]]
                        os.remove(teal)
                    if done != (e == 0):
                        out = [["exit code %d, TEAL written: %s" % (e, done), [], []]]
                elif e == 0:
                    out = names(r.stdout)
            local = []
            for x in dirs:
                p = os.path.join(x, "langspec.json")
                v = 0
                if os.path.exists(p):
                    try:
                        j = json.load(open(p))
                        v = specs.index(j) + 1 if j in specs else -1
                    except ValueError:
                        v = -2
                v = -3 if set(os.listdir(x)) - set(progs) - {"langspec.json", "build"} else v
                local.append(v)
            hist.append({"x": {y: a[y] for y in ("k", "d", "r", "t")}, "local": local, "e": e != 0, "out": out})
        return {"h": hist, "log": open(log).read().split("\n") if os.path.exists(log) else []}
    finally:
        shutil.rmtree(top, ignore_errors=True)
