"""Runs histories of edits and commands of the command line in a scratch directory (inside a worker)."""
import base64
import contextlib
import hashlib
import http.server
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

import click  # noqa: F401
import tealish
from algosdk.source_map import SourceMap
from tealish.cli import cli
from tealish.langspec import packaged_lang_spec

GOAL = """#!%s -IS
import hashlib, json, sys
a = sys.argv[1:]
teal = sys.stdin.read()
if "FAILASM" in teal or a[:2] != ["clerk", "compile"]:
    print("failed")
    sys.exit(1)
o = a[a.index("-o") + 1]
import os
root = os.path.dirname(os.path.realpath(os.environ["TMPDIR"]))
if not os.path.realpath(o).startswith(root + "/"):
    open(os.path.join(root, "file-outside-the-project"), "w").write(o)      # nothing out there is ours to overwrite
    sys.exit(1)
%s
open(o, "wb").write(code(teal))
if "--map" in a or "-m" in a:
    json.dump(sourcemap(teal), open(o + ".map", "w"))
"""
ASM = '''
def code(teal):
    import hashlib
    return b"\\x08" + hashlib.sha256(teal.encode()).digest()


def sourcemap(teal):
    n = len(teal.split("\\n"))
    return {"version": 3, "sources": ["<stdin>"], "names": [], "mappings": ";".join(["", "AAAA"] + ["AACA" if i % 3 else "" for i in range(n - 2)])}
'''
exec(ASM)


class Algod(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def reply(self, n, d):
        s = json.dumps(d).encode()
        self.send_response(n)
        self.send_header("Content-Type", "application/json")
        self.send_header("Content-Length", str(len(s)))
        self.end_headers()
        self.wfile.write(s)

    def do_GET(self):
        if self.path.endswith("/langspec.json"):
            self.reply(200, self.server.spec)
        else:
            self.reply(404, {"message": "no"})

    def do_POST(self):
        teal = self.rfile.read(int(self.headers.get("Content-Length", 0))).decode()
        if self.headers.get("X-Algo-API-Token", "") != self.server.token or "FAILASM" in teal:
            self.reply(400, {"message": "failed"})
        else:
            d = {"hash": "x", "result": base64.b64encode(code(teal)).decode()}
            if "sourcemap=true" in self.path.lower():
                d["sourcemap"] = sourcemap(teal)
            self.reply(200, d)


def table(texts):
    """what the library makes of each text; formatted texts are added"""
    out, contents = [], {}
    texts = list(texts)
    i = 0
    while i < len(texts):
        t = texts[i]
        d = dict(ok=False, f=0, a=False, n=0, insp=None, teal=0, map=0)
        contents.setdefault(t.encode(), ["src", i + 1])
        try:
            teal, m = tealish.compile_program(t)
            s = "\n".join(list(teal) + [""])
            d.update(ok=True, a="FAILASM" not in s, insp=json.loads(json.dumps(tealish.inspect_program(t))))
            # (texts which differ in their formatting only have the same TEAL or map)
            d["teal"] = contents.setdefault(s.encode(), ["teal", i + 1])[1]
            contents.setdefault(code(s), ["tok", i + 1])
            m.update_from_teal_sourcemap(SourceMap(sourcemap(s)))
            d["map"] = contents.setdefault(("map", json.dumps(json.loads(json.dumps(m.as_dict())), sort_keys=True)), ["map", i + 1])[1]
        except (tealish.errors.ParseError, tealish.errors.CompileError):
            pass
        try:
            f = tealish.reformat_program(t)
            if f not in texts:
                texts.append(f)
            d["f"] = texts.index(f) + 1
        except (tealish.errors.ParseError, tealish.errors.CompileError):
            pass
        out.append(d)
        i += 1
    return texts, out, contents


def snapshot(root, contents, spec):
    out = []
    for d, ds, fs in os.walk(root):
        for x in ds:
            out.append([os.path.relpath(os.path.join(d, x), root), "dir", 0])
        for x in fs:
            p = os.path.join(d, x)
            b = open(p, "rb").read()
            v = contents.get(b)
            if v is None and x.endswith(".json"):
                with contextlib.suppress(ValueError):
                    j = json.loads(b)
                    v = ["spec", 1] if j == spec else contents.get(("map", json.dumps(j, sort_keys=True)))
            out.append([os.path.relpath(p, root)] + (v or ["other", int.from_bytes(hashlib.sha256(b).digest()[:3], "big")]))
    return sorted(out)


def invoke(args, cwd, env, proc):
    """exit code and output of a command"""
    if proc:
        e = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(tealish.__file__)), PYTHONDONTWRITEBYTECODE="1", **env)
        r = subprocess.run([sys.executable, "-c", "from tealish.cli import cli; cli(prog_name='tealish')"] + args, cwd=cwd, env=e, capture_output=True, text=True, timeout=120)
        return r.returncode, r.stdout
    out, err, old, here = io.StringIO(), io.StringIO(), dict(os.environ), os.getcwd()
    try:
        os.environ.update(env)
        os.chdir(cwd)
        tempfile.tempdir = None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                cli.main(args=args, prog_name="tealish")
                n = 0
            except SystemExit as e:
                n = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except Exception:
                n = 1                  # a traceback
    finally:
        os.chdir(here)
        os.environ.clear()
        os.environ.update(old)
        tempfile.tempdir = None
    return n, out.getvalue()


def run(arg):
    """arg: texts, files {path: text}, acts; each act {k, p, t, asm, q, how, proc}"""
    top = tempfile.mkdtemp(prefix="cli_")
    server = None
    try:
        root, tools, empty, tmp = (os.path.join(top, x) for x in ("root", "tools", "empty", "root/tmp"))
        for d in (root, tools, empty, tmp):
            os.mkdir(d)
        with open(os.path.join(tools, "goal"), "w") as f:
            f.write(GOAL % (sys.executable, ASM))
        os.chmod(os.path.join(tools, "goal"), 0o755)
        spec = json.loads(json.dumps(packaged_lang_spec.as_dict()))
        op = dict(spec["Ops"][0], Name="newest_op", Opcode=255)
        spec["Ops"] = spec["Ops"] + [op]
        server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Algod)
        server.spec, server.token = spec, ""
        threading.Thread(target=server.serve_forever, daemon=True).start()
        url = "http://127.0.0.1:%d" % server.server_port
        texts, info, contents = table(arg["texts"])
        for d in arg["dirs"]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for p, t in arg["files"].items():
            with open(os.path.join(root, p), "w", newline="") as f:
                f.write(texts[t - 1])
        for p, s in arg.get("other", {}).items():
            with open(os.path.join(root, p), "w") as f:
                f.write(s)
        start = snapshot(root, contents, spec)
        hist = []
        for a in arg["acts"]:
            k, p, e, out = a["k"], os.path.join(root, a["p"]), 0, []
            if k == "write":
                with open(p, "w", newline="") as f:
                    f.write(texts[a["t"] - 1])
            elif k == "delete":
                os.remove(p)
            else:
                cwd, env = root, {"PATH": tools, "TMPDIR": tmp, "LC_ALL": "C.UTF-8"}
                arg_ = a["p"] or "."
                if a["how"] == "abs":
                    arg_ = p
                elif a["how"] == "cd" and os.path.isdir(os.path.dirname(p)):
                    cwd, arg_ = os.path.dirname(p), os.path.basename(p)
                elif a["how"] == "dot" and os.path.isdir(p):
                    cwd, arg_ = p, "."
                elif a["how"] == "slash" and os.path.isdir(p):
                    arg_ += "/"
                args = ["-q"] if a["q"] else []
                if k == "build":
                    server.token = ""
                    if a["asm"] == "unsupported":
                        args += ["build", "--sandbox", arg_]
                    elif a["how2"] == "goal":
                        args += ["build", "--goal", arg_]
                        env["PATH"] = tools if a["asm"] == "up" else empty
                    else:
                        server.token = {"token": "t0k", "plain": ""}[a["how2"]] if a["asm"] == "up" else "other"
                        u = url + ("#t0k" if a["how2"] == "token" else "")
                        args += ["build"] + (["--algod"] if a["q"] else []) + ["--algod-url", u, arg_]
                elif k == "diff":
                    args += ["langspec", "diff"]
                elif k == "fetch":
                    args += ["langspec", "fetch", url + ("/langspec.json" if a["t"] else "/nothing")]
                else:
                    args += [k, arg_]
                e, s = invoke(args, cwd, env, a["proc"])
                t = next((v for v in [contents.get(open(p, "rb").read())] if v), None) if os.path.isfile(p) else None
                if k in ("compile", "build") and a["q"] and e == 0:
                    out = ["silent", len(s)]
                elif k == "inspect" and e == 0 and t and t[0] == "src":
                    try:
                        same = json.loads(s) == info[t[1] - 1]["insp"]
                    except ValueError:
                        same = False
                    out = ["inspection", t[1] if same else 0]
                elif k == "stats" and e == 0 and t and t[0] == "src":
                    ls = s.strip().split("\n")
                    w = ls[0].rsplit(":", 1)[-1].split() if len(ls) == 1 else []
                    out = ["lines", int(w[0]) if len(w) == 2 and w[1] == "lines" else -2]
            hist.append(dict(x=dict(k=k, p=a["p"], t=a["t"], asm=a["asm"], q=a["q"]), fs=snapshot(root, contents, spec), e=e != 0, out=out))
        return {"start": start, "h": hist, "texts": texts, "info": [{x: d[x] for x in ("ok", "f", "a", "teal", "map")} for d in info]}
    finally:
        if server:
            server.shutdown()
            server.server_close()
        shutil.rmtree(top, ignore_errors=True)
