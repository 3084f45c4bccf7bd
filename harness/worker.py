"""Child process with the code under test: one JSON request per line, one JSON answer per line."""
import json
import os
import re
import resource
import signal
import sys
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get("TEALISH_REPO", "/repo")
sys.path.insert(0, REPO)
OUT = os.dup(1)
os.dup2(2, 1)          # anything printed by the code under test goes to stderr
import tealish                                        # noqa: E402
from tealish.errors import CompileError, ParseError   # noqa: E402

assert os.path.realpath(tealish.__file__).startswith(os.path.realpath(REPO) + "/"), tealish.__file__


class Hang(BaseException):
    pass


resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def alarm(sig, frame):
    raise Hang()


signal.signal(signal.SIGALRM, alarm)


def maps(m, n):
    """source line of each TEAL line"""
    lines = [m.get_tealish_line_for_teal(i) for i in range(1, n + 1)]
    return [-1 if k is None else k for k in lines]


def messages(m, n):
    """assert message of each TEAL line, through the public queries"""
    from tealish.utils import TealishMap
    d = dict(m.as_dict())
    d["pc_teal"] = {i: i for i in range(1, n + 1)}
    m2 = TealishMap(d)
    return [m2.get_error_for_pc(i) or "" for i in range(1, n + 1)]


def error_line(e):
    node = getattr(e, "node", None)
    if node is not None and getattr(node, "line_no", None):
        return node.line_no
    m = re.search(r"\bline (\d+)", str(e))
    return int(m[1]) if m else 0


def compile_(text):
    teal, m = tealish.compile_program(text)
    return {"teal": teal, "map": maps(m, len(teal)), "emsg": messages(m, len(teal))}


def handle(r):
    op = r["op"]
    if op == "compile":
        return compile_(r["text"])
    if op == "minify":            # compile, then minify: [text] -> teal, line map
        from tealish.utils import minify_teal
        a = compile_(r["text"])
        teal, m = minify_teal(list(a["teal"]))
        a["min"], a["minmap"] = teal, [m.get(i, 0) for i in range(1, len(teal) + 1)]
        return a
    if op == "strip":
        from tealish.utils import strip_comments
        a = compile_(r["text"])
        a["min"] = strip_comments(list(a["teal"]))
        return a
    if op == "minteal":           # minify given TEAL
        from tealish.utils import minify_teal, strip_comments
        teal, m = minify_teal(list(r["teal"]))
        return {"min": teal, "minmap": [m.get(i, 0) for i in range(1, len(teal) + 1)],
                "strip": strip_comments(list(r["teal"]))}
    if op == "format":
        return {"text": tealish.reformat_program(r["text"])}
    if op == "inspect":
        return {"data": tealish.inspect_program(r["text"])}
    if op == "reformat":          # format, format again, compile the result
        f = tealish.reformat_program(r["text"])
        g = tealish.reformat_program(f)
        return dict(compile_(f), text=f, again=g)
    if op == "exec":              # python of the check: def run(arg) -> JSON
        env = {}
        exec(compile(r["code"], "<check>", "exec"), env)
        return {"out": env["run"](r.get("arg"))}
    raise Exception(op)


def answer(r):
    try:
        signal.setitimer(signal.ITIMER_REAL, r.get("timeout", 20))
        a = handle(r)
        a["acc"] = True
    except (ParseError, CompileError) as e:
        a = {"acc": False, "err": type(e).__name__, "msg": str(e), "eln": error_line(e)}
        if type(e) not in (ParseError, CompileError):
            a["sub"] = True
    except Hang:
        a = {"acc": False, "err": "Hang", "msg": "did not end", "eln": 0, "escaped": True}
    except BaseException as e:
        a = {"acc": False, "err": type(e).__name__, "eln": 0, "escaped": True,
             "msg": type(e).__name__ + ": " + "".join(traceback.format_exception(e))[-800:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return a


def main():
    out = os.fdopen(OUT, "w")
    for line in sys.stdin:
        r = json.loads(line)
        try:
            s = json.dumps(answer(r))
        except (TypeError, ValueError) as e:
            s = json.dumps({"acc": False, "err": "Unserialisable", "msg": str(e), "eln": 0, "escaped": True})
        out.write(s + "\n")
        out.flush()


main()
