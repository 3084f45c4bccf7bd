"""replay.py <file>: judge the case of a replay file again, with the code of the current tree.

Cases of the product (module Refine) are compiled again; recorded histories and comparisons (other modules)
are judged as recorded.  Exit 0: quiet now; 1: the violation is still there; 2: it cannot be judged."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common      # noqa: E402
import tlc         # noqa: E402


def main():
    d = json.load(open(sys.argv[1]))
    print(d.get("what", ""))
    for k in ("text", "formatted", "teal", "hist", "acts"):
        if k in d:
            print(f"--- {k}")
            print(d[k] if isinstance(d[k], str) else json.dumps(d[k], indent=1))
    c = d.get("judged")
    if not c:
        print("(no case of the specification is recorded)")
        return 2
    if d["module"] == "Refine" and "text" in d:
        w = common.Worker()
        try:
            if d["case"].startswith("run"):            # the formatted program
                a = dict(w.ask({"op": "reformat", "text": d["text"]}), map=[], emsg=[])
            else:
                a = w.ask({"op": "compile", "text": d["text"]})
        finally:
            w.close()
        if a["acc"]:
            print("--- TEAL")
            print("\n".join("%3d %s" % x for x in enumerate(a["teal"], 1)))
            if not c["run"] and not c["T"]:
                a = dict(a, teal=[], map=[], emsg=[])
        new = common.case(c["id"], c["P"], a)
        for k in ("acc", "T", "map", "emsg", "msg", "eln"):
            c[k] = new[k]
    r = tlc.run(d["module"], [c], shards=1, timeout=600)
    for v in r["verdicts"]:
        print(v)
    return 1 if any(v[1] not in common.QUIET for v in r["verdicts"]) else 0


if __name__ == "__main__":
    sys.exit(main())
