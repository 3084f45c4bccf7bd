import json
import warnings


def enc(v):
    """base64 VLQ"""
    v = (abs(v) << 1) | (v < 0)
    s = ""
    while True:
        d = v & 31
        v >>= 5
        s += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[d | (32 if v else 0)]
        if not v:
            return s


def pairs(d):
    return sorted(([k, v] for k, v in d.items()), key=lambda x: (type(x[0]).__name__, x))


def fits(k, a):
    """is the answer of the right type?"""
    n = lambda x: type(x) is int
    if k in ("dict", "compile"):
        return len(a) == 3 and all(n(x) and n(y) for t in a[:2] for x, y in t) and all(n(x) and type(y) is str for x, y in a[2])
    if k == "err_pc":
        return all(type(x) is str for x in a)
    return all(n(x) for x in a)


def run(ops):
    import tealish
    from tealish.utils import TealishMap
    from algosdk.source_map import SourceMap
    m = {}
    out = []
    for o in ops:
        k, i = o[0], o[1]
        a = []
        try:
            if k == "new":
                d = {}
                for name, t in zip(("pc_teal", "teal_tealish", "errors"), o[2]):
                    if t is not None:
                        d[name] = {(str(x) if o[3] else x): y for x, y in t}
                m[i] = TealishMap(d) if o[2] != [None] * 3 or o[3] else TealishMap()
            elif k == "compile":
                m[i] = tealish.compile_program(o[2])[1]
                d = m[i].as_dict()
                a = [pairs(d["pc_teal"]), pairs(d["teal_tealish"]), pairs(d["errors"])]
            elif k == "update":
                sm = {"version": 3, "sources": ["x"], "names": [], "mappings": ";".join("" if x is None else "AA" + enc(x) + "A" for x in o[2])}
                m[i].update_from_teal_sourcemap(SourceMap(sm) if o[3] else sm)
            elif k == "copy":
                m[o[2]] = TealishMap(m[i].as_dict())
            elif k == "json":
                m[o[2]] = TealishMap(json.loads(json.dumps(m[i].as_dict())))
            elif k == "dict":
                d = m[i].as_dict()
                a = [pairs(d["pc_teal"]), pairs(d["teal_tealish"]), pairs(d["errors"])]
                if sorted(d) != ["errors", "pc_teal", "teal_tealish"]:
                    raise Exception("keys " + str(sorted(d)))
            elif k == "lines":
                a = m[i].get_teal_lines_for_tealish(o[2])
                a = sorted(a)
            else:
                f = {"tl_pc": "get_tealish_line_for_pc", "teal_pc": "get_teal_line_for_pc", "tl_teal": "get_tealish_line_for_teal",
                     "err_pc": "get_error_for_pc"}[k]
                r = getattr(m[i], f)(o[2])
                a = [] if r is None else [r]
        except Exception as e:
            out.append([[], "raised " + type(e).__name__ + ": " + str(e)])
            continue
        out.append([a, ""] if fits(k, a) else [[], "another type: " + repr(a)[:200]])
    return out
