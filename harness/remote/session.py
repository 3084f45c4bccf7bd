import hashlib
import json


def text_of(x):
    return json.dumps(x, sort_keys=True, default=str)


def tables(m):
    d = m.as_dict()
    return {k: sorted([a, b] for a, b in v.items()) for k, v in d.items()}


def layouts(s):
    return [[n, t.size, [[f, str(x.tealish_type), x.size, x.offset] for f, x in t.fields.items()]] for n, t in s.items()]


def step(s, o, p, objs, texts, kept):
    import tealish
    from tealish import TealishCompiler
    src = texts[p - 1]
    if s == "c":
        teal, m = tealish.compile_program(src)
        return [list(teal), tables(m)]
    if s == "r":
        return tealish.reformat_program(src)
    if s == "i":
        return tealish.inspect_program(src)
    if s == "new":
        lines = src.split("\n")
        objs[o] = TealishCompiler(lines)
        kept[o] = (lines, list(lines))
        return ""
    c = objs[o]
    if s == "parse":
        c.parse()
        return ""
    if s == "process":
        c.process()
        return ""
    if s == "compile":
        kept[o, "teal"] = c.compile()
        if kept[o][0] != kept[o][1]:
            return "the source lines are changed"
        return list(kept[o, "teal"])
    if s == "reformat":
        return c.reformat()
    if s == "map":
        return tables(c.get_map())
    if s == "structs":
        return layouts(c.get_structs())
    if s == "scribble":
        kept[o, "teal"].append("scribble")
        kept[o, "teal"][0] = "x"
        d = c.get_map().as_dict()
        for t in d.values():
            t.clear()
        c.get_structs().clear()
        return ""


def run(arg):
    """answers of a history; long answers as digests"""
    from tealish.errors import CompileError, ParseError
    objs, kept, out, dead = {}, {}, [], set()
    for s, o, p in arg["hist"]:
        if s == "new":
            dead.discard(o)
        elif o in dead:
            out.append(["", True])
            continue
        failed = False
        try:
            a = text_of(step(s, o, p, objs, arg["texts"], kept))
        except (ParseError, CompileError) as e:
            a, failed = type(e).__name__ + ": " + str(e), True
        except Exception as e:
            a, failed = "other " + type(e).__name__, True
        if failed and o:
            dead.add(o)
        out.append([a if len(a) < 120 or arg.get("full") else hashlib.sha256(a.encode()).hexdigest(), failed])
    return out


def alone(arg):
    """the answers of short histories, each in its own copy of this process"""
    import os
    res = []
    for hist in arg["hists"]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                a = json.dumps(run({"hist": hist, "texts": arg["texts"], "full": arg.get("full")})[-1])
                with os.fdopen(w, "w") as f:
                    f.write(a)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            res.append(json.loads(f.read() or '["died", true]'))
        os.waitpid(pid, 0)
    return res
