"""Every kind of value in every place a value can stand, and every call with every number of arguments."""
import itertools

import tl

STRUCTS = {"Sa": "struct Sa:\n    p: int\nend", "Sc": "struct Sc:\n    u: uint8[8]\nend", "Sb": "struct Sb:\n    p: int\n    q: uint8\nend",
           "Sz": "struct Sz:\n    i: int\n    u: uint8\n    b: bytes[8]\n    c: bytes[1]\n    d: uint8[8]\n    s: Sb\nend"}
NEEDS = {"Sa": ["Sa"], "Sc": ["Sc"], "Sb": ["Sb"], "Sz": ["Sb", "Sz"]}
# type: a value
TYPES = {"int": "1", "uint8": "1", "bytes": '"ab"', "bytes[1]": '"a"', "bytes[8]": "bzero(8)", "bytes[32]": "bzero(32)",
         "bigint": '"ab"', "addr": "Global.ZeroAddress", "uint8[2]": '"ab"', "uint8[8]": "bzero(8)", "Sa": "bzero(8)", "Sb": "bzero(9)", "Sc": "bzero(8)"}
FIELDS = {"int": "i", "uint8": "u", "bytes[8]": "b", "bytes[1]": "c", "uint8[8]": "d", "Sb": "s"}
VARS = {t: f"v{i}" for i, t in enumerate(TYPES)}


def sources():
    """(expression, declarations, functions)"""
    out = []

    def add(e, pre=(), fs=()):
        out.append((e, list(pre), list(fs)))
    for n in (0, 1, 255, 256, 65535, 65536, 2 ** 32, 2 ** 56 - 1, 2 ** 56, 2 ** 64 - 1):
        add(str(n))
    add("KK", ["const int KK = 5"])
    add("KB", ['const bytes KB = "abcdefgh"'])
    for e in ("Pay", "OptIn", "Txn.Fee", "Txn.Sender", "Txn.Note", "Txn.ApplicationArgs[0]", "Txn.Assets[1]", "Gtxn[0].Fee", "Gtxn[1].Receiver",
              "Gtxn[0].Accounts[1]", "Global.GroupSize", "Global.ZeroAddress", "Itxn.Fee", "Itxn.Logs[0]", 'app_global_get("k")', "pop()", "itob(1)",
              'len("a")', 'btoi("a")', 'log("x")', "addw(1, 2)", "app_global_get_ex(0, \"k\")", "Error()", "push(1)", "bzero(8)", "bzero(1)", "bzero(0)",
              "bzero(Txn.Fee)", '""', '"x"', '"12345678"', '"x\\x00"', '"' + "s" * 32 + '"', "SizeOf(int)", "SizeOf(bytes[9])", "1 + 1", "!1", "~1", 'b~"x"',
              '"a" b+ "b"', '"a" b== "b"', "1 == 2", '"a" == "b"', "1 && 2", "Cast(Txn.Note, bytes[8])", "Cast(Txn.Fee, uint8)", "Cast(\"a\", bigint)",
              "Convert(1, bytes)", "Convert(Txn.Note, int)", "ToBytes(1, 8)", "ToBytes(1, 1)", "FromBytes(Txn.Note, int)", "FromBytes(Txn.Note, uint8)",
              "FromBytes(Txn.Note, bytes[8])", "EnsureType(pop(), int)", "EnsureType(pop(), bytes[8])", "EnsureType(pop(), uint8)",
              "UncheckedCast(pop(), uint8)", "UncheckedCast(pop(), bytes[1])", "Rpad(\"a\", 8)", "Lpad(\"a\", 1)", "Concat(\"a\", \"b\")",
              "Address(\"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ\")", "ARC28Event(\"E(byte[])\", \"a\")", "sha256(\"a\")",
              "substring(\"abc\", 0, 2)", "extract(0, 8, \"abcdefghij\")", "extract(0, 0, \"abc\")", "extract3(\"abc\", 0, 1)", "getbyte(\"a\", 0)",
              "setbit(1, 0, 1)", "setbit(\"a\", 0, 1)", "select(1, 2, 0)", 'concat("a", "b")', "asset_holding_get(AssetBalance, 0, 0)", "nosuch()", "nosuch",
              "NOSUCH", "Nosuch", "Txn.Nosuch", "Gtxn[0].Nosuch", "Txn.Fee[0]", "Txn.ApplicationArgs", "box_get(\"k\")", "method(\"f()void\")"):
        add(e)
    for t, v in VARS.items():
        add(v, [f"{t} {v} = {TYPES[t]}"])
    for t in ("int", "uint8", "bytes", "bytes[8]", "Sb", "addr"):
        add("g()", fs=[f"func g() {t}:\n    return {TYPES[t]}\nend"])
    add("g()", fs=["func g():\n    return\nend"])
    add("g()", fs=["func g() int, int:\n    return 1, 2\nend"])
    for f in FIELDS.values():
        add(f"z.{f}", ["Sz z = bzero(35)"])
        add(f"y.{f}", ["box<Sz> y = Box(\"k\")"])
    add("z.nosuch", ["Sz z = bzero(35)"])
    add("v0.p", ["int v0 = 1"])
    add("y", ["box<Sz> y = Box(\"k\")"])
    add("ya", ["box<Sa> ya = Box(\"k\")"])
    add("yc", ["box<Sc> yc = OpenBox(\"k\")"])
    add("z", ["Sz z = bzero(35)"])
    return out


def contexts():
    """(lines with {e}, declarations, functions)"""
    out = []

    def add(s, pre=(), fs=()):
        out.append((s, list(pre), list(fs)))
    for t, init in TYPES.items():
        add(f"{t} w = {{e}}")
        add("w = {e}", [f"{t} w = {init}"])
        add("h({e})", fs=[f"func h(a: {t}):\n    return\nend"])
        add("int w = h(1)", fs=[f"func h(z0: int) {t}:\n    return {{e}}\nend"])
    for f in FIELDS.values():
        add(f"r.{f} = {{e}}", ["Sz r = bzero(35)"])
        add(f"q.{f} = {{e}}", ["box<Sz> q = Box(\"k\")"])
    for s in ("_ = {e}", "log({e})", "log(itob({e}))", "{e}", "exit({e})", "assert({e})", "if {e}:\nend", "if 1:\nelif {e}:\nend", "while {e}:\nbreak\nend",
              "for k in 0:{e}:\nend", "for k in {e}:1:\nend", "box<Sz> q = OpenBox({e})", "box<Sz> q = CreateBox({e})", "box<Sz> q = Box({e})",
              "log(Txn.ApplicationArgs[{e}])", "log(Gtxn[{e}].Note)", "log(Gtxn[0].ApplicationArgs[{e}])", "log(Itxn.Logs[{e}])",
              "inner_txn:\nFee: {e}\nend", "inner_txn:\nApplicationArgs[0]: {e}\nend", "log(itob(1 + {e}))", "log(itob({e} == 1))", "log(itob({e} == \"a\"))",
              "log({e} b+ \"a\")", "log(itob(!{e}))", "log(b~{e})", "app_global_put({e}, 1)", "app_global_put(\"k\", {e})",
              "log(bzero({e}))", "log(Concat(\"a\", {e}))", "log(Lpad({e}, 8))", "log(ToBytes({e}, 8))", "log(ToBytes(1, {e}))",
              "log(Convert({e}, bytes))", "log(itob(Convert({e}, int)))", "log(FromBytes({e}, bytes))", "log(Cast({e}, bytes[8]))", "log(itob(Cast({e}, uint8)))",
              "log(EnsureType({e}, bytes[8]))", "log(itob(EnsureType({e}, int)))", "log(UncheckedCast({e}, bytes))", "log(ARC28Event(\"E(byte[])\", {e}))",
              "push({e})", "log(arg({e}))", "log(extract({e}, 1, \"ab\"))", "log(select(\"a\", {e}, 1))"):
        add(s)
    add("_, _ = {e}")
    for n in ("Sa", "Sc"):
        add("qa = {e}", [f"box<{n}> qa = Box(\"kkkkkkkk\")"])
    add("a1, a2 = {e}", ["int a1 = 1", "int a2 = 2"])
    add("a1, _ = {e}", ["uint8 a1 = 1"])
    add("_, a2 = {e}", ["bytes a2 = \"x\""])
    add("int w = h(1)", fs=["func h(z0: int) int, bytes:\n    return {e}, \"a\"\nend"])
    add("int w = h(1)", fs=["func h(z0: int) bytes, int:\n    return \"a\", {e}\nend"])
    add("h(1, {e})", fs=["func h(a: bytes, b: int):\n    return\nend"])
    add("h({e}, \"b\")", fs=["func h(a: int, b: bytes):\n    return\nend"])
    add("switch {e}:\n1: bb\nend")
    add("switch {e}:\n\"a\": bb\nelse: bb\nend")
    add("switch 1:\n{e}: bb\nend")
    add("switch \"a\":\n{e}: bb\nelse: bb\nend")
    return out


def program(ctx, src):
    s, p1, f1 = ctx
    e, p2, f2 = src
    body = s.replace("{e}", e)
    fs = [f.replace("{e}", e) for f in f1] + f2
    inner = any("{e}" in f for f in f1)
    text = "\n".join(p1 + p2 + [body] + fs)
    need = []
    for n in STRUCTS:
        if n in text:
            need += [m for m in NEEDS[n] if m not in need]
    # (variables are declared in the function that uses them)
    pre = p1 + ([] if inner else p2)
    if inner:
        fs = [f.replace("\n    return", "\n" + "".join(f"    {x}\n" for x in p2) + "    return", 1) if i < len(f1) else f for i, f in enumerate(fs)]
    sw = body.startswith("switch")
    lines = ["#pragma version 8"] + [STRUCTS[n] for n in sorted(need)] + [x for x in pre] + [body]
    if not sw and not body.startswith("exit("):
        lines.append("exit(1)")
    if sw:
        lines.append("block bb:\n    exit(1)\nend")
    return "\n".join(lines + fs) + "\n"


def matrix(rng, share=1):
    """(name, text) of every combination, or of a share of them"""
    cs, ss = contexts(), sources()
    out = []
    for i, c in enumerate(cs):
        for j, s in enumerate(ss):
            if share < 1 and rng.random() >= share:
                continue
            out.append((f"m{i}/{j}", program(c, s)))
    return out


OPERATORS = ["+", "-", "*", "/", "%", "==", "!=", ">=", "<=", ">", "<", "&&", "||", "|", "&", "^",
             "b+", "b-", "b/", "b*", "b%", "b|", "b&", "b^", "b==", "b!=", "b>=", "b<=", "b>", "b<"]
OPERANDS = [("1", []), ('"a"', []), ("vi", ["int vi = 1"]), ("vu", ["uint8 vu = 1"]), ("vb", ['bytes vb = "a"']), ("ve", ["bytes[8] ve = bzero(8)"]),
            ("vg", ['bigint vg = "ab"']), ("va", ["addr va = Global.ZeroAddress"]), ("Txn.Fee", []), ("Txn.Sender", []), ('app_global_get("k")', []),
            ("NoOp", []), ("f()", []), ("g()", []), ("addw(1, 2)", []), ("z", ["Sa z = bzero(8)"]), ("z.p", ["Sa z = bzero(8)"]), ("y", ['box<Sa> y = Box("k")']),
            ("(1 + 1)", []), ("!1", []), ('b~"a"', []), ("pop()", []), ("Txn.ApplicationArgs[0]", []), ("nosuch", [])]


def operators(rng, share=1):
    """(name, text): every operator with every pair of operands, or a share of them"""
    out = []
    for i, o in enumerate(OPERATORS):
        for j, (a, p) in enumerate(OPERANDS):
            for k, (b, q) in enumerate(OPERANDS):
                if share < 1 and rng.random() >= (2 * share if o in ("==", "!=") else share) * (2 if j < 8 and k < 8 else .6):
                    continue
                pre = p + [x for x in q if x not in p]
                use = [f"_ = {a} {o} {b}", f"int r = {a} {o} {b}", f"log({a} {o} {b})", f"if {a} {o} {b}:\nend", f"log(itob({a} {o} {b}))", f"bytes r = {a} {o} {b}"][rng.randrange(6)]
                fs = (["func f():\n    return\nend"] if "f()" in a + b else []) + (["func g() int:\n    return 1\nend"] if "g()" in a + b else [])
                need = [STRUCTS["Sa"]] if "Sa" in "".join(pre) else []
                out.append((f"o{o}{j},{k}", "\n".join(["#pragma version 8"] + need + pre + [use, "exit(1)"] + fs) + "\n"))
    return out


def several(rng, n):
    """(name, text): lists of up to six values, of which one may not fit its place"""
    out = []
    ts = ["int", "int", "bytes", "bytes", "uint8", "bytes[8]", "bytes[1]", "bigint", "addr", "Sa", "Sc", "uint8[8]"]
    val = dict(TYPES, addr="Global.ZeroAddress", bigint='Cast("a", bigint)')
    for i in range(n):
        k = rng.choice([1, 2, 3, 3, 4, 5, 6])
        want = [rng.choice(ts) for _ in range(k)]
        got = list(want)
        j = rng.randrange(k)
        got[j] = rng.choice(ts)
        if rng.random() < .15:
            got = got[:-1] if rng.random() < .5 else got + ["int"]
        ret = "    return " + ", ".join(val[t] for t in got)
        form = i % 5
        if form == 0:       # assignment
            vs = ["_" if rng.random() < .12 else f"w{x}" for x in range(k)]
            main = [f"{t} w{x} = {val[t]}" for x, t in enumerate(want)] + [f"{', '.join(vs)} = f()"]
            fs = [f"func f() {', '.join(got)}:", ret, "end"]
        elif form == 1:     # return
            main, fs = ["int x = 1"], [f"func f() {', '.join(want)}:", ret, "end"]
        elif form == 2:     # return in a function called through another
            main, fs = ["int x = 1"], [f"func f(a: int) {', '.join(want)}:", "    if a:", "    " + ret, "    end", "    return " + ", ".join(val[t] for t in want), "end"]
        elif form == 3:     # arguments
            main, fs = [f"f({', '.join(val[t] for t in got)})"], [f"func f({', '.join(f'a{x}: {t}' for x, t in enumerate(want))}):", "    return", "end"]
        else:               # arguments that are variables
            main = [f"{t} w{x} = {val[t]}" for x, t in enumerate(got)] + [f"f({', '.join(f'w{x}' for x in range(len(got)))})"]
            fs = [f"func f({', '.join(f'a{x}: {t}' for x, t in enumerate(want))}):", "    return", "end"]
        text = " ".join(main + fs)
        out.append((f"s{i}", "\n".join(["#pragma version 8"] + [STRUCTS[x] for x in ("Sa", "Sc") if x in text] + main + ["exit(1)"] + fs) + "\n"))
    return out


PIECES = ["a", "Z ", "\\n", "\\r", "\\t", "\\\\", '\\"', "\\x00", "\\xfF", "\\x22", "\\x5c", "//", "#", ";", "'", "é", "漢", ")", "\\\\n", "0x00", "\\x41x"]


def literals(rng, n):
    """(name, text): the size of string literals, in every place where it is known"""
    out = []
    lits = [[a] for a in PIECES] + [[a, b] for a, b in zip(PIECES, PIECES[1:])] + [[rng.choice(PIECES) for _ in range(rng.randint(2, 6))] for _ in range(n)]
    for i, l in enumerate(lits):
        body = "".join(l)
        size = len(tl.decode(body))
        lit = f'"{body}"'
        for d in (-1, 0, 1):
            m = size + d
            if m < 1:
                continue
            for j, ls in enumerate(([f"bytes[{m}] x = {lit}", "log(x)"], [f"bytes[{m}] x = bzero({m})", f"x = {lit}", "log(x)"],
                                    [f"f({lit})"], ["log(f(1))"], ["R r = bzero(%d)" % (m + 1), f"r.b = {lit}", "log(r)"],
                                    [f"log(Rpad({lit}, {m}))"], [f"log(Lpad({lit}, {m}))"], [f"log(Concat({lit}, {lit}))"])):
                if j > 1 and d == 0 and i >= len(PIECES) or j > 4 and d or j in (2, 3, 4) and rng.random() < .6:
                    continue
                st = [f"struct R:\n    b: bytes[{m}]\n    u: uint8\nend"] if j == 4 else []
                fs = {2: [f"func f(a: bytes[{m}]):\n    log(a)\n    return\nend"], 3: [f"func f(a: int) bytes[{m}]:\n    return {lit}\nend"]}.get(j, [])
                out.append((f"l{i}/{d}/{j}", "\n".join(["#pragma version 8"] + st + ls + ["exit(1)"] + fs) + "\n"))
    return out


SIZES = [1, 2, 8, 9, 16, 32, 64, 255, 256, 257, 264, 288, 512, 513, 1000, 1024, 4095, 4096]


def sizes(rng, share=1):
    """(name, text): values of one size where those of another are wanted"""
    out = []

    def ty(n, k):
        if k == "s":
            return f"S{n}", [f"struct S{n}:\n" + (f"    a: bytes[{n - 1}]\n    b: uint8\nend" if n > 1 else "    b: uint8\nend")]
        return f"{'bytes' if k == 'b' else 'uint8'}[{n}]", []
    for a in SIZES:
        for b in SIZES:
            for k, l in itertools.product("bsu", repeat=2):
                if rng.random() >= share * (3 if a % 256 == b % 256 else 1):
                    continue
                (t, d), (u, e) = ty(a, k), ty(b, l)
                ds = d + [x for x in e if x not in d]
                init = f"{u} y = bzero({b})"
                ctx = [([init, f"{t} x = y"], []), ([init, f"{t} x = bzero({a})", "x = y"], []), ([init, "f(y)"], [f"func f(p: {t}):\n    return\nend"]),
                       (["log(f())"], [f"func f() {t}:\n    {init}\n    return y\nend"]), ([init, f"R r = bzero({a + 8})", "r.w = y"], []),
                       ([init, "box<R> r = Box(\"k\")", "r.w = y"], []), ([f"{t} x = bzero({a})", "x = f()"], [f"func f() {u}:\n    return bzero({b})\nend"]),
                       ([f"R r = bzero({a + 8})", f"{u} x = r.w"], []), ([f"{t} x = bzero({b})"], []), ([f"int e = 0", f"{t} x = bzero({a})", "e, x = f()"], [f"func f() int, {u}:\n    return 1, bzero({b})\nend"])]
                for j, (ls, fs) in enumerate(ctx):
                    if share < 1 and rng.random() > .34:
                        continue
                    st = ds + ([f"struct R:\n    i: int\n    w: {t}\nend"] if any("R" in x for x in ls) and k != "s" else [])
                    if k == "s" and any("r.w" in x for x in ls):
                        continue
                    out.append((f"z{a}{k}/{b}{l}/{j}", "\n".join(["#pragma version 8"] + st + ls + ["exit(1)"] + fs) + "\n"))
    return out


def some(t):
    return {"int": "1", "bytes": '"a"', "any": "1"}.get(t, "1")


ARGS = {"U": "1", "B": '"a"', ".": '"b"'}


def arities():
    """(name, text): calls, returns, assignments, immediates and indexes with every number of values"""
    out = []

    def add(*lines, fs=(), ex=True):
        out.append((f"n{len(out)}", "\n".join(["#pragma version 8", *lines] + (["exit(1)"] if ex else []) + list(fs)) + "\n"))
    vals = ["1", '"a"', "2", '"b"', "3", '"c"']
    for params in itertools.chain.from_iterable(itertools.product(["int", "bytes"], repeat=k) for k in range(4)):
        for res in ([], ["int"], ["bytes"], ["int", "bytes"], ["int", "int", "bytes"]):
            sig = ", ".join(f"a{i}: {t}" for i, t in enumerate(params))
            rt = (" " + ", ".join(res)) if res else ""
            ret = "    return" + (" " + ", ".join(some(t) for t in res) if res else "")
            f = f"func f({sig}){rt}:\n{ret}\nend"
            good = [some(t) for t in params]
            for args in {tuple(good), tuple(good + ["1"]), tuple(good + ['"a"']), tuple(good + ["1", "1"]), tuple(good[:-1]), tuple(good[1:]),
                         tuple(good[::-1]), tuple(['"a"'] + good[1:]), tuple(["1"] + good)}:
                c = f"f({', '.join(args)})"
                add(c, fs=[f])
                if len(params) < 2 or args == tuple(good):
                    add(f"_ = {c}", fs=[f])
                    add(f"_, _ = {c}", fs=[f])
                    add("int x = 1", "bytes y = \"a\"", f"x, y = {c}", fs=[f])
                    add("int x = 1", "bytes y = \"a\"", f"_, x, y = {c}", fs=[f])
                    add(f"int x = {c}", fs=[f])
                    add(f"log({c})", fs=[f])
                    add(f"exit({c})", ex=False, fs=[f])
    for res in ([], ["int"], ["bytes"], ["int", "bytes"], ["bytes", "bytes", "int"]):
        for n in range(5):
            for vs in {tuple(some(t) for t in (res + ["int"] * 4)[:n]), tuple(vals[:n]), tuple(["1"] * n)}:
                rt = (" " + ", ".join(res)) if res else ""
                r = "    return" + (" " + ", ".join(vs) if vs else "")
                add("int x = 0", fs=[f"func f(){rt}:\n{r}\nend"])
                add("int x = 0", fs=[f"func f(){rt}:\n    if 1:\n    {r}\n    end\n    return{' ' + ', '.join(some(t) for t in res) if res else ''}\nend"])
    # opcodes with other numbers of arguments, and several results
    for o in ("log", "itob", "concat", "substring3", "app_global_put", "app_local_get_ex", "mulw", "divmodw", "min_balance", "sha256", "select", "addw",
              "box_create", "replace3", "setbit", "err", "bitlen", "sqrt"):
        if o not in tl.OPS:
            continue
        d = tl.OPS[o]
        good = [ARGS[c] for c in d["a"]]
        for args in (good, good + ["1"], good + ['"a"'], good[:-1], good[1:], good[::-1], ["1"] + good):
            c = f"{o}({', '.join(args)})"
            for s in (c, f"_ = {c}", f"_, _ = {c}", f"_, _, _ = {c}", f"_, _, _, _ = {c}", f"log({c})", f"log(itob({c}))"):
                add(s)
    for std, good, tys in (("Error", [], []), ("bzero", ["1"], []), ("Cast", ['"abcdefgh"'], ["bytes[8]"]), ("Convert", ["1"], ["bytes"]), ("ToBytes", ["1", "8"], []),
                           ("FromBytes", ['"a"'], ["int"]), ("EnsureType", ["pop()"], ["int"]), ("UncheckedCast", ["pop()"], ["int"]), ("SizeOf", [], ["int"]),
                           ("Rpad", ['"a"', "8"], []), ("Lpad", ['"a"', "8"], []), ("Concat", ['"a"', '"b"'], []), ("push", ["1"], []), ("pop", [], []),
                           ("ARC28Event", ['"E(uint64)"', "itob(1)"], []), ("Address", ['"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ"'], [])):
        for args in {tuple(good + tys), tuple(good + tys + ["int"]), tuple(good + ["1"] + tys), tuple(good), tuple(good[1:] + tys), tuple(good[:-1] + tys),
                     tuple(['"q"'] + good + tys), tuple(good + tys + ["bytes"]), tuple(good + tys[:-1] + ["Nosuch"]), tuple(good + tys + tys)}:
            c = f"{std}({', '.join(args)})"
            for s in (c, f"_ = {c}", f"_, _ = {c}", f"log({c})", f"log(itob({c}))"):
                add(s)
    # immediates and indexes
    for e in ("{n}", "KK", "KK1"):
        for n in (0, 1, 15, 16, 17, 127, 128, 255, 256, 257, 1000, 65536):
            k = [f"const int KK = {n}"] if e == "KK" else []
            x = e.format(n=n)
            for s in ("log(Txn.ApplicationArgs[{x}])", "log(Gtxn[{x}].Note)", "log(Gtxn[{x}].ApplicationArgs[0])", "log(Gtxn[0].ApplicationArgs[{x}])",
                      "log(Itxn.Logs[{x}])", "log(arg({x}))", "log(extract({x}, 1, \"a\"))", "log(extract(1, {x}, \"a\"))", "log(substring({x}, 1, \"a\"))",
                      "log(itob(gload({x}, 0)))", "log(itob(gload(0, {x})))", "log(bzero({x}))", "log(ToBytes(1, {x}))", "log(Rpad(\"a\", {x}))",
                      "log(itob(gaid({x})))", "log(Gtxn[+{x}].Note)", "log(Gtxn[-{x}].Note)", "log(itob(load({x})))", "store({x}, 1)",
                      "inner_txn:\nFee: 0\nApplicationArgs[{x}]: \"a\"\nend"):
                if ("[+" in s or "[-" in s or "inner_txn" in s) and not x.isdigit():
                    continue
                add(*k, s.format(x=x))
    for ixs in itertools.product([0, 1, 2, 3], repeat=3):
        add("inner_txn:", *[f"ApplicationArgs[{i}]: \"a\"" for i in ixs], "end")
    for ixs in itertools.product([0, 1, 2], repeat=2):
        add("inner_txn:", f"ApplicationArgs[{ixs[0]}]: \"a\"", "Fee: 1", f"Accounts[{ixs[1]}]: Txn.Sender", f"ApplicationArgs[{ixs[1]}]: \"b\"", "end")
    return out
