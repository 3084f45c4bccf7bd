"""Systematic families of programs."""
import itertools
import re

from behave import router_env
from common import case, teal, tl


def cases(chk, fams, want, **kw):
    """fams: [(name, text, options)]"""
    ans = chk.pool.compile([t for _, t, _ in fams])
    cs, meta = [], {}
    for (n, t, o), a in zip(fams, ans):
        k = "family:" + n
        d = dict(chk=want)
        d.update(kw)
        d.update(o or {})
        cs.append(case(k, tl.flatten(tl.parse_program(t), teal.inline), a, **d))
        meta[k] = {"text": t, "key": k}
    return cs, meta


IVALS = [0, 1, 2, 5, 255, 256, 2 ** 32, 2 ** 63, 2 ** 64 - 1]
V = lambda xs: [tl.iv(x) for x in xs]
B = lambda xs: [tl.bv(x) for x in xs]


def envi(f, values, *words):
    return {"q": "txn", "f": f, "w": [tl.w8(w) for w in words], "v": [[v] for v in values]}


IOPS = ["+", "-", "*", "/", "%", "==", ">=", "<=", ">", "<", "!=", "&&", "||", "|", "&", "^"]
BOPS = ["b+", "b-", "b/", "b*", "b%", "b|", "b&", "b^"]
BCMP = ["b==", "b!=", "b>=", "b<=", "b>", "b<", "==", "!="]


def expressions(chk):
    out = []
    # every operator in every position of every other operator
    for o1 in IOPS:
        lines = ["#pragma version 8", "int x = Txn.Fee", "int y = Txn.Amount"]
        for o2 in IOPS:
            lines += [f"log(itob((x {o1} y) {o2} 3))", f"log(itob(7 {o2} (x {o1} y)))", f"log(itob((x {o1} 2) {o2} (y {o1} 3)))"]
        # operands chosen so that nothing fails early
        good = [9, 4] if o1 in "-/%" else [3, 5, 0]
        lines = [l for l in lines if not any(f" {o} " in l for o in ["/", "%", "-"])] + ["exit(x)"]
        out.append((f"op{o1}", "\n".join(lines) + "\n", dict(nd=2, env=[envi("Fee", V(good)), envi("Amount", V([4, 2, 1]))])))
    for o in ["-", "/", "%", "+", "*"]:
        out.append((f"fail{o}", f"#pragma version 8\nlog(itob(Txn.Fee {o} Txn.Amount))\nlog(itob(Txn.Amount {o} Txn.Fee))\nexit(1)\n",
                    dict(nd=2, env=[envi("Fee", V(IVALS)), envi("Amount", V(IVALS))])))
    bl = ["#pragma version 8", "bytes x = Txn.Note", "bytes y = Txn.ApplicationArgs[0]"]
    bl += [f"log(x {o} y)" for o in BOPS] + [f"log(y {o} x)" for o in BOPS] + ["log(b~x)", "log(b~(x b| y))"]
    bl += [f"log(itob(x {o} y))" for o in BCMP] + [f"log(itob(y {o} x))" for o in BCMP]
    bl += [f"log((x {o} y) {p} x)" for o in ["b+", "b*", "b|", "b&", "b^"] for p in BOPS]
    for i, l in enumerate(bl[3:]):
        pass
    for part in range(0, len(bl) - 3, 12):
        out.append((f"bytes{part}", "\n".join(bl[:3] + bl[3 + part:15 + part] + ["exit(1)"]) + "\n",
                    dict(nd=2, env=[envi("Note", B([b"\x09", b"\x01\x00", b""])), envi("ApplicationArgs", B([b"\x04", b"\x00\x02"]), 0)])))
    un = ["#pragma version 8", "int x = Txn.Fee"] + [f"log(itob({e}))" for e in
          ["!x", "~x", "!(x == 1)", "!!x", "~~x", "!x + ~x", "(!x) && (~x)", "!btoi(Txn.Note)", "(~x) & 255", "!f(x, 2) == 1",
           "f(!x, ~x)", "f(x + 1, f(x, 3))", "f(f(1, x), f(2, 3)) * (x + 1)"] if "(!x)" not in e and "(~x)" not in e] + \
         ["exit(1)", "", "func f(a: int, b: int) int:", "return (a * 10) ^ b", "end"]
    out.append(("unary", "\n".join(un) + "\n", dict(nd=1, env=[envi("Fee", V([0, 1, 7]))])))
    # every field
    ops = tl.OPS
    lines = ["#pragma version 8", "int i = Txn.NumAppArgs"]
    import json, os
    kinds = json.load(open(os.path.join(tl.HERE, "..", "spec", "avm_fields.json")))

    def log(e, f):
        return f"app_global_put(\"{f}\", {e})"
    arr = set(ops["txna"]["f"])
    for f in ops["txn"]["f"]:
        if f in arr:
            lines += [log(f"Txn.{f}[0]", f), log(f"Txn.{f}[3]", f), log(f"Txn.{f}[i]", f), log(f"Gtxn[1].{f}[2]", f),
                      log(f"Gtxn[i].{f}[1]", f), log(f"Gtxn[+1].{f}[0]", f), log(f"Gtxn[-1].{f}[i]", f), log(f"Gtxn[i].{f}[i + 1]", f)]
        else:
            lines += [log(f"Txn.{f}", f), log(f"Gtxn[2].{f}", f), log(f"Gtxn[i].{f}", f), log(f"Gtxn[+1].{f}", f),
                      log(f"Gtxn[-2].{f}", f), log(f"Gtxn[i + 2].{f}", f)]
    for f in ops["itxn"]["f"]:
        lines.append(log(f"Itxn.{f}[1]" if f in arr else f"Itxn.{f}", f))
        if f in arr:
            lines.append(log(f"Itxn.{f}[i]", f))
    for f in ops["global"]["f"]:
        lines.append(log(f"Global.{f}", f))
    for k in range(2, len(lines), 40):
        out.append((f"fields{k}", "\n".join(lines[:2] + lines[k:k + 40] + ["exit(i)"]) + "\n",
                    dict(nd=0, env=[envi("NumAppArgs", V([1])), envi("GroupIndex", V([3]))])))
    for k in list(range(0, 18)) + [31, 63, 127, 128, 254, 255]:
        for o in ("+", "-", "")[:3 if k < 16 else 2]:
            out.append((f"gtxn{o}{k}", f"#pragma version 8\nlog(itob(Gtxn[{o}{k}].Fee))\nlog(Gtxn[{o}{k}].ApplicationArgs[{k}])\nlog(Gtxn[{o}{k}].Accounts[Txn.NumAppArgs])\nexit(1)\n",
                        dict(nd=1, env=[envi("GroupIndex", V([0, 1, 7, 15]))])))
    for k in (0, 1, 7, 15, 16, 17, 127, 128, 200, 255):
        for j, e in enumerate(("Txn.ApplicationArgs[%s]", "itob(Txn.Assets[%s])", "Itxn.Logs[%s]", "Itxn.Accounts[%s]", "Gtxn[0].ApplicationArgs[%s]", "Gtxn[v].ApplicationArgs[%s]",
                               "Gtxn[+1].Accounts[%s]", "Gtxn[-1].Accounts[%s]", "itob(Gtxn[%s].Fee)", "Gtxn[%s].Accounts[v]", "Gtxn[%s].Accounts[KK]")):
            if k > 15 and "Gtxn[%s]" in e:
                continue
            out.append((f"index{k}/{j}", f"#pragma version 8\nconst int KK = {k}\nint v = {k}\n" + "".join(f"log({e % x})\n" for x in (k, "KK", "v", f"({k} + 0)")) + "exit(1)\n",
                        dict(nd=0, env=[envi("GroupIndex", V([3]))])))
    lits = ["0", "1", "10", "007", "1_000", "255", "256", "65535", "65536", "4294967295", "4294967296", "18446744073709551615", "9223372036854775808"]
    strs = ['""', '"a"', "'a b'", '"a//b"', '"a#b"', '"a;b"', '"\\x00\\xff"', '"\\n\\t\\r"', '"\\\\"', '"\\""', '"(x) [y]"', '"a, b"', '" lead"',
            '"end"', '"int 1"', '"a = b"', '"if x:"', '"\\"//\\""', '"é"', '"//"', "'it is'", '"x: y"', '"func f():"']
    lines = ["#pragma version 8"] + [f"log(itob({l}))" for l in lits if not (l.startswith("0") and len(l) > 1)] + \
            [f"log({s})" for s in strs] + [f"bytes v{i} = {s}\nlog(v{i})\nlog(concat({s}, {s}))" for i, s in enumerate(strs)] + \
            [f"log(itob({n}))" for n in tl.BUILTINS] + ["exit(1)"]
    out.append(("literals", "\n".join(lines) + "\n", dict(nd=0)))
    return out


BOUND = [0, 1, 2, 3, 4, 7, 8, 10, 16, 64, 127, 128, 255, 256, 2 ** 16, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1]


def literals(chk):
    """each operator with literals, and with the same operand twice"""
    out = []
    env = [envi("Fee", V(IVALS + [3, 2 ** 63 - 1, 2 ** 64 - 2]))]
    rng = chk.rng("literals")

    def add(n, lines, **o):
        out.append((n, "\n".join(["#pragma version 8"] + lines + ["exit(1)"]) + "\n", dict(dict(nd=1, env=env), **o)))
    for o in IOPS:
        fails = o in "+-*/%"
        for l in BOUND:
            es = [f"Txn.Fee {o} {l}", f"{l} {o} Txn.Fee"]
            if fails:
                for i, e in enumerate(es):
                    add(f"lit{o}{l}/{i}", [f"log(itob({e}))"])
                    if l < 3:
                        add(f"litn{o}{l}/{i}", [f"log(itob(({e}) {o} {rng.choice(BOUND[:8])}))"])
                        add(f"litm{o}{l}/{i}", [f"int x = Txn.Fee", f"log(itob(1 {o} ({e.replace('Txn.Fee', 'x')})))"])
        if not fails:
            ls = [f"log(itob({e}))" for l in BOUND for e in (f"x {o} {l}", f"{l} {o} x", f"x {o} KK", f"(x {o} {l}) {o} {l}")] + [f"log(itob(x {o} x))"]
            for k in range(0, len(ls), 26):
                add(f"lits{o}/{k}", ["const int KK = 2", "int x = Txn.Fee"] + ls[k:k + 26])
        ps = list(itertools.product(BOUND, BOUND))
        if fails:
            for a, b in rng.sample(ps, chk.n(14, 200)) + [(a, a) for a in BOUND[:3]]:
                add(f"fold{o}{a},{b}", [f"log(itob({a} {o} {b}))"], env=[])
            add(f"same{o}", ["int x = Txn.Fee", f"log(itob(x {o} x))"])
        else:
            add(f"folds{o}", [f"log(itob({a} {o} {b}))" for a, b in rng.sample(ps, chk.n(40, 200))], env=[])
    for e in ("(x + 1) - 1", "(x * 2) / 2", "(x - 1) + 1", "(x / 2) * 2", "x - (x - 1)", "(x + x) - x", "x * (1 / x)", "(x % 2) == (x & 1)", "0 * (1 / x)",
              "0 && (1 / x)", "1 || (1 / x)", "(x + 1) > x", "(x * 4) / 2", "(x * x) / x", "1 - (1 - x)", "x + (x * 2)", "!x == 0", "!(x == 0)", "~x + 1",
              "~~x", "!!x", "(x ^ x) + (x | x)", "((x + 1) + 1) + 1", "x - 0", "0 - x", "0 / x", "x / 1", "x % 1", "1 * x"):
        add("law " + e, ["int x = Txn.Fee", f"log(itob({e}))"])
    blits = ['""', '"\\x00"', '"\\x01"', '"\\x00\\x02"', '"\\xff"', '"' + "\\xff" * 8 + '"', '"' + "\\x00" * 9 + '"', '"' + "\\xff" * 64 + '"', '"' + "\\xff" * 65 + '"',
             '"0123456789abcdef"']
    benv = [envi("Note", B([b"", b"\x00", b"\x01", b"\xff" * 8, b"\x00\x05", b"\xff" * 64]))]
    for o in BOPS + BCMP:
        for l in blits:
            for i, e in enumerate((f"Txn.Note {o} {l}", f"{l} {o} Txn.Note")):
                add(f"blit{o}{l}/{i}", [f"log({e})" if o in BOPS else f"log(itob({e}))"], env=benv)
    return out


PARTS = ["//", "// ", " //", ";", "; ", ":", "#", " #", "\\\"", "'", "\\\\", "=", " = ", "  ", ",", ")", "(", "a", "b1", "K1", "0x", "end", "\\n", "\\t", "\\x00", "\\xff", "{", "}", "\u00e9",
         "\\r", "base64", "load 1", "pushint 1", "{0}", "%s", "@", "<", "[", "]", "-", "tl:1:"]


def strings(chk):
    """strings made of parts which mean something elsewhere, in each place where a string can be written"""
    out = []
    rng = chk.rng("strings")
    texts = PARTS + ["a // b", "a  //b", "a// b", "x ; y", "x;y // z", "a \\\" // b", "\\\\ // b", "it's // a", "a # b", "http://x", " ", "   ", "x" * 130, "//" * 40, "\\xff" * 40]
    texts += ["".join(rng.choice(PARTS) for _ in range(rng.randint(2, 5))) for _ in range(chk.n(40, 1500))]
    for i, t in enumerate(texts):
        q = '"%s"' % t
        lines = ["#pragma version 8", "struct Sa:", "    pad: int", "end", f"const bytes KS = {q}", f"log({q})", f"bytes x = {q}", "log(x)", "log(KS)", f"log(concat({q}, {q}))",
                 f"log(f({q}, x))", f"_ = app_global_get({q})", f"app_global_put({q}, 1)", f"if Txn.Note == {q}:", "    log(\"eq\")", "end", f'assert(len({q}), {q})',
                 f"box<Sa> bx = Box({q})", "inner_txn:", f"    TypeEnum: Appl", f"    Note: {q}", f"    ApplicationArgs[0]: {q}", "end", f"x = g()", "log(x)",
                 f"switch Txn.Note:", f"    {q}: hit", f"    KS: miss", "    else: miss", "end"]
        lines += ["block hit:", f"    log({q})", "    exit(1)", "end", "block miss:", f"    log(Concat({q}, KS))", "    exit(2)", "end",
                  "func f(a: bytes, b: bytes) bytes:", f"    return concat(a, {q})", "end", "func g() bytes:", f"    if 1 == 1:", f"        return {q}", "    end", f"    return {q}", "end"]
        out.append((f"string{i}", "\n".join(lines) + "\n", dict(nd=1, fuel=900)))
    return out


def limits(chk):
    """accepted programs at the limits of what TEAL can encode"""
    out = []

    def add(n, lines):
        out.append((n, "\n".join(["#pragma version 8"] + lines + ["exit(1)"]) + "\n"))
    for v in (0, 1, 15, 16, 17, 127, 128, 254, 255, 256, 257, 300, 511, 65536, 2 ** 64 - 1, 2 ** 64):
        c = [f"const int KK = {v}", f"int v = {v}"]
        for k in (str(v), "KK", "v", f"({v} + 0)"):
            for j, e in enumerate(("log(Txn.ApplicationArgs[%s])", "log(itob(Txn.Assets[%s]))", "log(Itxn.Logs[%s])", "log(itob(Gtxn[%s].Fee))", "log(Gtxn[%s].ApplicationArgs[0])",
                                   "log(Gtxn[0].ApplicationArgs[%s])", "log(Gtxn[v].ApplicationArgs[%s])", "log(Gtxn[+1].Accounts[%s])", "log(Gtxn[-1].Accounts[%s])",
                                   "log(Gtxn[%s].Accounts[v])", "log(itob(%s))", "log(bzero(%s))")):
                add(f"index{v}/{k}/{j}", c + [e % k])
        for k in (str(v), "KK"):
            for j, e in enumerate(("log(extract(%s, 1, Txn.Note))", "log(extract(1, %s, Txn.Note))", "log(substring(%s, 255, Txn.Note))", "log(substring(0, %s, Txn.Note))", 
                                   "log(arg(%s))", "log(itob(load(%s)))", "store(%s, 1)", "log(replace2(%s, Txn.Note, Txn.Lease))", "log(itob(gload(%s, 1)))", "log(itob(gload(1, %s)))",
                                   "log(itob(gaid(%s)))", "log(itob(gloads(%s, 0)))", "log(gitxn(%s, Sender))", "log(gitxna(1, Logs, %s))", "log(gitxna(%s, Logs, 1))", "log(gtxna(%s, Accounts, 1))",
                                   "log(itob(Gtxn[+%s].Fee))", "log(itob(Gtxn[-%s].Fee))", "log(gtxnsa(Accounts, %s, 0))", "push(1, 2)\npopn(%s)")):
                add(f"imm{v}/{k}/{j}", c + (e % k).split("\n"))
    return out


WEIRD = ["main", "err", "b", "int", "l0_end", "l0_else", "l0_elif_0", "l0_while", "l1_for", "l1_end", "route_aa", "aa", "__func__aa", "func__aa", "aa__2", "_itxn_begin", "_itxn_begin__0", "_itxn_begin__1",
         "_itxn_begin__2", "_itxn_submit", "_itxn_submit__0", "_itxn_group_begin", "_itxn_group_submit", "Fee", "Sender", "NoOp", "K1", "_", "__", "0", "1", "10", "pop", "end", "txn", "ApplicationArgs"]


def labels(chk):
    """blocks, functions and constants whose names look like other words of the output"""
    out = []
    rng = chk.rng("labels")
    fn = [w for w in WEIRD if re.fullmatch("[a-z][A-Za-z_0-9]*", w) and w not in ("int", "err", "b", "pop", "txn", "end", "aa")] + ["f1", "l0", "aa__func__aa"]

    def ind(ls):
        return ["    " + l for l in ls]
    for i in range(chk.n(60, 1500)):
        b = rng.sample(WEIRD + ["bb", "bb__aa", "aa__bb"], 4)
        f = rng.sample(fn, 2)
        body = lambda w: ["if Txn.Fee:", f"    log({f[0]}(\"x\"))", "elif Txn.Amount:", "    log(\"e\")", "else:", "    for i in 0:2:", "        log(itob(i))", "    end", "end", f"int {w} = 0", f"while {w} < 2:", f"    {w} = {w} + 1",
                f"    if {w} == 1:", "        break", "    end", "end"]
        grp = ["inner_group:", "    inner_txn:", "        TypeEnum: Pay", "        Fee: K1", "    end", "end"] if i % 2 else ["inner_txn:", "    TypeEnum: Pay", "    Fee: K1", "end"]
        func = lambda n, m: ["func %s(a: bytes) bytes:" % n] + ind(["if len(a) > 3:", "    return a", "end", f"log(\"{n}\")"] + grp) + ["    return concat(a, \"1\")", "end"]
        inner = ["const int K1 = 7", f"log({f[0]}(\"in\"))", "log(itob(K1))", f"jump {b[1]}", f"block {b[1]}:"] + ind(["const int K1 = 9", "log(itob(K1))"] + body("w1") + ["exit(K1)"]) + ["end"]
        if rng.random() < .6:
            inner += func(f[0], 1)
        lines = ["#pragma version 8", "const int K1 = 3"] + grp + body("w") + ["switch Txn.Fee:", f"    0: {b[0]}", f"    1: {b[2]}", f"    else: {b[3]}", "end"]
        lines += [f"block {b[0]}:"] + ind(inner) + ["end"] + [f"block {b[2]}:"] + ind(body("w2") + [f"jump {b[3]}"]) + ["end"]
        if rng.random() < .5:
            lines += [f"block {b[3]}:"] + ind(["log(itob(K1))", "exit(3)"]) + ["end"]
        else:
            lines += [f"block {b[3]}:"] + ind(["router:", "    aa", f"    {f[1]}", "end"]) + ["end", "@public()", "func aa():", "    log(itob(K1))", "    return", "end"]
            lines += ["@public(OnCompletion=OptIn)"]
        lines += func(f[1], 2) + func(f[0], 3)
        out.append((f"labels{i}", "\n".join(lines) + "\n", dict(nd=2, fuel=900)))
    return out


def slots(chk):
    """programs with many variables in several arrangements; all values are used again after all are assigned"""
    out = []
    rng = chk.rng("slots")

    def decl(p, n, ind=""):
        k = rng.randrange(4)
        return [f"{ind}int {p}{i} = {i * 3 + k}" if i % 5 else f"{ind}bytes {p}{i} = \"{p}{i}\"" for i in range(n)]

    def use(p, n, ind=""):
        ls = []
        for i in sorted(rng.sample(range(n), min(n, 12)) + [0, n - 1]):
            ls.append(f"{ind}log(itob({p}{i}))" if i % 5 else f"{ind}log({p}{i})")
        return ls

    def add(n, lines):
        out.append((n, "\n".join(["#pragma version 8"] + lines) + "\n", dict(nd=0, fuel=6000)))
    group = ["inner_group:", "    inner_txn:", "        TypeEnum: Pay", "        Fee: 1", "    end", "    inner_txn:", "        TypeEnum: Pay", "        Fee: 2", "    end", "end"]
    for n in (197, 198, 199, 200, 201, 251, 252, 253, 254, 255, 256):
        add(f"groupfunc{n}", group + ["log(itob(f(7)))"] + group + ["exit(1)", "func f(p: int) int:"] + decl("a", n, "    ") + use("a", n, "    ") + ["    return p", "end"])
        add(f"groupmain{n}", decl("a", n) + group + use("a", n) + ["log(itob(f(7)))"] + group + ["exit(1)", "func f(p: int) int:", "    return p", "end"])
    for n in (8, 20, 100, 150, 198, 199, 200, 201, 202, 203, 230, 254, 255, 256, 257, 258, 300, 600):
        add(f"flat{n}", decl("a", n) + use("a", n) + ["exit(1)"])
        add(f"func{n}", ["log(itob(f(7)))", "exit(1)", "func f(p: int) int:"] + decl("a", n, "    ") + use("a", n, "    ") + ["    return p", "end"])
        add(f"block{n}", decl("m", 10) + ["jump b", "block b:"] + decl("a", n, "    ") + use("a", n, "    ") + use("m", 10, "    ") + ["    exit(1)", "end"])
        m = n // 2
        add(f"mainfunc{n}", decl("a", m) + ["log(itob(f(7)))"] + use("a", m) + ["exit(1)", "func f(p: int) int:"] + decl("c", n - m, "    ") +
            use("c", n - m, "    ") + ["    return p", "end"])
        k = n // 4
        add(f"chain{n}", decl("a", k) + ["log(itob(f(7)))"] + use("a", k) + ["exit(1)", "func f(p: int) int:"] + decl("c", k, "    ") + ["    int z = g(p)"] + use("c", k, "    ") +
            ["    return z", "end", "func g(p: int) int:"] + decl("d", k, "    ") + ["    for i in 0:2:", "        log(itob(h(i)))", "    end"] + use("d", k, "    ") +
            ["    return p", "end", "func h(p: int) int:"] + decl("e", k, "    ") + use("e", k, "    ") + ["    return p", "end"])
        add(f"loop{n}", decl("a", m) + ["for i in 0:2:"] + decl("c", n - m, "    ") + use("c", n - m, "    ") + ["end"] + use("a", m) + ["exit(1)"])
        add(f"nested{n}", decl("a", m) + ["jump b", "block b:"] + decl("c", n - m, "    ") + use("a", m, "    ") + ["    jump d", "    block d:"] + decl("e", 5, "        ") +
            use("c", n - m, "        ") + use("e", 5, "        ") + use("a", m, "        ") + ["        exit(1)", "    end", "end"])
        add(f"group{n}", decl("a", n) + ["inner_group:", "    inner_txn:", "        TypeEnum: Pay", "        Fee: 0", "    end", "end"] + use("a", n) + ["exit(1)"])
        add(f"box{n}", ["struct It:", "    p: int", "end"] + decl("a", n) + ["box<It> q = CreateBox(\"k\")", "q.p = 5", "log(itob(q.p))"] + use("a", n) + ["exit(1)"])
    return out


def flow(chk):
    out = []
    # every combination of the conditions of if / elif / else, with and without not
    for negs in itertools.product(["", "not "], repeat=3):
        t = f"""#pragma version 8
int a = Txn.Fee
int b = Txn.Amount
int c = Txn.NumAppArgs
if {negs[0]}a:
    log("1")
elif {negs[1]}b:
    log("2")
elif {negs[2]}c:
    log("3")
else:
    log("4")
end
if {negs[0]}a:
    log("5")
    if {negs[1]}b:
        log("6")
    elif {negs[2]}c:
        log("7")
    end
end
if {negs[2]}a && b:
    log("8")
else:
    log("9")
end
assert(a || (b || c), "none")
log("10")
exit(a + b)
"""
        out.append((f"if{'/'.join(negs)}", t, dict(nd=3, env=[envi(f, V([0, 1, 7])) for f in ("Fee", "Amount", "NumAppArgs")])))
    # loops
    for neg in ("", "not "):
        cond = "i < n" if not neg else "i >= n"
        t = f"""#pragma version 8
int n = Txn.Fee
int m = Txn.Amount
int i = 0
while {neg}{cond}:
    int j = 0
    while 1:
        if j == m:
            break
        end
        log(concat(itob(i), itob(j)))
        j = j + 1
    end
    if i == 2:
        log("two")
        break
    else:
        log("not two")
    end
    i = i + 1
end
for k in 0:n:
    for l in m:n:
        log(concat(itob(k), itob(l)))
        m = n
    end
    log("inner")
end
for k in 1:3:
    while k:
        log("once")
        break
    end
end
exit(i)
"""
        out.append((f"loops{neg}", t, dict(nd=2, fuel=4000, env=[envi("Fee", V([0, 1, 2, 4])), envi("Amount", V([0, 1, 2]))])))
    # switch with and without else; nested blocks, functions between blocks
    six = ["    NoOp: first", "    OptIn: second", "    7: third", "    NoOp: second"]
    for opts in (six + ["    else: other"], six, ["    else: other"] + six, six[:2] + ["    else: other"] + six[2:], ["    else: other"], ["    else: first"], ["    7: third", "    else: third"],
                 ["    else: second", "    7: third"], six[:1], six[1:2]):
        opts = "\n".join(opts)
        t = f"""#pragma version 8
switch Txn.OnCompletion:
{opts}
end

func f(a: int) int:
    if a == 0:
        return 1
    end
    return a * 2
end

block first:
    switch Txn.ApplicationArgs[0]:
        "a": inner
        "b": second
        "third": third
    end

    block inner:
        log("inner")
        exit(f(Txn.Fee))
    end

    block other:
        log("shadow")
        exit(3)
    end
end

block second:
    log("second")
    jump third
end

block other:
    log("other")
    if Txn.Fee:
        jump second
    end
    exit(5)
end

block third:
    log("third")
    exit(6)
end
"""
        out.append((f"switch{len(out)}", t, dict(nd=3, env=[
            envi("OnCompletion", V([0, 1, 7, 5])), envi("Fee", V([0, 3])),
            envi("ApplicationArgs", B([b"a", b"b", b"third", b"c", b""]), 0)])))
    return out


def structs(chk):
    out = []
    for big in (1, 8, 200, 255, 256, 300):
        t = f"""#pragma version 8
struct In:
    p: int
    q: uint8
    r: bytes[3]
end
struct Out:
    a: uint8
    b: bytes[{big}]
    c: int
    d: In
    e: uint8[4]
    f: int
end
Out s = bzero({1 + big + 8 + 12 + 4 + 8})
s.a = 255
s.b = bzero({big})
s.c = 72623859790382856
s.e = "wxyz"
s.f = Txn.Fee
In t = bzero(12)
t.p = Txn.Amount
t.q = 7
t.r = "xyz"
s.d = t
log(s)
log(t)
log(itob(s.a))
log(itob(s.c))
log(itob(s.f))
log(s.d)
log(s.e)
log(s.b)
In u = s.d
log(itob(u.p + u.q))
log(u.r)
u.p = u.p + 1
u.q = 0
log(s)
s.d = u
s.a = 0
log(s)
log(t)
log(itob(SizeOf(Out)))
log(itob(f(t)))
exit(s.a)

func f(x: In) int:
    x.q = 9
    x.r = "end"
    log(x)
    return x.p + x.q
end
"""
        out.append((f"struct{big}", t, dict(nd=2, env=[envi("Fee", V([0, 1, 2 ** 64 - 1])), envi("Amount", V([5, 2 ** 32]))])))
    return out


def boxes(chk):
    out = []
    for big in (1, 200, 256):
        for meth in ("Open", "Create", ""):
            t = f"""#pragma version 8
struct In:
    p: int
    q: uint8
end
struct Rec:
    a: uint8
    b: bytes[{big}]
    c: int
    d: In
    e: uint8[4]
end
bytes k = Txn.Note
box<Rec> x = {meth}Box(k)
box<Rec> y = Box(concat(k, "2"))
k = "changed"
x.c = 258
x.a = 255
x.b = bzero({big})
x.e = "wxyz"
In t = bzero(9)
t.p = x.c
x.d = t
y.d = x.d
y.a = x.a
log(itob(x.c))
log(itob(y.a))
log(y.e)
log(x.b)
if Txn.Fee:
    box<Rec> z = {meth}Box("zz")
    z.c = y.c + 1
end
exit(x.a)
"""
            out.append((f"box{meth}{big}", t, dict(nd=3, env=[envi("Note", B([b"", b"key"]))])))
    # every size of a struct, and boxes of nearly that size
    rng = chk.rng("boxes")
    sizes = list(range(1, 131)) + [255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 32768]
    for n in sizes:
        left, fs = n, []
        while left:
            c = rng.choice([f for f in (("int", 8), ("uint8", 1), (f"bytes[{rng.randint(1, left)}]", 0), (f"uint8[{rng.randint(1, left)}]", 0), (f"bytes[{left}]", 0)) if f[1] <= left])
            size = c[1] or int(re.search(r"\d+(?=\])", c[0])[0])
            fs.append((c[0], size))
            left -= size
            if len(fs) > 5 and left:
                fs.append((f"bytes[{left}]", left))
                left = 0
        ls = ["#pragma version 8", "struct Rr:"] + [f"    f{i}: {t}" for i, (t, _) in enumerate(fs)] + ["end", 'box<Rr> x = OpenBox("k")' if n % 3 else 'box<Rr> x = CreateBox("k")']
        if n % 5 == 0:
            ls += ["if 1:", '    box<Rr> y = OpenBox("l")', "end"]
        for i, (t, size) in enumerate(fs):
            ls.append(f"log(itob(x.f{i}))" if not t.endswith("]") else f"log(x.f{i})" if size < 1000 else f"log(itob(len(x.f{i})))")
            if t.endswith("]") and size <= 4096:
                ls.append(f"x.f{i} = bzero({size})")
            elif t == "int":
                ls.append(f"x.f{i} = {i + 258}")
        env = [{"q": "box_len", "f": "", "w": [], "v": [[tl.iv(v), tl.iv(1)] for v in sorted({0, n - 1, n, n + 1, n + 8})] + [[tl.iv(n), tl.iv(0)]]}]
        out.append((f"boxsize{n}", "\n".join(ls + ["exit(1)"]) + "\n", dict(nd=1, env=env)))
    return out


def stdlib(chk):
    out = []
    ints = V(IVALS)
    byts = B([b"", b"\x00", b"\x01", b"\xff", b"\x01\x00", b"\x00\xff", b"abcdefgh", b"\x00" * 8, b"\xff" * 8, b"\x00" * 9, b"\x00" * 8 + b"\x05",
              b"\x01" + b"\x00" * 8, b"x" * 32, b"x" * 33])
    IT = ["int", "uint8"]
    BT = ["bytes", "bytes[1]", "bytes[8]", "bytes[9]", "bytes[32]", "bigint", "uint8[2]", "In"]
    pre = "#pragma version 8\nstruct In:\n    p: int\n    q: uint8\nend\n"
    for t in IT:
        out.append((f"casti {t}", pre + f"int x = Txn.Fee\nlog(itob(Cast(x, {t})))\n{t} v = Cast(x, {t})\nlog(itob(v))\nexit(1)\n",
                    dict(nd=1, env=[envi("Fee", ints)])))
        for m in ("Convert", "FromBytes"):
            out.append((f"{m} {t}", pre + f"bytes x = Txn.Note\nlog(itob({m}(x, {t})))\nexit(1)\n", dict(nd=1, env=[envi("Note", byts)])))
        out.append((f"ensure {t}", pre + f"log(itob(EnsureType(app_global_get(\"k\"), {t})))\nexit(1)\n", dict(nd=1, ci=ints, cb=byts)))
    for t in BT:
        for m in ("Cast", "FromBytes"):
            out.append((f"{m} {t}", pre + f"bytes x = Txn.Note\nlog({m}(x, {t}))\n{t} v = {m}(x, {t})\nlog(v)\nexit(1)\n",
                        dict(nd=1, env=[envi("Note", byts)])))
        out.append((f"Convert {t}", pre + f"int x = Txn.Fee\nlog(Convert(x, {t}))\n{t} v = Convert(x, {t})\nlog(v)\nexit(1)\n",
                    dict(nd=1, env=[envi("Fee", ints)])))
        out.append((f"ensure {t}", pre + f"log(EnsureType(app_global_get(\"k\"), {t}))\nexit(1)\n", dict(nd=1, ci=ints[:2], cb=byts)))
        out.append((f"unchecked {t}", pre + f"log(UncheckedCast(Txn.Note, {t}))\nlog(itob(SizeOf({t})))\nexit(1)\n", dict(nd=1, env=[envi("Note", byts)])))
        out.append((f"ensure2 {t}", pre + f"int e = 0\n{t} v = bzero(SizeOf({t}))\ne, v = EnsureType(app_global_get_ex(0, \"k\"), int, {t})\n"
                    f"log(v)\nexit(e)\n", dict(nd=1, ci=ints[:3], cb=byts)))
        out.append((f"unchecked2 {t}", pre + f"int e = 0\n{t} v = bzero(SizeOf({t}))\ne, v = UncheckedCast(app_global_get_ex(0, \"k\"), int, {t})\n"
                    f"log(v)\nlog(itob(len(v)))\nexit(e)\n", dict(nd=1, ci=ints[:3], cb=byts)))
    for t, u in (("uint8", "uint64"), ("In", "bytes"), ("bigint", "int"), ("uint64", "bytes[8]"), ("int", "uint8")):
        bz = {"In": "bzero(9)", "bigint": "bzero(3)", "bytes": '""', "bytes[8]": "bzero(8)"}
        for m in ("UncheckedCast", "EnsureType"):
            if t in bz or u in bz:
                src = f"two(Txn.Fee, Txn.Note)"
                fd = f"func two(a: int, b: bytes) {'bytes, int' if t in bz and u not in bz else 'bytes, bytes' if t in bz else 'int, bytes'}:\n" \
                     f"    return {'b, a' if t in bz and u not in bz else 'b, b' if t in bz else 'a, b'}\nend\n"
            else:
                src, fd = "mulw(Txn.Fee, 255)", ""
            lg = lambda v, ty: f"log({v})\n" if ty in bz else f"log(itob({v}))\n"
            out.append((f"{m}2 {t} {u}", pre + f"{t} p = {bz.get(t, 0)}\n{u} q = {bz.get(u, 0)}\np, q = {m}({src}, {t}, {u})\n"
                        + lg("p", t) + lg("q", u) + "exit(1)\n" + fd, dict(nd=1, env=[envi("Fee", ints[:4]) , envi("Note", byts)])))
    for n in (0, 1, 2, 8, 9, 32):
        out.append((f"tobytes{n}", pre + f"int x = Txn.Fee\nlog(ToBytes(x, {n}))\nlog(ToBytes(x + 0, {n}))\nexit(1)\n", dict(nd=1, env=[envi("Fee", ints[:-1])])))
        out.append((f"tobytesb{n}", pre + f"bigint x = Txn.Note\nlog(ToBytes(x, {n}))\nexit(1)\n", dict(nd=1, env=[envi("Note", byts)])))
        for m in ("Lpad", "Rpad"):
            out.append((f"{m}{n}", pre + f"const int N = {n}\nbytes x = Txn.Note\nlog({m}(x, {n}))\nlog({m}(x, SizeOf(In)))\nexit(1)\n".replace("const int N", "const int NN"),
                        dict(nd=1, env=[envi("Note", byts)])))
    rng = chk.rng("sizes")
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 4095, 4096, 4097):
        vals = [bytes((i * 37 + 1) % 256 for i in range(k)) for k in sorted({0, 1, n - 1, n, n + 1}) if k <= 4096]
        note, fee = [envi("Note", B(vals))], [envi("Fee", V([0, 1, 255, 256, 2 ** 63 + 7, 2 ** 64 - 1]))]
        ts = [f"bytes[{n}]", f"uint8[{n}]", "Big"]
        dec = "#pragma version 8\nstruct Big:\n" + (f"    p: bytes[{n - 1}]\n    q: uint8\nend\n" if n > 1 else "    q: uint8\nend\n")
        for t in ts if not chk.quick else [ts[0], rng.choice(ts[1:])]:
            out.append((f"size Convert {t} {n}", dec + f"{t} v = Convert(Txn.Fee, {t})\nlog(itob(len(v)))\nlog(sha256(v))\nlog(substring3(v, len(v) - 1, len(v)))\nexit(len(v))\n", dict(nd=1, env=fee)))
            for m in ("Cast", "FromBytes"):
                out.append((f"size {m} {t} {n}", dec + f"bytes x = Txn.Note\n{t} v = {m}(x, {t})\nlog(itob(len(v)))\nlog(sha256(v))\nexit(len(v))\n", dict(nd=1, env=note)))
            out.append((f"size Ensure {t} {n}", dec + f"{t} v = EnsureType(app_global_get(\"k\"), {t})\nlog(itob(len(v)))\nexit(SizeOf({t}))\n", dict(nd=1, ci=[tl.iv(1)], cb=B(vals))))
        for m in ("Lpad", "Rpad"):
            out.append((f"size {m} {n}", dec + f"const int NN = {n}\nbytes[{n}] v = {m}(Txn.Note, {rng.choice([str(n), 'NN', 'SizeOf(Big)'])})\nlog(itob(len(v)))\nlog(sha256(v))\nexit(SizeOf(Big))\n", dict(nd=1, env=note)))
        out.append((f"size ToBytes {n}", f"#pragma version 8\nbytes[{n}] v = ToBytes(Txn.Fee, {n})\nlog(itob(len(v)))\nlog(sha256(v))\nexit(1)\n", dict(nd=1, env=fee)))
        out.append((f"size ToBytesb {n}", f"#pragma version 8\nbigint x = Txn.Note\nbytes[{n}] v = ToBytes(x, {n})\nlog(itob(len(v)))\nlog(sha256(v))\nexit(1)\n", dict(nd=1, env=note)))
        out.append((f"size bzero {n}", f"#pragma version 8\nbytes[{n}] v = bzero({n})\nlog(itob(len(v)))\nexit(1)\n", dict(nd=0)))
    # several values at once: one of them at the edges of its type
    rng = chk.rng("several")
    IF, BF = ["Fee", "FirstValid", "LastValid", "Amount", "AssetAmount", "ConfigAssetTotal"], ["Note", "Lease", "AssetSender", "ConfigAssetName", "ApprovalProgram", "VotePK"]
    size = {"bytes[1]": 1, "bytes[8]": 8, "bytes[32]": 32, "uint8[3]": 3, "In": 9, "addr": 32}
    for i in range(chk.n(60, 600)):
        n = rng.choice([2, 2, 3, 3, 4, 5, 6])
        ts = [rng.choice(["int", "uint8", "uint8", "uint64", "bytes", "bytes[1]", "bytes[8]", "bytes[32]", "uint8[3]", "In", "bigint", "addr"]) for _ in range(n)]
        m = "EnsureType" if i % 4 else "UncheckedCast"
        odd = rng.randrange(n)
        env, srcs = [], []
        for j, t in enumerate(ts):
            isint = t in ("int", "uint8", "uint64")
            f = (IF if isint else BF)[j]
            # (bytes where an integer is needed, and the reverse, from the state)
            if isint:
                vs = V([0, 1, 2, 7, 8, 127, 128, 255, 256, 257, 511, 512, 1023, 65535, 65536, 2 ** 32, 2 ** 63, 2 ** 64 - 1] if j == odd else [200 if t == "uint8" else 7 + j])
            else:
                k = size.get(t, 5)
                vs = B([bytes((x + j) % 256 for x in range(l)) for l in (sorted({0, 1, k - 1, k, k + 1, 64, 65}) if j == odd else [k])])
            env.append(envi(f, vs))
            srcs.append((f"Txn.{f}", isint))
        fd = [f"func src() {', '.join('int' if b else 'bytes' for _, b in srcs)}:", "    return " + ", ".join(f"Cast({e}, bytes)" if e in ("Txn.AssetSender",) else e for e, _ in srcs), "end"]
        ls = [f"{t} w{j} = " + ("0" if srcs[j][1] else "Global.ZeroAddress" if t == "addr" else f"bzero({size.get(t, 1)})" if t != "bigint" else 'Cast("", bigint)') for j, t in enumerate(ts)]
        ts2 = ["_" if rng.random() < .15 else f"w{j}" for j in range(n)]
        ls += [f"{', '.join(ts2)} = {m}(src(), {', '.join(ts)})"] + [f"log(itob({w}))" if srcs[j][1] else f"log({w})" for j, w in enumerate(ts2) if w != "_"]
        out.append((f"several{i}", pre + "\n".join(ls + ["exit(1)"] + fd) + "\n", dict(nd=n, env=env)))
    for i in range(chk.n(60, 600)):
        def arg(d=2):
            r = rng.random()
            if r < .4:
                return '"%s"' % rng.choice(["", "a", "bc", "", "\\x00", "d//e", "longer text"])
            if r < .55 and d:
                return f"{rng.choice(['Concat', 'Concat', 'concat'])}({arg(0)}, {arg(0)})"
            return rng.choice(["x", "y", "itob(n)", "Txn.Note", f"bzero({rng.randrange(4)})", "KB", f"Lpad(x, {rng.choice([0, 2, 5])})", f"Rpad(\"a\", {rng.randint(1, 5)})", "show(x)", "sha256(y)", f"substring(0, 1, \"qr\")"])
        ls = ['const bytes KB = "kb"', "bytes x = Txn.Note", 'bytes y = ""', "int n = Txn.Fee"]
        for k in range(3):
            args = [arg() for _ in range(rng.randint(1, 9))]
            ls.append(f"log(Concat({', '.join(args)}))")
            ls.append(f"log(ARC28Event(\"{rng.choice(['E()', 'Swap(uint64,byte[])', 'x', 'Ev((uint64,address)[])'])}\"{''.join(', ' + arg() for _ in range(rng.randrange(9)))}))")
        out.append((f"join{i}", "#pragma version 8\n" + "\n".join(ls + ["exit(1)", "func show(b: bytes) bytes:", "    log(b)", "    return b", "end"]) + "\n",
                    dict(nd=2, env=[envi("Note", B([b"", b"nt"])), envi("Fee", V([258]))])))
    # many values, and event signatures of every form
    for n in (8, 9, 10, 15, 16, 17, 18, 20, 31, 32, 33, 40, 64, 100):
        for m in ("Concat(", 'ARC28Event("E(%d)", ' % n):
            args = [rng.choice(['"%s"' % chr(97 + i % 26), "x", f"itob({i})", "Txn.Note", '""']) for i in range(n)]
            out.append((f"wide {m[0]}{n}", f"#pragma version 8\nbytes x = \"xx\"\nlog({m}{', '.join(args)}))\nlog({m}x, {', '.join(args[1:])}))\nexit(1)\n",
                        dict(nd=1, env=[envi("Note", B([b"", b"nt"]))])))
    sigs = ["Ev (uint64, bytes)", "Ev(uint64, bytes)", " Ev()", "Ev() ", "EV(UINT64)", "ev(uint64)", "Ev(uint64[])", "Ev((uint64,(address,bool))[3],byte[])", "Ev", "", "Ev(uint)", "Ev(int)", "Ev(bytes)",
            "Ev(byte[])", "Ev_1(string)", "Ev\\x41()", "Ev\\t()", "Ev//()", "Ev;()", "\u00c9v(uint64)", "Ev(uint64)void", "Ev(uint64)(uint64)", "a" * 120 + "()"]
    out += [(f"sig {x}", f'#pragma version 8\nlog(ARC28Event("{x}"))\nlog(ARC28Event("{x}", "a", Txn.Note))\nexit(1)\n', dict(nd=1, env=[envi("Note", B([b"nt"]))])) for x in sigs]
    out.append(("concat", pre + """bytes a = Txn.Note
bytes b = Txn.ApplicationArgs[0]
log(Concat(a))
log(Concat(a, b))
log(Concat(b, a, "x", a))
log(Concat(itob(1), Concat(a, b), bzero(2)))
log(ARC28Event("Swap(uint64,uint64)", itob(7), a))
log(ARC28Event("E()"))
log(ARC28Event("A(byte[],byte[],byte[])", b, a, "zz"))
log(Address("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ"))
log(bzero(0))
log(bzero(3))
log(bzero(Txn.NumAppArgs))
if Txn.Fee:
    log("before")
    Error()
end
exit(1)
""", dict(nd=4, env=[envi("Note", B([b"", b"ab"])), envi("ApplicationArgs", B([b"x", b""]), 0), envi("NumAppArgs", V([0, 2])), envi("Fee", V([0, 1]))])))
    return out


def declarations(rng, valid=True):
    """a program of struct declarations"""
    lines = ["#pragma version 8"] if rng.random() < .8 else []
    names = []
    pool = ["Item", "Aa", "BB", "Point2", "S_t", "Long_Name_Of_A_Struct", "Zed", "Config", "Xy9", "Data"]
    rng.shuffle(pool)
    fpool = ["a", "b", "id", "x1", "size", "type", "fields", "offset", "name", "value_2", "len", "int", "bytes", "zZ", "camelCase", "struct_", "q" * 40]
    for nm in pool[:rng.choice([0, 1, 1, 2, 3, 5])]:
        ws = rng.choice(["", "", "  ", "\t"])
        lines.append(f"{ws}struct {nm}:" + rng.choice(["", "", "  # a comment: int"]))
        for f in rng.sample(fpool, rng.choice([1, 1, 2, 3, 4, 6, 9])):
            t = rng.choice(["int", "uint8", "uint64", f"bytes[{rng.choice([1, 2, 3, 8, 31, 32, 64, 255, 256, 1000, 4096])}]", "bytes[8]",
                            f"uint8[{rng.choice([1, 2, 7, 8, 32, 100])}]"] + (2 * [rng.choice(names)] if names else []))
            if rng.random() < .1:
                lines.append(rng.choice(["", "# int: x", "  # end"]))
            lines.append(f"{ws}    {f}: {t}" + rng.choice(["", "", "", "  # x: bytes[3]"]))
        lines.append(ws + "end")
        names.append(nm)
        if rng.random() < .2:
            lines.append("")
    lines += rng.choice([[], [f"{names[-1]} v = bzero(SizeOf({names[-1]}))"] if names else [], ["int x = 1", "log(itob(x))"]])
    lines.append("exit(1)")
    return "\n".join(lines) + "\n"


def nests(chk):
    """small nestings of control statements, every shape"""
    out = []
    rng = chk.rng("nests")
    n = [0]

    def tag():
        n[0] += 1
        return f'log("{n[0]}")'

    def ind(ls):
        return ["    " + l for l in ls]
    CONDS = ["Txn.Fee", "not Txn.Fee", "x == 1", "not x == 1", "Txn.Amount > x"]

    def body(d, loop):
        """the body of a construct: its shape is chosen by the caller"""
        return [tag()]

    def shapes(d, loop):
        """functions making the lines of a statement of depth d"""
        out = [lambda: [tag()], lambda: ["x = x + 1"], lambda: [], lambda: ["# nothing"]]
        if loop:
            out += [lambda: ["break"]]
        if d == 0:
            return out
        subs = shapes(d - 1, loop)
        insub = shapes(d - 1, True)
        pick = lambda s: rng.choice(s)()
        cond = lambda: rng.choice(CONDS)

        def iff(k, els):
            def f():
                ls = [f"if {cond()}:"] + ind(pick(subs))
                for _ in range(k):
                    ls += [f"elif {cond()}:"] + ind(pick(subs))
                if els:
                    ls += ["else:"] + ind(pick(subs))
                return ls + ["end"]
            return f
        out += [iff(k, e) for k in (0, 1, 2) for e in (False, True)]

        def wh(neg):
            def f():
                n[0] += 1
                w = f"w{n[0]}"
                c = f"not {w} == 2" if neg else f"{w} < 2"
                return [f"int {w} = 0", f"while {c}:", f"    {w} = {w} + 1"] + ind(pick(insub)) + ind(pick(insub)) + ["end"]
            return f
        out += [wh(False), wh(True)]

        def fr():
            n[0] += 1
            return [f"for k{n[0]} in {rng.choice(['0:2', '1:3', '0:0', '0:x', 'x:x', '2:m'])}:"] + ind(pick(subs)) + ind(pick(subs)) + ["end"]
        out += [fr, fr]

        def calls():
            return ["log(itob(g(x)))"]
        out.append(calls)

        def ex():
            return [f"if {cond()}:", "    exit(x)", "end"]
        out.append(ex)
        return out
    for d in (1, 2, 3):
        ss = shapes(d, False)
        for i, s in enumerate(ss[4:] if d < 3 else ss[4:] * 2):
            for rep in range(chk.n(6, 40) if d > 1 else chk.n(3, 10)):
                n[0] = 0
                ls = ["#pragma version 8", "int x = 1", "int m = 2"] + s() + [tag()] + rng.choice(ss)() + ['log("last")', "exit(x)", ""]
                ls += ["func g(a: int) int:", "    while a < 3:", "        if a == Txn.Fee:", "            return a * 10", "        end", "        a = a + 1",
                       "        for q in 0:a:", "            if q == 2:", "                return 77", "            end", "        end", "    end", "    return a", "end"]
                t = "\n".join(ls) + "\n"
                out.append((f"nest{d}/{i}/{rep}", t, dict(nd=1, fuel=700, env=[envi("Fee", V([0, 1, 2])), envi("Amount", V([0, 5]))])))
    return out


def groups(chk):
    """small arrangements of inner transactions and groups, loops and functions containing them"""
    out = []
    rng = chk.rng("groups")
    n = [0]

    def txn():
        n[0] += 1
        more = rng.choice([[], [], [f'    Note: "n{n[0]}"'], ['    ApplicationArgs[0]: "a"', f'    ApplicationArgs[1]: "b{n[0]}"', "    Accounts[0]: Txn.Sender"],
                           ["    Receiver: Txn.Sender", "    Amount: x"], ['    Note: "// no"', "    # nothing"], ["    Fee: 0", "    Fee: x"]])
        t = [f"    TypeEnum: {rng.choice(['Pay', 'Appl', 'Axfer'])}"] + more + [f"    Sender: Global.CurrentApplicationAddress" if rng.random() < .3 else f"    ConfigAssetTotal: {n[0]}"]
        return ["inner_txn:"] + t + ["end"]

    def ind(ls):
        return ["    " + l for l in ls]
    T = lambda: txn()
    F = lambda: ["f()"]
    H = lambda: ["h(2)"]
    G = lambda s: lambda: ["inner_group:"] + ind(s()) + ["end"]
    IF = lambda s: lambda: [f"if {rng.choice(['Txn.Fee', 'not Txn.Fee'])}:"] + ind(s()) + ["end"]

    def FOR(s):
        def f():
            n[0] += 1
            return [f"for k{n[0]} in 0:2:"] + ind(s()) + ["end"]
        return f
    WH = lambda s: lambda: ["x = 0", "while x < 2:", "    x = x + 1"] + ind(s()) + ["end"]
    SEQ = lambda *ss: lambda: [l for s in ss for l in s()]
    LOG = lambda: [f'log("{n[0]}")']
    atoms = [T, F, H, LOG]
    level1 = atoms + [IF(T), FOR(T), WH(T), IF(F), FOR(F), SEQ(T, T)]
    level2 = [G(s) for s in level1 + [SEQ(T, F), SEQ(F, T), SEQ(T, IF(T)), SEQ(LOG, T), SEQ(T, LOG, T), lambda: []]]
    level3 = level2 + [FOR(g) for g in level2[:6]] + [IF(g) for g in level2[:6]] + [G(g) for g in level2[:3]] + [lambda: ["gg()"]]
    tops = [SEQ(a, b) for a in level3 + level1 for b in rng.sample(level3 + level1, chk.n(3, 20))]
    for i, s in enumerate(tops):
        n[0] = 0
        nv = rng.choice([0, 0, 1, 5])
        ls = ["#pragma version 8", "int x = 1"] + [f"int y{k} = {k + 1}" for k in range(nv)] + s() + [f"log(itob(y{k}))" for k in range(nv)] + ["log(itob(x))", "exit(1)", ""]
        ls += ["func f():"] + ind(rng.choice([T, SEQ(T, T), IF(T), SEQ(LOG, T)])()) + ["    return", "end"]
        ls += ["func h(c: int):", "    int z = 7", "    for q in 0:c:"] + ind(ind(rng.choice([T, F, SEQ(F, T)])())) + ["    end", "    log(itob(z))", "    return", "end"]
        ls += ["func gg():"] + ind(rng.choice(level2)()) + ["    return", "end"]
        out.append((f"group{i}", "\n".join(ls) + "\n", dict(nd=1, fuel=1500, env=[envi("Fee", V([0, 1]))])))
    return out


def itxns(chk):
    """inner transactions with every field, arrays of up to twenty elements, and groups of up to seventeen transactions"""
    out = []
    rng = chk.rng("itxns")
    ARR = ["ApplicationArgs", "Accounts", "Assets", "Applications"]
    pages = ["ApprovalProgramPages", "ClearStateProgramPages"]
    plain = [f for f in tl.OPS["itxn_field"]["f"] if f not in ARR + pages and f not in ("Nonparticipation", "StateProofPK")]

    def value(f):
        kind = tl.FIELDS.get(f, ".")
        if f == "TypeEnum":
            return rng.choice(["Pay", "Appl", "Axfer", "Acfg", "Afrz", "6"])
        if f == "OnCompletion":
            return rng.choice(["NoOp", "OptIn", "DeleteApplication", "UpdateApplication", "0"])
        if kind == "U" or f in ("Assets", "Applications"):
            return rng.choice(["0", "1", "x", "x + 1", "ti(3)", "ti(x)", "KK", "Txn.Fee", "Gtxn[0].Amount", "18446744073709551615"])
        return rng.choice(['"a"', '""', "b", "tb(b)", 'tb("c")', "concat(b, b)", "KB", "Txn.Sender", "Global.CurrentApplicationAddress", "itob(ti(1))", '"// x"', '"end"', '"Fee: 1"'])

    def txn(most):
        fs = rng.sample(plain, rng.randrange(most))
        arrays = [[(a, i) for i in range(rng.choice([1, 2, 3, 4, 9, 10, 11, 12, 20]))] for a in rng.sample(ARR, rng.choice([0, 0, 1, 1, 2, 3]))]
        fs = [(f, None) for f in fs] + [(f, None) for f in rng.sample(fs, min(len(fs), rng.choice([0, 0, 1])))]
        rng.shuffle(fs)
        # the elements of arrays between the others, in their order
        every = []
        todo = [fs] + arrays
        while any(todo):
            l = rng.choice([t for t in todo if t])
            for _ in range(rng.choice([1, 1, 2, 20])):
                if l:
                    every.append(l.pop(0))
        ls = []
        for f, i in every:
            ls.append(f"    {f}: {value(f)}" if i is None else f"    {f}[{i}]: {value(f)}")
            if rng.random() < .05:
                ls.append(rng.choice(["", "    # Fee: 9"]))
        return ["inner_txn:"] + ls + ["end"]
    for i in range(chk.n(40, 700)):
        ls = ["#pragma version 8", "const int KK = 5", 'const bytes KB = "kb"', "int x = Txn.FirstValid", 'bytes b = Txn.Note']
        if i % 3 == 0:
            g = []
            for _ in range(rng.choice([1, 2, 3, 4, 8, 15, 16, 17])):
                g += txn(3)
                if rng.random() < .2:
                    g += rng.choice([["x = x + 1"], ["log(itob(x))"], ["if x:"] + ["    " + l for l in txn(2)] + ["end"]])
            ls += ["inner_group:"] + ["    " + l for l in g] + ["end"]
            if rng.random() < .3:
                ls += txn(3)
            if rng.random() < .3:
                ls += ["inner_group:"] + ["    " + l for l in txn(3)] + ["end"]
        else:
            for _ in range(rng.randint(1, 3)):
                ls += txn(len(plain) if i % 3 == 1 else 6)
            if rng.random() < .5:
                ls.append(rng.choice(["log(itob(Itxn.CreatedAssetID))", "log(Itxn.Logs[0])", "log(Itxn.LastLog)", "x = Itxn.NumLogs"]))
        out.append((f"itxns{i}", "\n".join(ls + ["log(itob(x))", "exit(1)", "func ti(v: int) int:", "    log(itob(v))", "    return v + 1", "end", "func tb(w: bytes) bytes:", "    log(w)", "    return w", "end"]) + "\n",
                    dict(nd=1, fuel=3000, env=[envi("FirstValid", V([0, 7]))])))
    return out


def scopes(chk):
    """small programs over few names, declared in nested blocks, functions and loops; every name is observed everywhere"""
    out = []
    rng = chk.rng("scopes")
    NAMES = ["x", "y", "z"]

    def ind(ls):
        return ["    " + l for l in ls]

    def see(vis):
        return [f"log(itob({v}))" if t == "int" else f"log({v})" for v, t in sorted(vis.items())]

    def decl(vis, p, n):
        ls = []
        for v in rng.sample(NAMES, rng.randrange(0, 4)):
            if v in vis and vis[v] != "int":
                continue
            if v in vis and rng.random() < .6:
                ls.append(f"{v} = {v} + {rng.randrange(9)}")
            elif v not in vis:
                ls.append(f"int {v} = {rng.randrange(100)}")
                vis[v] = "int"
        return ls
    for i in range(chk.n(120, 1500)):
        vis = {}
        ls = ["#pragma version 8"] + decl(vis, "", 0) + see(vis)
        fs = ["f", "g"]
        calls = lambda fn: [f"log(itob({f}({rng.randrange(50)})))" for f in fs if rng.random() < .6 and f > fn]
        for _ in range(rng.randrange(3)):
            v = dict(vis)
            k = f"k{rng.randrange(3)}" if rng.random() < .7 else rng.choice([w for w in NAMES if w not in vis] or ["k9"])
            v[k] = "int"
            ls += [f"for {k} in 0:2:"] + ind(decl(v, "", 1) + see(v) + calls("")) + ["end"] + see(vis)
        ls += calls("") + see(vis)

        def func(f, vis):
            own = {w: t for w, t in vis.items()}
            p = rng.choice([w for w in NAMES if w not in own] or ["p"])
            own[p] = "int"
            b = decl(own, "", 1) + see(own) + calls(f)
            if rng.random() < .5:
                w = dict(own)
                w["j"] = "int"
                b += [f"for j in 0:2:"] + ind(decl(w, "", 1) + see(w)) + ["end"]
            return ["func %s(%s: int) int:" % (f, p)] + ind(b + see(own) + [f"return {p}"]) + ["end"]

        def block(nm, vis, depth):
            own = dict(vis)
            b = decl(own, "", 1) + see(own) + calls("")
            if rng.random() < .5:
                w = dict(own)
                b += ["while x9 < 2:" if "x9" in own else "for q in 0:2:"] + ind(decl(w, "", 1) + see(w)) + ["end"] + see(own)
            tail = ["exit(1)"]
            inner = []
            if depth and rng.random() < .7:
                tail = ["jump c"]
                inner = block("c", own, depth - 1)
            if rng.random() < .4:
                inner += func("f" if rng.random() < .5 else "g", own)
            return [f"block {nm}:"] + ind(b + tail + inner) + ["end"]
        ls += ["jump b"]
        parts = [func("f", vis), func("g", vis), block("b", vis, 1), block("c", vis, 0)]
        rng.shuffle(parts)
        ls += [l for p in parts for l in p]
        out.append((f"scope{i}", "\n".join(ls) + "\n", dict(nd=0, fuel=3000)))
    return out


def lifetimes(chk):
    """variables live across calls: every kind of scope of the caller and of the function called, in every order and nesting"""
    out = []
    rng = chk.rng("lifetimes")

    def ind(ls):
        return ["    " + l for l in ls]

    def within(kind, body, p):
        """body in a kind of scope"""
        return {"plain": body, "while": [f"int {p}w = 0", f"while {p}w < 2:"] + ind(body + [f"{p}w = {p}w + 1"]) + ["end"], "for": [f"for {p}q in 0:2:"] + ind(body) + ["end"],
                "for_": ["for _ in 0:2:"] + ind(body) + ["end"], "if": ["if Global.Round >= 0:"] + ind(body) + ["end"],
                "forfor": [f"for {p}q in 0:2:"] + ind([f"int {p}o = {p}q + 9", f"for {p}r in 0:2:"] + ind(body + [f"log(itob({p}o + {p}r))"]) + ["end"]) + ["end"],
                "whilefor": [f"int {p}w = 0", f"while {p}w < 2:"] + ind([f"int {p}o = {p}w + 7", f"for {p}q in 0:2:"] + ind(body) + ["end", f"log(itob({p}o))", f"{p}w = {p}w + 1"]) + ["end"]}[kind]
    SC = ["plain", "while", "for", "for_", "if", "forfor", "whilefor"]

    def call(kind, p, f):
        return within(kind, [f"int {p}a = {rng.randrange(90)}", f"int {p}b = {rng.randrange(90)}", f"int {p}c = {f}({p}a)", f"log(itob({p}a + 100))", f"log(itob({p}b + 200))", f"log(itob({p}c))"], p)

    def func(nm, kind, p, inner=None):
        b = [f"int {p}x = {p}n + 1", f"int {p}y = {rng.randrange(90)}", f"log(itob({p}x))", f"log(itob({p}y))"]
        if inner:
            b += [f"int {p}z = {inner}({p}x)", f"log(itob({p}x + ({p}y + {p}z)))"]
        return [f"func {nm}({p}n: int) int:"] + ind(within(kind, b, p) + [f"return {p}n + 3"]) + ["end"]
    k = 0
    for ck, fk, where, order in itertools.product(SC, SC, ("main", "block", "nested", "func"), range(3)):
        # (known findings: `for _` in a function)
        if fk == "for_" or ck == "for_" and where == "func":
            continue
        if chk.quick and fk not in ("plain", SC[(SC.index(ck) + order) % 7]):
            continue
        chain = k % 3 == 0
        fs = [func("f", fk, "f", "g" if chain else None)] + ([func("g", (SC[:3] + SC[4:])[k % 6], "g")] if chain else [])
        after = ["int late = 4", f"int more = f(late)", "log(itob(late))", "log(itob(more))"]
        if where == "func":
            fs.append(func("h", ck, "h", "f"))
            if order == 1:
                fs = fs[::-1]
            ls = ["int m = 5", "int n = h(m)", "log(itob(m))", "log(itob(n))"] + call(ck, "m", "f") + after + ["exit(1)"] + [l for f in fs for l in f]
        elif where == "main":
            ls = ["int m = 5"] + call(ck, "m", "f") + after + ["log(itob(m))", "exit(1)"] + [l for f in fs for l in f]
        else:
            blk = ["block b:"] + ind(["int l = 6"] + call(ck, "b", "f") + after + ["log(itob(l))", "exit(1)"]) + ["end"]
            fl = [l for f in fs for l in f]
            if where == "block":
                parts = [fl + blk, blk + fl, fs[0] + blk + [l for f in fs[1:] for l in f]][order]
                ls = (["int m = 5"] if k % 2 else []) + ["jump b"] + parts
            else:
                parts = [fl + blk, blk + fl, fs[0] + blk + [l for f in fs[1:] for l in f]][order]
                ls = (["int m = 5"] if k % 2 else []) + ["jump a", "block a:"] + ind((["int o = 8"] if k % 4 < 2 else []) + ["jump b"] + parts) + ["end"]
        out.append((f"life/{ck}/{fk}/{where}/{order}", "\n".join(["#pragma version 8"] + ls) + "\n", dict(nd=0, fuel=9000)))
        k += 1
    return out


def calls(chk):
    """functions with up to seven parameters and results: the order of values, of evaluation and of assignment"""
    out = []
    rng = chk.rng("calls")
    NAMES = ["a", "b", "z", "y", "x1", "x10", "x2", "self_", "aa", "m", "q", "k", "ret", "tmp", "longer_name", "n", "c", "d", "e", "h"]
    HELP = ["func ti(v: int) int:", "    log(itob(v))", "    return v + 1", "end", "func tb(w: bytes) bytes:", "    log(w)", '    return concat(w, "!")', "end"]

    def show(n, t):
        return f"log(itob({n}))" if t != "bytes" else f"log({n})"

    def value(t, vs, effects):
        """an expression of type t; vs: variables"""
        own = [n for n, u in vs if u == t]
        r = rng.random()
        if own and r < .35:
            return rng.choice(own)
        if t == "uint8":
            return f"UncheckedCast({rng.randrange(200)}, uint8)"
        if t == "bytes":
            lit = '"%s"' % rng.choice(["a", "bc", "", "\\x00\\xff", "d//e"])
            a = rng.choice(own) if own and r < .7 else lit
            return rng.choice([f"tb({a})", f"concat({a}, {lit})"] if effects else [a, lit])
        a = rng.choice(own) if own and r < .7 else str(rng.randrange(300))
        return rng.choice([f"ti({a})", f"ti(ti({a}))", f"{a} + ti({rng.randrange(9)})", f"ti({rng.randrange(9)}) * {a}"] if effects else [a, f"{a} + {rng.randrange(9)}"])
    for i in range(chk.n(70, 900)):
        np, nr = rng.randrange(8), rng.choice([0, 1, 2, 3, 4, 4, 5, 6, 7])
        names = rng.sample(NAMES, np)
        ps = list(zip(names, rng.choices(["int", "bytes", "uint8"], [5, 4, 1], k=np)))
        rs = rng.choices(["int", "bytes"], k=nr)
        eff = rng.random() < .7
        body = [show(n, t) for n, t in ps]
        vs = list(ps)
        if rng.random() < .5:
            body.append(f"int loc = {value('int', vs, eff)}")
            vs.append(("loc", "int"))
        r = "return" + (" " + ", ".join(value(t, vs, eff) for t in rs) if rs else "")
        if rng.random() < .4:
            r2 = "return" + (" " + ", ".join(value(t, vs, eff) for t in rs) if rs else "")
            c = next((n for n, t in vs if t != "bytes"), "Txn.Fee")
            body += rng.choice([[f"if {c}:", "    " + r2, "end"], [f"while {c} < 4:", "    " + r2, "end"], [f"for fi in 0:2:", f"    if fi == 1:", "        " + r2, "    end", "end"]])
        f = [f"func f({', '.join(f'{n}: {t}' for n, t in ps)}){' ' + ', '.join(rs) if rs else ''}:"] + ["    " + b for b in body] + ["    " + r, "end"]

        def use(vs, pre):
            """statements that call f"""
            ls = []
            c = f"f({', '.join(value(t, vs, eff) for _, t in ps)})"
            if nr == 0:
                return [c]
            if nr == 1 and rng.random() < .5:
                return rng.choice([[show(c, rs[0])], [f"{rs[0]} {pre}r = {c}", show(pre + "r", rs[0])]])
            ts = []
            for j, t in enumerate(rs):
                if rng.random() < .25:
                    ts.append("_")
                else:
                    # (the same variable may be assigned twice)
                    own = [n for n in ts if n != "_" and n.startswith(pre + t[0])]
                    if own and rng.random() < .15:
                        ts.append(rng.choice(own))
                    else:
                        ts.append(f"{pre}{t[0]}{j}")
                        ls.append(f"{t} {ts[-1]} = {'0' if t == 'int' else chr(34) * 2}")
            rng.shuffle(ls)
            return ls + [f"{', '.join(ts)} = {c}"] + [show(n, "bytes" if n.startswith(pre + "b") else "int") for n in ts if n != "_"]
        main = ["int g1 = Txn.Fee", 'bytes g2 = "G"']
        vs = [("g1", "int"), ("g2", "bytes")]
        fs = [f]
        for k in range(rng.randint(1, 2)):
            u = use(vs, f"u{k}")
            w = rng.random()
            if w < .2:
                u = ["for li in 0:2:"] + ["    " + x for x in u] + ["end"]
            elif w < .45:
                fs.append([f"func h{k}(h1: int, h2: bytes):"] + ["    " + x for x in use([("h1", "int"), ("h2", "bytes")], f"u{k}")] + ["    return", "end"])
                u = [f"h{k}(g1 + {k}, g2)"]
            main += u
        main += ["log(itob(g1))", "log(g2)", "exit(1)"]
        rng.shuffle(fs)
        out.append((f"calls{i}", "\n".join(["#pragma version 8"] + main + [x for f in fs + [HELP[:4], HELP[4:]] for x in f]) + "\n", dict(nd=1, fuel=4000)))
    return out


def constants(chk):
    """a constant declared at every level, shadowed or not, in every use"""
    out = []
    rng = chk.rng("constants")
    INTS = ["0", "1", "7", "255", "256", "65536", "18446744073709551615", "007"]
    BYTES = ['"a"', '"ab//c"', "0x00", "0xff01", "0xABcdEF", "0x" + "Ab" * 32, '"\\x00\\xff"', '"K1 K2"', "0x" + "ab" * 40, '"it\'s"', '"a;b"', '"NoOp"']
    # a name may look like other words of TEAL
    WORDS = ["K1", "ABC", "B0", "X_Y", "INT", "ADDR", "NO_OP", "F__2", "LONG_NAME_WITH_MANY_PARTS_1", "ABCD", "EC", "K11", "K1_"]

    def ind(ls):
        return ["    " + l for l in ls]

    def use(n, k, small):
        if k == "bytes":
            return [f"log({n})", f"log(concat({n}, {n}))", f"log(itob({n} == {n}))"]
        ls = [f"log(itob({n}))", f"log(itob({n} | 8))", f"if {n}:", f'    log("{n}")', "end"]
        if small:
            ls += [f'log(substring(0, {n}, "abcdefghij"))', f"log(Txn.ApplicationArgs[{n}])", f"log(itob(Gtxn[{n}].Fee))", f'log(bzero({n}))', f'log(extract({n}, 1, "abcdefghijk"))']
        return ls
    for i in range(chk.n(70, 700)):
        names = rng.sample(WORDS, 3)
        vis = {}

        def decl(vis, names):
            ls = []
            for n in names:
                k = rng.choice(["int", "bytes"])
                v = rng.choice(INTS if k == "int" else BYTES)
                ls.append(f"const {k if k == 'int' else rng.choice(['bytes', 'bytes', 'bigint', 'addr'])} {n} = {v}")
                vis[n] = (k, k == "int" and int(v) < 8)
            return ls

        def uses(vis, names=None):
            return [l for n, (k, s) in sorted(vis.items()) for l in use(n, k, s)]
        ls = ["#pragma version 8"] + decl(vis, names[:2]) + uses(vis) + ["f(1)"]
        v1 = dict(vis)
        b1 = decl(v1, [names[rng.randrange(3)]]) + uses(v1)
        v2 = dict(v1)
        b2 = decl(v2, rng.sample(names, rng.randrange(3))) + uses(v2) + ["g(2)"]
        blk = ["block b:"] + ind(b1 + ["jump c", "block c:"] + ind(b2 + ["exit(1)"]) + ["end", "func g(a: int):"] + ind(uses(v1) + ["return"]) + ["end"]) + ["end"]
        fun = ["func f(a: int):"] + ind(uses(vis) + ["return"]) + ["end"]
        oth = ["block d:"] + ind(uses(vis) + ["exit(2)"]) + ["end"]
        first = rng.random() < .5
        ls += ["switch Txn.Fee:", "    0: b", "    else: d", "end"] + (blk + oth + fun if first else fun + oth + blk)
        out.append((f"const{i}", "\n".join(ls) + "\n", dict(nd=0, fuel=3000, env=[envi("Fee", V([0, 1]))])))
    return out


ABI = ["int", "uint64", "uint8", "bytes", "bytes[1]", "bytes[8]", "bytes[32]", "addr", "bigint", "Sx", "uint8[4]"]


def routers(chk):
    """every type as parameter and return value, every completion, in every position"""
    out = []
    rng = chk.rng("routers")
    OCS = ["", "OnCompletion=NoOp", "OnCompletion=OptIn", "OnCompletion=CloseOut", "OnCompletion=UpdateApplication", "OnCompletion=DeleteApplication",
           "OnCompletion=CreateApplication", "OnCompletion=ClearState", "OnCompletion = OptIn", " OnCompletion =DeleteApplication ", " ",
           "OnCompletion= CloseOut"]
    show = lambda v, t: f"log(itob({v}))" if t in ("int", "uint64", "uint8") else f"log({v})"
    i = 0
    jobs = [([t], [t]) for t in ABI] + [([a, b], [b, a]) for a in ABI for b in ABI if rng.random() < chk.n(.25, 1)] + \
           [(rng.choices(ABI, k=rng.randrange(0, 5)), rng.choices(ABI, k=rng.randrange(0, 5))) for _ in range(chk.n(40, 400))]
    jobs += [([t], [t]) for t in ("bytes[33]", "bytes[64]", "bytes[255]", "bytes[256]", "bytes[257]", "bytes[1000]", "Sbig", "Sw")]
    jobs += [(rng.choices(ABI + ["Sbig"], k=n), rng.choices(ABI, k=n % 4)) for n in (5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)] + [(["bytes[8]"] * 15, ["int"] * 12), (["bytes"] * 15, ["bytes"] * 15)]
    for k in range(0, len(jobs), 3):
        fs, rs = [], []
        for j, (ps, ret) in enumerate(jobs[k:k + 3]):
            i += 1
            nm = rng.choice(["f", "get_", "a", "set", "opt_in", "no"]) + str(i)
            rs.append(nm)
            names = [f"p{x}" for x in range(len(ps))]
            body = [show(n, t) for n, t in zip(names, ps)]
            vals = []
            for r in ret:
                same = [n for n, t in zip(names, ps) if t == r]
                lit = {"int": "77", "uint64": "88", "uint8": "9", "bytes": '"ret"', "bytes[1]": '"r"', "bytes[8]": '"12345678"', "bytes[32]": "Txn.Sender",
                       "addr": "Global.ZeroAddress", "bigint": '"b"', "Sx": "bzero(9)", "Sbig": "bzero(256)", "Sw": "bzero(300)", "uint8[4]": '"wxyz"'}.get(r) or f"bzero({r[6:-1]})"
                if r in ("addr", "bigint") and not same:
                    lit = f"Cast({lit}, {r})"
                vals.append(same[0] if same else lit)
            sig = f"func {nm}({', '.join(f'{n}: {t}' for n, t in zip(names, ps))})" + (" " + ", ".join(ret) if ret else "") + ":"
            fs += [f"@public({OCS[(i + j) % len(OCS)]})", sig] + ["    " + l for l in body] + ["    return" + (" " + ", ".join(vals) if vals else ""), "end"]
        ls = ["#pragma version 8", "struct Sx:", "    q: int", "    r: uint8", "end", "struct Sbig:", "    q: bytes[256]", "end", "struct Sw:", "    x: Sbig", "    y: bytes[44]", "end", "router:"] + ["    " + r for r in rs] + ["end"] + fs
        t = "\n".join(ls) + "\n"
        out.append((f"router{k}", t, dict(nd=4, env=router_env(rng, tl.parse_program(t)))))
    return out
