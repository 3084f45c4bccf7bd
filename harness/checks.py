"""One function per property."""
import itertools
import os
import shutil
import tempfile
import json
import random
import re

import behave
import families
import layout
import matrix
import opcodes
import rawteal
import structure
import syntax
import tlc
from behave import behaviour, batch, files, program_case
from common import REPO, Pool, Worker, case, corpus, findings, repo_programs, gen, teal, tl

BEH = ["accept", "kind"]


# -- profiles --------------------------------------------------------------------------------
EXPR = dict(exprs=5, var=8, log=8, put=5, iff=1, whil=0.4, forr=0.4, call=2, stmts=9, boundary=0.4, ops=2, std=0.6, env=2,
            fail=0.3, blocks=0, funcs=2, state=0.5)
EXPRV = dict(EXPR, anyv=0, ops=1, boundary=0.15, multi=4)
FLOW = dict(iff=9, whil=5, forr=4, exitif=2.5, jumpif=4, blocks=3, funcs=3, exprs=2, depth=4, stmts=16, asrt=3, unnamed=0.15)
SWITCH = dict(FLOW, blocks=4, jumpif=6, stmts=8)
VARS = dict(shadow=1, var=12, varno=3, asg=12, funcs=4, blocks=4, iff=4, whil=4, forr=4, exprs=2, stmts=18, call=5)
SLOTS = dict(VARS, slots=60, stmts=10)
CALLS = dict(funcs=6, call=9, multi=8, exprs=4, iff=5, whil=2, forr=2, stmts=12, blocks=1, var=8)
STRUCT = dict(structs=2, fasg=10, var=8, exprs=3, stmts=14, funcs=3)
BIG = dict(STRUCT, bigstruct=True)
BOX = dict(structs=1, boxes=True, box=6, fasg=9, fbox=1, exprs=2, stmts=14, funcs=3)
BOXBIG = dict(BOX, bigstruct=True)
ROUTER = dict(router=True, funcs=4, stmts=5, exprs=2, structs=0.4)
ITXN = dict(itxn=8, group=5, funcs=4, call=5, exprs=3, stmts=12, iff=3, forr=3, whil=2, multi=1)
STDF = dict(std=6, exprs=4, var=9, log=8, stmts=10, fail=0.4, boundary=0.3, structs=0.6, consts=3)
STRICT = dict(anyv=0, teal=0, push=0, exprs=4, multi=5, call=5, structs=1, boxes=True, box=1, fasg=4, std=2, itxn=0.7, group=0.5,
              stmts=14, boundary=0.2)
CONST = dict(consts=6, const=7, shadow=1, exprs=4, ops=3, std=2, blocks=2, funcs=3, stmts=14)
TEAL = dict(teal=6, push=7, stmts=12, exprs=2)
BROAD = dict(structs=1, boxes=True, box=1, fasg=3, teal=1, push=1, itxn=2, group=1.5, consts=3, std=2, ops=2, blocks=3, funcs=4, stmts=16)
EXTREME = dict(BROAD, bigstruct=True, slots=40, depth=5, stmts=24)


def rotate(*ps):
    return list(ps)


def C01(chk):
    fams = families.expressions(chk) + families.literals(chk) + families.strings(chk)
    chk.refine(*families.cases(chk, fams, BEH))
    behaviour(chk, rotate(EXPR, EXPRV, EXPR, dict(EXPR, push=2)), BEH, quick=260)


def C02(chk):
    fams = families.flow(chk) + families.nests(chk) + families.labels(chk)
    chk.refine(*families.cases(chk, fams, BEH))
    behaviour(chk, rotate(FLOW, SWITCH, dict(FLOW, group=2, itxn=2)), BEH, quick=260)


def C03(chk):
    # (a program may need more slots than there are)
    chk.refine(*families.cases(chk, families.slots(chk), ["kind"]))
    chk.refine(*families.cases(chk, families.scopes(chk) + families.lifetimes(chk), BEH))
    behaviour(chk, rotate(VARS, SLOTS, dict(VARS, structs=1, boxes=True, box=2, group=1, itxn=1), VARS), BEH, quick=240)


def C04(chk):
    chk.refine(*matrix_cases(chk, [x for x in matrix.arities() if " f(" in x[1]], BEH + ["stack"], nd=1))
    chk.refine(*families.cases(chk, families.calls(chk), BEH + ["stack"]))
    behaviour(chk, rotate(CALLS, dict(CALLS, structs=1, fasg=2), dict(CALLS, iff=9, whil=4, forr=4)), BEH + ["stack"], quick=260)


def C05(chk):
    chk.refine(*families.cases(chk, families.structs(chk), BEH))
    behaviour(chk, rotate(STRUCT, BIG), BEH, quick=240)


def C06(chk):
    chk.refine(*families.cases(chk, families.boxes(chk), BEH))
    behaviour(chk, rotate(BOX, BOXBIG), BEH, quick=220)


def C08(chk):
    chk.refine(*families.cases(chk, families.groups(chk) + families.itxns(chk), BEH))
    behaviour(chk, rotate(ITXN, dict(ITXN, group=0), dict(ITXN, blocks=3, structs=0.5)), BEH, quick=240)


def C09(chk):
    chk.refine(*families.cases(chk, families.stdlib(chk), BEH))
    behaviour(chk, rotate(STDF, dict(STDF, anyv=1.5)), BEH, quick=240)


def C18(chk):
    chk.refine(*families.cases(chk, families.constants(chk), BEH))
    behaviour(chk, rotate(CONST, dict(CONST, structs=1, itxn=1, group=1)), BEH, quick=260)


def C23(chk):
    behaviour(chk, rotate(TEAL, dict(TEAL, funcs=4, call=4), dict(TEAL, itxn=2, structs=1)), BEH + ["verbatim"], quick=260)


def matrix_cases(chk, items, want, **kw):
    """cases of the small programs of module matrix"""
    good = []
    for n, x in items:
        try:
            good.append((n, x, tl.flatten(tl.parse_program(x), teal.inline)))
        except tl.Bad:
            pass
    cases, meta = [], {}
    for (n, x, P), a in zip(good, chk.pool.compile([x for _, x, _ in good])):
        if a["acc"] and kw.get("run", 1) == 0 and "asm" not in want:
            a = dict(a, teal=[], map=[], emsg=[])
        cases.append(case(n, P, a, chk=want, **kw))
        meta[n] = {"text": x, "key": n}
    return cases, meta


def C11(chk):
    want = ["accept"]
    chk.refine(*matrix_cases(chk, matrix.matrix(chk.rng("matrix")) + matrix.arities() +
                             matrix.literals(chk.rng("literals"), chk.n(20, 300)) +
                             matrix.operators(chk.rng("operators"), chk.n(.2, 1)) + matrix.several(chk.rng("several"), chk.n(600, 9000)) +
                             matrix.sizes(chk.rng("pairs"), chk.n(.3, 1)) + families.limits(chk), want, run=0))
    profs = rotate(STRICT, BROAD, dict(ROUTER), dict(STDF, stmts=6), dict(FLOW, stmts=8), dict(CALLS, structs=1), dict(ITXN, stmts=6),
                   dict(CONST, stmts=6))
    cases, meta = files(chk, want, run=0)
    c, m = families.cases(chk, [(n, t, None) for n, t, _ in sampled(chk, 40)], want, run=0)
    cases += c
    meta.update(m)
    k = 0
    while True:
        c, m = batch(chk, f"m{k}", chk.n(1500, 3000), profs, want, maker=behave.make_mutant, run=0)
        cases += c
        meta.update(m)
        c, m = batch(chk, f"g{k}", chk.n(100, 600), profs, want, run=0)
        meta.update(m)
        chk.refine(cases + c, meta)
        if chk.quick or chk.left() < 100 or chk.violations:
            break
        cases, meta, k = [], {}, k + 1


MAPPED = rotate(dict(BROAD, stmts=12), dict(FLOW, stmts=10), dict(CALLS, structs=1, fasg=2), dict(ITXN, stmts=8), dict(BOX, stmts=9), dict(EXPR, stmts=7))


LINED = [families.flow, families.structs, families.boxes, families.nests, families.groups, families.itxns, families.scopes, families.lifetimes, families.calls, families.constants,
         families.routers]


def C15(chk):
    want = ["line", "errline", "msg"]
    c, m = batch(chk, "e", chk.n(500, 1500), MAPPED, want, maker=behave.make_local, run=0, style=True)
    chk.refine(c, m)
    chk.refine(*families.cases(chk, sampled(chk, 30, LINED), want))
    behaviour(chk, MAPPED, want, quick=220, style=True)


def C07(chk):
    chk.refine(*families.cases(chk, families.routers(chk), BEH, big=600))
    behaviour(chk, rotate(ROUTER, dict(ROUTER, stmts=2, consts=0), dict(ROUTER, structs=1, stmts=3), dict(ROUTER, funcs=6, stmts=2)), BEH,
              quick=300, big=600, nd=4, maker=behave.make_router)


def C10(chk):
    want = ["kind", "size", "stack", "types"]
    rng = chk.rng("matrix")
    few = matrix.matrix(rng, chk.n(.25, 1)) + [x for x in matrix.arities() if rng.random() < chk.n(.3, 1)] + \
        matrix.literals(rng, chk.n(6, 300)) + matrix.operators(rng, chk.n(.06, 1)) + matrix.several(rng, chk.n(300, 5000)) + matrix.sizes(rng, chk.n(.15, 1))
    chk.refine(*matrix_cases(chk, few, want, strict=True, nd=1))
    c, m = batch(chk, "m", chk.n(500, 2500), [STRICT, dict(STRICT, structs=0), dict(STRICT, funcs=5)], want, maker=behave.make_mutant, strict=True)
    chk.refine(c, m)
    behaviour(chk, rotate(STRICT, dict(STRICT, funcs=5, multi=8), dict(STRICT, box=4, structs=2)), want, quick=220, strict=True)


FAMILIES = [families.expressions, families.literals, families.flow, families.structs, families.boxes, families.stdlib, families.nests, families.groups, families.itxns,
            families.scopes, families.lifetimes, families.calls, families.constants, families.routers]


def sampled(chk, n, fams=FAMILIES):
    """some programs of every family (all when thorough)"""
    out = []
    for f in fams:
        x = f(chk)
        out += x if not chk.quick else chk.rng("families").sample(x, min(len(x), n))
    return out


def C13(chk):
    want = ["asm"]
    k, n = 0, chk.n(700, 2500)
    cases, meta = files(chk, want, run=0)
    fams = families.slots(chk) + families.strings(chk) + families.labels(chk) + sampled(chk, 60)
    c, m = families.cases(chk, [(n, t, None) for n, t, _ in fams], want, run=0)
    cases += c
    meta.update(m)
    c, m = matrix_cases(chk, families.limits(chk), want, run=0)
    cases += c
    meta.update(m)
    while True:
        c, m = batch(chk, f"g{k}", n, rotate(BROAD, EXTREME, dict(BOXBIG), dict(ROUTER, structs=1), dict(SWITCH), dict(SLOTS), dict(TEAL), dict(CONST)),
                     want, run=0, style=k % 2 == 1)
        meta.update(m)
        chk.refine(cases + c, meta)
        c, m = batch(chk, f"m{k}", n // 2, rotate(STRICT, BROAD, EXTREME), want, maker=behave.make_mutant, run=0)
        chk.refine(c, m)
        cases, meta, k = [], {}, k + 1
        if chk.quick or chk.left() < 100 or chk.violations:
            break


def C17(chk):
    want = ["accept", "kind"]
    chk.refine(*families.cases(chk, families.strings(chk), want))
    behaviour(chk, rotate(dict(BROAD, stmts=10), dict(FLOW, stmts=10), dict(CALLS), dict(VARS), dict(CONST), dict(ROUTER), dict(SWITCH)), want, quick=300,
              maker=behave.make_renamed)


def C24(chk):
    n = chk.n(500, 6000)
    rng = chk.rng("decl")
    texts = [("decl:%d" % i, families.declarations(rng)) for i in range(n)]
    made = behave.pmap(behave.make, [(f"C24/{chk.seed}/{i}", [STRUCT, BIG, BOX, BROAD][i % 4], i % 2) for i in range(chk.n(150, 2000))])
    texts += [(f"gen:{i}", m[0]) for i, m in enumerate(made)] + [("file:" + a, t) for a, t in repo_programs() + corpus()]
    good, meta = [], {}
    for k, t in texts:
        try:
            good.append((k, t, tl.flatten(tl.parse_program(t), teal.inline)))
        except tl.Bad:
            pass
    comp = chk.pool.compile([t for _, t, _ in good])
    ins = chk.pool.map([{"op": "inspect", "text": t} for _, t, _ in good])
    cases = []
    for (k, t, P), c, a in zip(good, comp, ins):
        d = dict(id=k, P=P, acc=a["acc"], comp=c["acc"], msg=a.get("msg", ""), insp=[])
        if a["acc"]:
            if list(a["data"]) != ["structs"]:
                chk.violation("keys of the answer: %s" % list(a["data"]), {"text": t})
            try:
                d["insp"] = [dict(nm=s, size=x["size"], fs=[dict(nm=f, ty=y["type"], size=y["size"], off=y["offset"]) for f, y in x["fields"].items()])
                             for s, x in a["data"]["structs"].items()]
            except (KeyError, AttributeError, TypeError):
                chk.violation("the answer has another form: %s" % str(a["data"])[:300], {"text": t})
                continue
        cases.append(d)
        meta[k] = {"text": t, "key": k}
    chk.refine(cases, meta, module="Inspect")
    behaviour(chk, rotate(STRUCT, BIG, BOX), ["kind"], quick=80, repo=False)


def C19(chk):
    k = 0
    while True:
        rng = chk.rng(f"raw{k}")
        cases, meta = [], {}

        def add(id, A, B, m, run):
            ta, tb = teal.program(A), teal.program(B)
            cases.append(dict(id=id, A=ta, B=tb, ia=spans(ta, len(A)), ib=spans(tb, len(B)), map=m, n=len(B), run=run))
            meta[id] = {"teal": A, "result": B, "map": m}
        raws = [(f"raw{k}/{i}", rawteal.program(rng)) for i in range(chk.n(500, 1500))]
        made = behave.pmap(behave.make, [(f"C19/{chk.seed}/{k}/{i}", [BROAD, FLOW, SWITCH, CALLS, TEAL, dict(EXPR, exprs=2), ROUTER][i % 7], i % 2)
                                         for i in range(chk.n(160, 700))])
        progs = [(f"gen{k}/{i}", m[0]) for i, m in enumerate(made)]
        if k == 0:
            progs += [("file:" + a, t) for a, t in repo_programs() + corpus()]
            raws += [("file:" + a, t.rstrip("\n").split("\n")) for a, t in raw_files()]
        for (n, _), a in zip(progs, chk.pool.compile([t for _, t in progs])):
            if a["acc"]:
                raws.append((n, a["teal"]))
        ans = chk.pool.map([{"op": "minteal", "teal": t} for _, t in raws])
        again = chk.pool.map([{"op": "minteal", "teal": a.get("min", [])} for a in ans])
        for (n, t), a, b in zip(raws, ans, again):
            if not a["acc"] or not b["acc"]:
                chk.violation("minification fails: " + a.get("msg", b.get("msg", "")), {"teal": t})
                continue
            run = rng.random() < .15
            add(n + ":min", t, a["min"], a["minmap"], run)
            add(n + ":strip", t, a["strip"], [], False)
            if len(b["min"]) != len(a["min"]) or rng.random() < .3:
                add(n + ":again", a["min"], b["min"], b["minmap"], False)
            for what, r in (("minified", a["min"]), ("stripped", a["strip"])):
                if any(not x.strip() or x.strip().startswith("//") for x in r):
                    chk.violation(f"a blank line or a comment is left in the {what} program", {"teal": t, "result": r})
        chk.refine(cases, meta, module="TealPair")
        k += 1
        if chk.quick or chk.left() < 100 or chk.violations:
            break


def spans(T, n):
    """<<first, last>> statement of each line"""
    out = [[1, 0]] * n
    for i, x in enumerate(T):
        l = x["l"] - 1
        out[l] = [out[l][0] if out[l][1] else i + 1, i + 1]
    return out


def raw_files():
    """TEAL files of the repository"""
    out = []
    for base in ("examples", "tests"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            out += [(os.path.relpath(os.path.join(d, f), REPO), open(os.path.join(d, f)).read()) for f in sorted(fs) if f.endswith(".teal")]
    return sorted(out)


def remote(name):
    return open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "remote", name + ".py")).read()


QUERIES = ["tl_pc", "teal_pc", "tl_teal", "err_pc", "lines"]


def map_histories(chk, rng, n, texts):
    """histories of operations on maps"""
    out = []
    # every map with few lines, and every query
    small = []
    for pcs in itertools.product([None, 1, 2, 3], repeat=2):
        for tls in itertools.product([None, 1, 2, 0], repeat=3):
            for er in [(), (1,), (2,), (1, 2)]:
                t = [[[k, v] for k, v in enumerate(pcs) if v is not None], [[k + 1, v] for k, v in enumerate(tls) if v is not None],
                     [[k, f"m{k}"] for k in er]]
                small.append(t)
    rng.shuffle(small)
    for t in small[:chk.n(300, len(small))]:
        ops = [["new", 1, t, rng.random() < .5]]
        if rng.random() < .5:
            ops.append([rng.choice(["json", "copy"]), 1, 2])
        i = rng.choice([1, 2]) if len(ops) > 1 else 1
        ops += [[q, i, x] for q in QUERIES for x in range(0, 4)] + [["dict", i, 0]]
        out.append(ops)

    def table(keys, vals):
        ks = rng.sample(keys, rng.randrange(0, min(9, len(keys))))
        return [[k, rng.choice(vals)] for k in ks]
    for j in range(n):
        big = rng.random() < .3
        lines = list(range(0, 3000, 7)) if big else list(range(0, 9))
        ops, live = [], []
        for _ in range(rng.choice([12, 25, 50])):
            k = rng.random()
            if not live or k < .08:
                i = rng.randrange(1, 4)
                if rng.random() < .35:
                    ops.append(["compile", i, rng.choice(texts)])
                else:
                    t = [table(lines, lines), table(lines, lines), [[l, rng.choice(["", "a message", "é\"\\", "0", "None"])] for l in rng.sample(lines, 4)]]
                    if rng.random() < .2:
                        t[rng.randrange(3)] = None
                    if rng.random() < .05:
                        t = [None] * 3
                    ops.append(["new", i, t, rng.random() < .5])
            elif k < .18:
                i, c = rng.choice(live), rng.randrange(1, 4)
                ops.append([rng.choice(["json", "copy"]), i, c])
                i = c
            elif k < .3:
                i = rng.choice(live)
                ds = [rng.choice([None, None, 0, 1, 1, 1, 2, 3, -1, 40]) for _ in range(rng.choice([1, 3, 12, 40]))]
                if ds[0] is None and rng.random() < .5:
                    ds[0] = rng.choice([0, 1, 5, 900])
                at = 0
                for x, d in enumerate(ds):
                    if d and at + d < 0:
                        ds[x] = 0
                    at += ds[x] or 0
                ops.append(["update", i, ds, rng.random() < .5])
            elif k < .38:
                i = rng.choice(live)
                ops.append(["dict", i, 0])
            else:
                i = rng.choice(live)
                ops.append([rng.choice(QUERIES), i, rng.choice(lines[:20] + list(range(0, 40)) + [-1, 10 ** 6])])
            if i not in live:
                live.append(i)
        for i in live:
            ops += [[q, i, x] for q in QUERIES for x in rng.sample(range(0, 40), 4)] + [["dict", i, 0]]
        out.append(ops)
    return out


def C20(chk):
    code = remote("maphist")
    k = 0
    while True:
        rng = chk.rng(f"h{k}")
        made = behave.pmap(behave.make, [(f"C20/{chk.seed}/{k}/{i}", dict(BROAD, stmts=4, asrt=4) if i % 2 else dict(stmts=3, asrt=5), False)
                                         for i in range(chk.n(24, 100))])
        hs = map_histories(chk, rng, chk.n(250, 2500), [m[0] for m in made] + ["exit(1)", "assert(1, \"x\")\nassert(0, \"y\")\nexit(1)"])
        ans = chk.pool.map([{"op": "exec", "code": code, "arg": h} for h in hs])
        cases, meta = [], {}
        for i, (h, a) in enumerate(zip(hs, ans)):
            if not a["acc"]:
                chk.violation("maps: " + a["msg"], {"ops": h})
                continue
            ops = []
            for o, r in zip(h, a["out"]):
                d = dict(k=o[0], m=o[1], x=0, a=r[0], r=r[1])
                if o[0] == "new":
                    d["t"] = [x or [] for x in o[2]]
                elif o[0] == "update":
                    d["d"] = [[] if x is None else [x] for x in o[2]]
                elif o[0] != "compile":
                    d["x"] = o[2]
                ops.append(d)
            cases.append(dict(id=f"h{k}/{i}", ops=ops))
            meta[f"h{k}/{i}"] = {"ops": h}
        chk.refine(cases, meta, module="MapModel")
        # the maps of compiled programs: lines and messages as in the source
        k += 1
        if chk.quick or chk.left() < 60 or chk.violations:
            break
    behaviour(chk, MAPPED, ["line", "msg"], quick=40, repo=False)


class tables:
    """parse programs with other opcodes"""

    def __init__(self, ops):
        self.ops = ops

    def __enter__(self):
        self.old, tl.OPS = tl.OPS, self.ops

    def __exit__(self, *a):
        tl.OPS = self.old


def lang_cases(chk, tag, fam, compile_, want_run=False):
    good, meta = [], {}
    for n, t in fam:
        try:
            good.append((f"{tag}{n}", t, tl.flatten(tl.parse_program(t), teal.inline)))
        except tl.Bad:
            pass
    cases = []
    for (n, t, P), a in zip(good, compile_([t for _, t, _ in good])):
        cases.append(dict(id=n, P=P, T=teal.program(a["teal"]) if a["acc"] else [], acc=a["acc"], msg=a.get("msg", "")[:200], diff=False, ans=a))
        meta[n] = {"text": t, "key": n}
    return cases, meta


def C22(chk):
    packaged = json.load(open(os.path.join(REPO, "tealish", "langspec.json")))
    k = 0
    while True:
        rng = chk.rng(f"ops{k}")
        fam = opcodes.family(opcodes.FROZEN, rng, names=["nope", "Nope", "sha", "txn_", "l", "itxn_nextt"])
        cases, meta = lang_cases(chk, f"op{k}:", fam, chk.pool.compile)
        runs = [case("run" + c["id"], c["P"], c["ans"], chk=["kind"]) for c in cases if c["acc"]]
        if chk.quick:
            runs = rng.sample(runs, min(len(runs), 200))
        # differences
        specs = [opcodes.changed(packaged, rng) for _ in range(chk.n(5, 12))]
        pairs = [[packaged, s] for s, _, _ in specs] + [[a[0], b[0]] for a, b in zip(specs, specs[1:])] + [[packaged, packaged]]
        r = chk.pool.map([{"op": "exec", "code": remote("langdiff"), "arg": pairs}])[0]
        if not r["acc"]:
            chk.violation("comparing language specs: " + r["msg"], {})
            return
        for i, ((a, b), o) in enumerate(zip(pairs, r["out"])):
            names = [[x["Name"] for x in s["Ops"]] + ["method"] for s in (a, b)]
            cases.append(dict(id=f"diff{k}/{i}", diff=True, a=names[0], b=names[1], new=o["new"], gone=o["gone"]))
            if not o["same"] or sorted(o["a"]) != sorted(set(names[0])):
                chk.violation("new_ops and compare_langspecs differ, or opcodes are missing", {"pair": i, "answer": o})
        for c in cases:
            c.pop("ans", None)
        chk.refine(cases, meta, module="Langspec")
        chk.refine(runs, {"run" + x: y for x, y in meta.items()})
        # projects with their own langspec.json
        for i, (s, touched, gone) in enumerate(specs[:chk.n(4, 12)]):
            ops, fields = opcodes.tables(s)
            w = Worker(files={"langspec.json": json.dumps(s)})
            try:
                sub = sorted(set(touched) | set(rng.sample([x for x in ops if x not in touched], 12)))
                fam = opcodes.family(ops, rng, only=sub, names=gone + ["nope"])
                fam += opcodes.accesses(ops, rng)
                with tables(ops):
                    cases, meta = lang_cases(chk, f"own{k}.{i}:", fam, lambda ts: [w.ask({"op": "compile", "text": t}) for t in ts])
                for c in cases:
                    c.pop("ans")
                act = w.ask({"op": "exec", "code": remote("langdiff").replace("def run(", "def _(").replace("def active(", "def run(")})
                if not act["acc"] or not act["out"]["local"]:
                    chk.violation("the local langspec.json is not active: " + str(act)[:300], {"spec": i})
                else:
                    cases.append(dict(id=f"local{k}/{i}", diff=True, a=[x["Name"] for x in packaged["Ops"]] + ["method"], b=list(ops),
                                      new=act["out"]["new"], gone=[x for x in act["out"]["packaged"] if x not in ops]))
                d = tempfile.mkdtemp(prefix="lang_")
                try:
                    for n, x in (("ops", ops), ("fields", fields)):
                        json.dump(x, open(os.path.join(d, n), "w"))
                    chk.refine(cases, meta, module="Langspec", env=dict(OPS=os.path.join(d, "ops"), FIELDS=os.path.join(d, "fields")))
                finally:
                    shutil.rmtree(d)
            finally:
                w.close()
        k += 1
        if chk.quick or chk.left() < 150 or chk.violations:
            break


ALONE = {"c": [["c", 0, 1]], "r": [["r", 0, 1]], "i": [["i", 0, 1]], "parse": [["new", 1, 1], ["parse", 1, 1]],
         "process": [["new", 1, 1], ["parse", 1, 1], ["process", 1, 1]], "compile": [["new", 1, 1], ["compile", 1, 1]],
         "reformat": [["new", 1, 1], ["reformat", 1, 1]], "map": [["new", 1, 1], ["compile", 1, 1], ["map", 1, 1]],
         "structs": [["new", 1, 1], ["parse", 1, 1], ["structs", 1, 1]]}
# programs which interfere if anything is shared between compilations
SHARED = ["struct Item:\n    a: int\n    b: bytes[4]\nend\nItem x = Cast(\"abcdefghijkl\", Item)\nlog(itob(x.a))\nlog(x.b)\nexit(1)\n",
          "struct Item:\n    b: bytes[2]\n    a: uint8\nend\nItem x = Cast(\"abc\", Item)\nlog(x.b)\nlog(itob(x.a))\nexit(1)\n",
          "Item x = Cast(\"abc\", Item)\nexit(1)\n",
          "const int K1 = 5\nconst bytes NAME = \"x\"\nlog(NAME)\nexit(K1)\n",
          "const int NAME = 7\nexit(NAME)\n", "exit(K1)\n", "log(NAME)\nexit(1)\n",
          "int x = 1\nint y = 2\nwhile x < 3:\n    x = x + y\nend\nexit(f(x))\nfunc f(a: int) int:\n    return a\nend\n",
          "bytes x = \"a\"\nif len(x) == 1:\n    log(x)\nelse:\n    log(\"b\")\nend\nexit(1)\n", "exit(f(1))\n", "x = 3\nexit(x)\n", "int\n", "if 1:\n",
          "inner_group:\n    inner_txn:\n        TypeEnum: Pay\n        Fee: 0\n    end\nend\nexit(1)\n",
          "inner_txn:\n    TypeEnum: Pay\n    Fee: 0\nend\nexit(1)\n",
          "assert(Txn.Fee, \"first\")\nassert(0, \"second\")\nexit(1)\n", "\nassert(1)\nassert(Txn.Fee)\nexit(1)\n",
          "#pragma version 6\n\n# comment\nswitch 1:\n    1: a\n    else: b\nend\nblock a:\n    exit(1)\nend\nblock b:\n    exit(2)\nend\n",
          "exit(1)  # trailing\n", "struct Item:\n    a: nope\nend\nexit(1)\n", "struct Item:\n    a: int\n", "",
          "struct Item:\n    a: int\n    b: bytes[4]\nend\nbox<Item> x = OpenBox(\"k\")\nlog(x.b)\nexit(1)\n",
          "switch 1:\n    1: nope\nend\n", "router:\n    f\nend\n@public()\nfunc f(a: int) int:\n    return a\nend\n"]


def C16(chk):
    k = 0
    code = remote("session")
    alone = code.replace("run({", "run_history({").replace("def run(arg)", "def run_history(arg)").replace("def alone(arg)", "def run(arg)")
    fresh = [Worker(env={"PYTHONHASHSEED": s}) for s in ("0", "1", "77", "4242")]
    pool = Pool(env={"PYTHONHASHSEED": "random"})
    profs = rotate(BROAD, dict(STRUCT, stmts=6), dict(BOX, stmts=6), dict(ITXN, stmts=6), CONST, dict(ROUTER, structs=1), dict(FLOW, stmts=8), SLOTS)
    try:
        while True:
            rng = chk.rng(f"s{k}")
            n = chk.n(40, 150)
            keys = [(f"C16/{chk.seed}/{k}/{i}", profs[i % len(profs)], i % 2) for i in range(n)]
            texts = list(SHARED) + [m[0] for m in behave.pmap(behave.make, keys)] + \
                [m[0] for m in behave.pmap(behave.make_mutant, keys[:n // 2]) if m]
            if k == 0:
                texts += [t for _, t in corpus()] + [t for _, t in repo_programs() if len(t) < 4000][:chk.n(30, 300)]
            steps = list(ALONE)
            hists = [ALONE[s] for s in steps]
            reqs = [{"op": "exec", "code": alone, "arg": {"texts": [t], "hists": hists}, "timeout": 60} for t in texts]
            answers = []
            for seeds in (fresh[:2], fresh[2:]):
                ws = pool_of(seeds)
                answers.append(ws.map(reqs))
            F = []
            for t, a, b in zip(texts, *answers):
                if not a["acc"] or not b["acc"]:
                    raise Exception("a new process gives no answer: " + str(a)[:300])
                if a["out"] != b["out"]:
                    chk.violation("processes with other hash seeds answer differently", {"text": t, "answers": [a["out"], b["out"]]})
                F.append({s: x[0] for s, x in zip(steps, a["out"])})
            # histories of the specification, each over a few of the programs
            num = chk.n(400, 1500)
            gen_ = tlc.generate("Session", "SessionGen.cfg", num, 60, chk.seed * 1000 + k, env={"NP": "5", "D": str(chk.n(30, 50))})
            cases, meta, reqs, sel = [], {}, [], []
            for i, h in enumerate(gen_):
                ix = rng.sample(range(len(SHARED)), 3) + rng.sample(range(len(texts)), 2) if rng.random() < .5 else rng.sample(range(len(texts)), 5)
                sel.append(ix)
                reqs.append({"op": "exec", "code": code, "arg": {"texts": [texts[j] for j in ix], "hist": h}, "timeout": 60})
            for i, (h, ix, a) in enumerate(zip(gen_, sel, pool.map(reqs))):
                if not a["acc"]:
                    chk.violation("a history: " + a["msg"], {"hist": h, "texts": [texts[j] for j in ix]})
                    continue
                cases.append(dict(id=f"h{k}/{i}", fresh=[F[j] for j in ix], h=[dict(s=s, o=o, p=p, a=x, e=e) for (s, o, p), (x, e) in zip(h, a["out"])]))
                meta[f"h{k}/{i}"] = {"hist": h, "texts": [texts[j] for j in ix]}
            chk.refine(cases, meta, module="Session")
            k += 1
            if chk.quick or chk.left() < 100 or chk.violations:
                break
    finally:
        for w in fresh:
            w.close()
        pool.close()
    chk.extra["histories"] = chk.cases


LAYOUTS = rotate(BROAD, dict(FLOW, blocks=4), dict(CALLS, structs=1), dict(ROUTER, structs=1), dict(STDF, stmts=8), dict(BOX), dict(TEAL), dict(ITXN),
                 dict(CONST), dict(SWITCH), dict(EXPR, exprs=4))


def make_layouts(args):
    """a program written in several ways: with comments, without, canonically"""
    key, prof, _ = args
    rng = random.Random(key)
    body = gen.G(rng, **prof).program()
    plain = [tl.Writer(tl.Style(rng) if k else None).program(body, 8) for k in range(3)]
    P0 = tl.flatten(body, teal.inline)
    text = tl.Writer(tl.Style(rng, comments=True)).program(body, 8)
    return text, tl.flatten(body, teal.inline), behave.cands(rng), plain, P0


def C14(chk):
    want = BEH + ["asm"]
    k = 0
    while True:
        rng = chk.rng(f"l{k}")
        made = behave.pmap(make_layouts, [(f"C14/{chk.seed}/{k}/{i}", LAYOUTS[i % len(LAYOUTS)], 0) for i in range(chk.n(260, 900))])
        todo = []                     # id, source, other layouts of it, syntax tree
        for i, (text, P, cc, plain, P0) in enumerate(made):
            todo.append((f"p{k}/{i}", text, [layout.shake(text, rng)], P, cc))
            todo.append((f"q{k}/{i}", plain[2], plain[:2], P0, cc))
        if k == 0:
            for n, t in [("file:" + n, t) for n, t in corpus() + repo_programs()] + [("family:" + n, t) for n, t, _ in sampled(chk, 25, FAMILIES + [families.strings])]:
                try:
                    todo.append((n, t, [layout.shake(t, rng)], tl.flatten(tl.parse_program(t), teal.inline), None))
                except tl.Bad:
                    pass
        comp = chk.pool.compile([x[1] for x in todo])
        ans = chk.pool.map([{"op": "reformat", "text": x[1]} for x in todo])
        oth = iter(chk.pool.map([{"op": "format", "text": o} for x in todo for o in x[2]]))
        cases, meta, runs = [], {}, []
        for (n, t, others, P, cc), c, a in zip(todo, comp, ans):
            os_ = [next(oth) for _ in others]
            meta[n] = {"text": t, "formatted": a.get("text", ""), "others": others}
            if not c["acc"] and not a["acc"]:
                continue
            if c["acc"] != a["acc"]:
                chk.violation("a valid program is not formatted to a valid one: %s" % (a if c["acc"] else c).get("msg"), meta[n])
                continue
            if not all(o["acc"] for o in os_):
                chk.violation("another layout is refused: %s" % [o.get("msg") for o in os_], meta[n])
                continue
            cases.append(dict(id=n, src=layout.lines(t), out=layout.lines(a["text"]), text=a["text"], again=a["again"], others=[o["text"] for o in os_]))
            if n.startswith("file:") or rng.random() < chk.n(.3, .3):
                ci, cb = cc or behave.cands(rng)
                runs.append(case("run" + n, P, dict(a, map=[], emsg=[]), chk=want, ci=ci, cb=cb, nd=2))
                meta["run" + n] = meta[n]
        chk.refine(cases, meta, module="Layout")
        chk.refine(runs, meta)
        k += 1
        if chk.quick or chk.left() < 100 or chk.violations:
            break


OPS = ("compile", "format", "inspect")


def outcome(a):
    o = "result" if a["acc"] else {"ParseError": "parse", "CompileError": "compile"}.get(a.get("err"), str(a.get("err")))
    return {"o": o, "m": bool(str(a.get("msg", "")).strip())}


def judged(chk, items):
    """items: (id, text, kinds of its lines or [], is its syntax tree wanted?)"""
    reqs = [{"op": op, "text": t, "timeout": 20} for _, t, _, _ in items for op in OPS]
    ans = chk.pool.map(reqs)
    cases, meta, acc = [], {}, []
    for j, (n, t, ls, static) in enumerate(items):
        a = ans[3 * j:3 * j + 3]
        meta[n] = {"text": t, "answers": [x.get("msg", "result")[:300] for x in a]}
        cases.append(dict(id=n, ls=ls, ans=[outcome(x) for x in a]))
        if static:
            try:
                P = tl.flatten(tl.parse_program(t), teal.inline)
            except (tl.Bad, KeyError, ValueError, AttributeError, TypeError, IndexError):
                continue
            acc.append((n, P, a[0]))
    r = chk.refine(cases, meta, module="Structure")
    bad = {v[0] for v in r["verdicts"] if v[1] != "ok"} if r else set()
    runs = []
    for n, P, a in acc:
        if n not in bad:
            if a["acc"]:
                a = dict(a, teal=[], map=[], emsg=[])
            runs.append(case("static:" + n, P, a, chk=["accept"], run=0))
            meta["static:" + n] = meta[n]
    chk.refine(runs, meta)


def C12(chk):
    k = 0
    while True:
        rng = chk.rng(f"s{k}")
        items = []
        # every short text, and longer ones
        if k == 0:
            gs = tlc.generate("Structure", "StructureGen.cfg", None, 0, 0, env={"G": str(chk.n(2, 3))})
            chk.extra["short texts (all)"] = len(gs)
        else:
            gs = []
        if chk.quick or k > 0:
            # (a simulation writes all texts that differ from the behaviour in the last line)
            more = tlc.generate("Structure", "StructureGen.cfg", chk.n(600, 6000), 60, chk.seed * 1000 + k, env={"G": str(rng.choice([8, 12, 16]))})
            good = [g for g in more if g[0] == "ok"]
            gs += good[:chk.n(800, 9000)] + rng.sample(more, min(len(more), chk.n(1500, 16000)))
        for i, (v, ks) in enumerate(gs):
            items.append((f"lines{k}/{i}", structure.instantiate(ks, rng), [{"k": a, "n": b} for a, b in ks], v == "ok" or rng.random() < .05))
        # programs with changed lines, changed characters, and other texts
        made = behave.pmap(behave.make, [(f"C12/{chk.seed}/{k}/{i}", LAYOUTS[i % len(LAYOUTS)], i % 2) for i in range(chk.n(120, 1000))])
        texts = [m[0] for m in made] + ([t for _, t in repo_programs() + corpus()] if k == 0 else [])
        for i, t in enumerate(texts):
            items.append((f"whole{k}/{i}", t, structure.classify(t), True))
            for j in range(3):
                u = structure.shuffle_lines(t, rng)
                items.append((f"moved{k}/{i}/{j}", u, structure.classify(u), True))
            for j in range(5):
                items.append((f"fuzz{k}/{i}/{j}", structure.fuzz(t, rng), [], False))
        items += [(f"soup{k}/{i}", structure.soup(rng), [], False) for i in range(chk.n(400, 3000))]
        items += [(f"extreme{k}/{i}", t, [], False) for i, t in enumerate(structure.extremes(rng))]
        items += [(f"stretched{k}/{i}", t, [], False) for i, t in enumerate(structure.stretched(rng, None))]
        judged(chk, items)
        k += 1
        if chk.quick or chk.left() < 200 or chk.violations:
            break


def code_lines(text):
    """number of lines of code; -1 if not specified (code and a comment on a line)"""
    n = 0
    for x in text.split("\n"):
        s = x.strip()
        if s and not s.startswith(("#", "//")) and s != "end":
            if tl.strip(s) == "end":
                return -1
            n += 1
    return n


FILES = [("p/a.tl", "p", "p/build/a", True), ("p/b.v2.tl", "p", "p/build/b.v2", True), ("p/src", "p", "p/build/src", False),
         ("p/sub/c.tl d.tl", "p/sub", "p/sub/build/c.tl d", True)]


def C21(chk):
    k = 0
    code = remote("cli")
    # the machine has the properties it should have
    r = tlc.model("Cli", "CliModel.cfg", env={"D": str(chk.n(2, 4))})
    chk.states += r
    while True:
        rng = chk.rng(f"c{k}")
        gs = tlc.generate("Cli", "CliGen.cfg", chk.n(160, 1500), 60, chk.seed * 1000 + k, env={"D": str(chk.n(16, 24))})
        made = behave.pmap(behave.make, [(f"C21/{chk.seed}/{k}/{i}", [BROAD, STRUCT, FLOW, CALLS, ROUTER][i % 5], i % 2) for i in range(chk.n(60, 300))])
        good = [m[0] for m in made if "FAILASM" not in m[0]] + [t for t in SHARED if t]
        bad = [m[0] for m in behave.pmap(behave.make_mutant, [(f"C21b/{chk.seed}/{k}/{i}", BROAD, i % 2) for i in range(40)]) if m] + ["if 1:", "x = 1", "switch 1:\n    1: nope\nend\n"]
        a = chk.pool.compile(good + bad)
        ok = [t for t, x in zip(good + bad, a) if x["acc"]]
        bad = [t for t, x in zip(good + bad, a) if not x["acc"]]
        reqs = []
        for h in gs[:chk.n(160, 1500)]:
            t = rng.sample(ok, 3)
            fails = rng.choice([t[2].replace("\nexit(", "\nlog(\"FAILASM\")\nexit(", 1), "log(\"FAILASM\")\nexit(1)\n", "# é\nlog(\"FAILASM\")\nexit(0)"])
            proc = rng.random() < .03
            acts = [dict(a, q=rng.random() < .3 and a["k"] in ("compile", "build"), how=rng.choice(["rel", "abs", "cd", "dot", "slash", "rel"]), how2=rng.choice(["goal", "plain", "token"]),
                         proc=proc) for a in h]
            other = {"p/notes.txt": "x = 1", "p/sub/readme.md": "# tl", "top.tl": "exit(1)"}
            if rng.random() < .1:
                other["p/build"] = "a file"
            reqs.append({"op": "exec", "code": code, "timeout": 120, "arg": {"texts": [t[0], t[1], rng.choice(bad), fails], "dirs": ["p", "p/sub"], "acts": acts, "other": other,
                         "files": {"p/a.tl": 1, "p/b.v2.tl": 2, "p/sub/c.tl d.tl": 1}}})
        cases, meta = [], {}
        for i, (q, a) in enumerate(zip(reqs, chk.pool.map(reqs))):
            n = f"h{k}/{i}"
            meta[n] = {"acts": q["arg"]["acts"], "texts": q["arg"]["texts"]}
            if not a["acc"]:
                raise Exception("a history of commands gives no answer: " + a["msg"])
            o = a["out"]
            T = [dict(d, n=code_lines(t)) for d, t in zip(o["info"], o["texts"])]
            cases.append(dict(id=n, files=[dict(p=p, d=d, o=b, tl=x) for p, d, b, x in FILES], texts=T, start=o["start"],
                              h=[dict(y, x=dict(y["x"])) for y in o["h"]]))
        chk.refine(cases, meta, module="Cli")
        k += 1
        if chk.quick or chk.left() < 150 or chk.violations:
            break


KINDS = {"U": "int", "B": "bytes", ".": "any"}


def projects(rng, packaged):
    """specifications, what they list, and programs calling one opcode each"""
    free = rng.sample(["newop", "sumhash", "ec_add2", "falcon", "opcode9", "len_", "txnq", "append_", "log2", "b_or", "zz"], 5)
    new = []
    for i, nm in enumerate(free):
        o = {"Opcode": 230 + i, "Name": nm, "Size": 1, "Doc": "new", "Groups": ["Test"]}
        for what, ns in (("Args", [0, 1, 2, 3, 5]), ("Returns", [0, 1, 1, 2, 3])):
            x = "".join(rng.choice("UB.") for _ in range(rng.choice(ns)))
            if x:
                o[what] = x
        if rng.random() < .5:
            o.update(rng.choice([{"Size": 2, "ImmediateNote": "{uint8 depth}"}, {"Size": 3, "ImmediateNote": "{uint8 first} {uint8 second}"},
                                 {"Size": 2, "ImmediateNote": "{uint8 new field index}", "ArgEnum": ["NewA", "NewB", "Fee"], "ArgEnumTypes": "UBU"}]))
        new.append(o)
    ops = [o["Name"] for o in packaged["Ops"]]
    some = [n for n in ops if re.fullmatch("[a-z0-9_]+", n) and n not in opcodes.WORDS and n not in opcodes.KEEP and opcodes.FROZEN[n]["n"] == 0
            and not opcodes.FROZEN[n]["br"]]
    x, y, z = rng.sample(some, 3)

    def spec(add, gone):
        s = [o for o in packaged["Ops"] if o["Name"] not in gone]
        for o in add:
            s.insert(rng.randrange(len(s) + 1), o)
        return dict(packaged, Ops=s)
    specs = [packaged, spec(new[:2], []), spec([new[0], new[2]], [x]), spec([new[1], new[3]], [x, y]), spec([], [z])]
    table = []
    for s in specs:
        rows = []
        for o in s["Ops"]:
            n = max(o["Size"] - 1, 0)
            ps = (["field"] if o.get("ArgEnum") else ["int"] * n) + [KINDS[k] for k in o.get("Args", "")]
            rows.append([o["Name"], ps, [KINDS[k] for k in o.get("Returns", "")[::-1]]] if o in new or o["Name"] in (x, y, z) else [o["Name"], [], []])
        table.append(rows + [["method", [], []]])
    progs = []
    for o in new[:4] + [q for q in packaged["Ops"] if q["Name"] in (x, y, z)]:
        e = opcodes.entry(o)
        progs.append([opcodes.program(e, opcodes.call(o["Name"], e, rng), rng), o["Name"]])
    return specs, table, progs, (x, y, z)


GITHUB = "https://github.com/algorand/go-algorand/raw/{}/data/transactions/logic/langspec.json"


def C25(chk):
    packaged = json.load(open(os.path.join(REPO, "tealish", "langspec.json")))
    chk.states += tlc.model("Project", "ProjectModel.cfg", env={"D": str(chk.n(2, 4))})
    code, k = remote("project"), 0
    while True:
        rng = chk.rng(f"p{k}")
        gs = tlc.generate("Project", "ProjectGen.cfg", chk.n(64, 400), 40, chk.seed * 1000 + k, env={"D": str(chk.n(12, 20))})
        reqs, cases, meta = [], [], {}
        for h in gs[:chk.n(48, 400)]:
            specs, table, progs, gone = projects(rng, packaged)
            # the generated numbers are of places, specifications and programs
            nums = rng.sample(range(1, len(progs) + 1), 5)
            own = [0, 1] + rng.sample(range(2, len(specs) + 1), 3)
            acts = []
            for x, _ in h:
                x = dict(x, how=rng.randrange(6))
                x["t"] = nums[x["t"] - 1] if x["k"] == "compile" else own[x["t"]]
                acts.append(x)
            branch = rng.choice(["feature/avm-box", "rel/beta", "v3.15.0-stable", "feature/blob-ops", "http-fix", "blob", "my-fork"])
            places = [["master", GITHUB.format("master")], [branch, GITHUB.format(branch)],
                      ["https://example.com/specs/langspec.json", "https://example.com/specs/langspec.json"],
                      rng.choice([["https://github.com/someone/fork/blob/main/langspec.json", "https://github.com/someone/fork/raw/main/langspec.json"], ["https://github.com/someone/blobs/blob/blob-v2/x/langspec.json", "https://github.com/someone/blobs/raw/blob-v2/x/langspec.json"]]),
                      rng.choice([["http://example.com:8080/a/blob/langspec.json"] * 2, ["https://raw.githubusercontent.com/x/y/master/langspec.json"] * 2])]
            reqs.append({"op": "exec", "code": code, "timeout": 300, "arg": {"specs": [json.dumps(s) for s in specs], "places": places, "progs": progs, "acts": acts,
                         "remote": [own[i] for i in h[0][1]]}})
            cases.append(dict(specs=table, progs=[p[1] for p in progs], local=[0, 0], remote=reqs[-1]["arg"]["remote"]))
        for i, (q, cs, a) in enumerate(zip(reqs, cases, chk.pool.map(reqs))):
            if not a["acc"]:
                raise Exception("a history of commands gives no answer: " + a["msg"])
            cs.update(id=f"h{k}/{i}", h=a["out"]["h"])
            meta[cs["id"]] = {"acts": q["arg"]["acts"], "places": q["arg"]["places"], "progs": q["arg"]["progs"], "requests": a["out"]["log"]}
        chk.refine(cases, meta, module="Project")
        k += 1
        if chk.quick or chk.left() < 200 or chk.violations:
            break


def C26(chk):
    T = syntax.templates()
    k = 0
    while True:
        rng = chk.rng(f"lines{k}")
        items = []

        def add(ctx, before, line, after, was):
            if syntax.usable(ctx, line):
                items.append((ctx, before, line, after, line == was))
        if k == 0:
            for t in T:
                add(*t, t[2])
        for c, a, l, b in T:
            # every small change, or some
            some = syntax.all_single(l)
            for m in some if not chk.quick and k == 0 else rng.sample(some, min(len(some), 25)):
                add(c, a, m, b, l)
        for _ in range(chk.n(9000, 30000)):
            c, a, l, b = T[rng.randrange(len(T))]
            m = syntax.change(rng, l)
            add(c, a, syntax.change(rng, m) if rng.random() < .2 else m, b, l)
        texts = [m[0] for m in behave.pmap(behave.make, [(f"C26/{chk.seed}/{k}/{i}", [dict(STRICT, stmts=5), dict(BROAD, stmts=5), dict(FLOW, stmts=6),
                                                         dict(ROUTER, stmts=2), dict(ITXN, stmts=5), dict(STDF, stmts=5)][i % 6], i % 2)
                                                         for i in range(chk.n(120, 400))])]
        if k == 0:
            texts += [t for _, t in repo_programs() + corpus() if len(t) < 4000]
        for t in texts:
            ls, at = t.split("\n"), syntax.lines_of(t)
            for c, i in rng.sample(at, min(len(at), 25)):
                add(c, "".join(x + "\n" for x in ls[:i]), syntax.change(rng, ls[i]), "\n".join(ls[i + 1:]), ls[i])
        progs = [a + m + "\n" + b for _, a, m, b, _ in items]
        ans = chk.pool.compile(progs)
        cases, meta, read = [], {}, []
        for i, ((c, a, m, b, own), t, x) in enumerate(zip(items, progs, ans)):
            d = dict(id=f"line{k}/{i}", ctx=c, line=m, acc=bool(x["acc"]), sx=syntax.reading(c, m))
            cases.append(d)
            meta[d["id"]] = {"text": t, "line": m}
            if d["sx"] != "!":
                read.append((d["id"], t, x, own))
        chk.refine(cases, meta, module="Syntax", ignore=("bad", "line", "reading"))
        if chk.counts["reading"]:
            raise tlc.SpecError("the parser of the harness and the specification read a line differently")
        # lines that can be read: the meaning is that of the reading
        rng.shuffle(read)
        read.sort(key=lambda r: not r[3])
        cs, meta, runs = [], {}, 0
        for d, t, x, own in read[:chk.n(2500, 8000)]:
            try:
                P = tl.flatten(tl.parse_program(t), teal.inline)
            except tl.Bad:
                continue
            run = x["acc"] and len(t) < 1500 and runs < chk.n(350, 1500)
            runs += run
            cs.append(case(d, P, x if run else dict(x, teal=[], map=[], emsg=[]), chk=BEH if run else ["accept"], run=int(run), nd=1))
            meta[d] = {"text": t, "key": d}
        chk.refine(cs, meta)
        chk.extra["lines"] = chk.extra.get("lines", 0) + len(cases)
        k += 1
        if chk.quick or chk.left() < 150 or chk.violations:
            break


def pool_of(ws):
    p = Pool(0)
    p.ws = ws
    return p
