"""Checks that compare the behaviour of compiled programs with the Tealish machine (module Refine)."""
import copy
import json
import random
from concurrent.futures import ProcessPoolExecutor

import mutate
from common import case, corpus, findings, repo_programs, gen, tl, teal, NCPU
import os


def cands(rng):
    """values of the environment"""
    ints = [0, 1, 2, 5, 255, 256, 2 ** 32, 2 ** 63, 2 ** 64 - 1]
    byts = [b"", b"\x05", b"abcdefgh", b"\x00" * 8, b"\xff" * 8, b"0123456789abcdef", b"\x01" * 32, b"key"]
    ci = [tl.iv(x) for x in rng.sample(ints[:3], 2) + rng.sample(ints[3:], 1)]
    cb = [tl.bv(x) for x in rng.sample(byts, 2)]
    return ci, cb


def make(args):
    """one generated program: (text, flat form)"""
    key, prof, style = args
    rng = random.Random(key)
    g = gen.G(rng, **prof)
    body = g.program()
    st = tl.Style(rng, comments=True) if style else None
    text = tl.Writer(st).program(body, 8)
    return text, tl.flatten(body, teal.inline), cands(rng)


_EX = None


def sized(t, size):
    """size in bytes of a type (0: any)"""
    return size.get(t["n"], 0) if t["k"] in ("struct", "box") else t["s"]


def router_env(rng, body):
    """calls of the routes of a program and of others, with each completion and arguments that fit or not"""
    size = {}
    for x in body:
        if x["k"] == "struct":
            size[x["nm"]] = sum(sized(f["ty"], size) for f in x["fs"])
    fs = {x["nm"]: x for x in body if x["k"] == "func"}
    rts = [x for x in tl.walk(body) if x["k"] == "router"][0]["rts"]
    names = [r["nm"].encode() for r in rts]
    other = [b"", names[0][:-1], names[0] + b"x", names[-1].upper(), b"\x00" + names[0], names[0] + b"\x00"]
    other += [n.encode() for n in fs if n.encode() not in names]
    vals = [[tl.bv(n)] for n in names + rng.sample(other, 2)]
    env = [dict(q="txn", f="ApplicationArgs", w=[tl.w8(0)], v=vals)]
    for i in range(1, 4):
        vs = []
        for r in rts:
            f = fs[r["nm"]]
            if len(f["ps"]) >= i:
                t = f["ps"][i - 1]["ty"]
                n = sized(t, size)
                if t["k"] in ("int", "uint"):
                    vs += [rng.choice([b"\x00" * 7 + b"\x05", (2 ** 64 - 1).to_bytes(8, "big"), bytes(range(8))]), b"\xff", b"\x01\x00"]
                    vs += rng.sample([b"", b"\x00" * 9, b"\x00" * 8 + b"\x01"], 1)
                elif n == 0:
                    vs += [b"", b"arg%d" % i]
                else:
                    full = bytes((7 * j + i) % 256 for j in range(n))
                    vs += [full, rng.choice([full[:-1], full + b"\x00"])]
        env.append(dict(q="txn", f="ApplicationArgs", w=[tl.w8(i)], v=[[tl.bv(v)] for v in dict.fromkeys(vs or [b"z"])]))
    ocs = {0, rng.randrange(6)} | {tl.BUILTINS.index(f["oc"]) for f in fs.values() if f["oc"] != "CreateApplication"}
    env.append(dict(q="txn", f="OnCompletion", w=[], v=[[tl.iv(o)] for o in sorted(ocs)[:3]]))
    env.append(dict(q="txn", f="ApplicationID", w=[], v=[[tl.iv(0)], [tl.iv(77)]]))
    return env


def make_router(args):
    """a program with a router, called with each of its names and others, each completion and arguments that fit or not"""
    key, prof, style = args
    rng = random.Random(key)
    g = gen.G(rng, **prof)
    body = g.program()
    fs = {x["nm"]: x for x in body if x["k"] == "func"}
    for f in fs.values():
        if f["oc"] == "NoOp" and rng.random() < .3:
            f["ocw"] = True
        for p in reversed(f["ps"]):
            if rng.random() < .8:
                v = tl.N("id", nm=p["nm"])
                if p["ty"]["k"] in ("int", "uint"):
                    v = tl.N("op", nm="itob", im=[], args=[v])
                f["body"].insert(0, tl.N("call", e=tl.N("op", nm="log", im=[], args=[v])))
    env = router_env(rng, body)
    st = tl.Style(rng, comments=True) if style else None
    text = tl.Writer(st).program(body, 8)
    return text, tl.flatten(body, teal.inline), cands(rng), dict(env=env)


ODD = ["end1", "ender", "end_", "return_", "returned", "returns1", "ifx", "if_", "iffy", "else_", "elsee", "elif1", "whiley", "while_",
       "for_x", "fort", "func1", "funcs", "block1", "blocks", "jump_", "jumps", "exit1", "exits", "assert1", "asserts", "const1", "consts",
       "struct1", "structx", "switch1", "router1", "routers", "teal1", "inner_txn1", "inner_group_", "break1", "breaks", "not_", "nota",
       "notb", "int1", "ints", "bytes1", "bytess", "box1", "boxes", "uint8_", "push", "pop", "txn", "global_", "arg", "b", "bz", "err",
       "sha256", "l0_end", "bnz", "callsub", "retsub", "store", "dup", "addr", "byte", "main", "f", "in1", "into", "x" * 90, "aB_9", "z__2",
       "l1_while", "l2_for", "b0", "bb", "bx", "e", "publicx", "bytes_", "int_", "struct_s", "label", "pragma", "define", "method", "len"]
ODDF = [n for n in ODD if n not in tl.OPS and n not in ("method", "push", "pop")] + ["route_f", "route_x__2", "itxn_begin1", "block_f", "func_block"]
ODDB = ODD + ["END", "If", "0", "12", "3rd", "_", "__", "A_B", "B", "route_f", "else1", "K1", "TypeEnum1", "Sender_", "default"]
ODDC = ["IF", "END", "INT", "BYTES", "A1", "Z_", "TXN", "B_", "CONST", "FOR", "K" * 60, "AB__2", "NOT", "X0", "TYPE_ENUM", "RETURN", "P_Q_R", "AA",
        "AAA", "AAAA", "A_", "OP", "ERR"]


def rename(rng, body):
    """consistently rename variables, functions, blocks and constants"""
    keep = {r["nm"] for x in tl.walk(body) if x["k"] == "router" for r in x["rts"]}
    pools = {"v": ODD, "f": [n for n in ODDF if n not in keep], "b": ODDB, "c": ODDC}
    maps = {k: {} for k in pools}
    odd = rng.choice([.3, .8, 1])

    def new(kind, nm):
        m = maps[kind]
        if nm not in m:
            used = set(m.values()) | keep
            free = [n for n in pools[kind] if n not in used]
            if (kind == "f" and nm in keep) or nm == "_":
                m[nm] = nm
            elif free and rng.random() < odd:
                m[nm] = rng.choice(free)
            else:
                k = len(m)
                while f"{'QR'[k % 2] if kind == 'c' else 'qr'[k % 2]}{k}" in used:
                    k += 1
                m[nm] = f"{'QR'[k % 2] if kind == 'c' else 'qr'[k % 2]}{k}"
        return m[nm]
    for x in tl.walk(body):
        k = x["k"]
        if k in ("var", "box", "fasg", "id", "fld", "for"):
            x["nm"] = new("v", x["nm"])
        elif k == "asg":
            x["nms"] = [new("v", n) for n in x["nms"]]
        elif k in ("func", "ucall"):
            x["nm"] = new("f", x["nm"])
            for p in x.get("ps", []):
                p["nm"] = new("v", p["nm"])
        elif k in ("block", "jump", "opt"):
            x["nm"] = new("b", x["nm"])
        elif k == "switch" and x["els"]:
            x["els"] = new("b", x["els"])
        elif k in ("const", "cst"):
            x["nm"] = new("c", x["nm"])
    return body


def make_renamed(args):
    """a generated program whose names and layout are changed, with the original syntax tree"""
    key, prof, style = args
    rng = random.Random(key)
    g = gen.G(rng, **prof)
    body = g.program()
    tl.Writer(None).program(body, 8)
    P = tl.flatten(body, teal.inline)
    other = copy.deepcopy(body)
    if rng.random() < .7:
        rename(rng, other)
    text = tl.Writer(tl.Style(rng, comments=True)).program(other, 8)
    return text, P, cands(rng)


def make_local(args):
    """a generated program with one changed statement"""
    return make_mutant(args, mutate.LOCAL)


def make_mutant(args, kinds=None):
    """a changed generated program; None if its text does not have that syntax tree"""
    key, prof, style = args
    rng = random.Random(key)
    g = gen.G(rng, **prof)
    body = mutate.M(rng).mutate(g.program(), 1 if kinds else rng.choice([1, 1, 1, 2]), kinds)
    if body is None:
        return None
    try:
        st = tl.Style(rng, comments=True) if style else None
        text = tl.Writer(st).program(body, 8)
        P = tl.flatten(body, teal.inline)
        if json.dumps(P, sort_keys=True) != json.dumps(tl.flatten(tl.parse_program(text), teal.inline), sort_keys=True):
            return None
    except (tl.Bad, KeyError, TypeError):
        return None
    return text, P, cands(rng)


def pmap(f, xs):
    global _EX
    if _EX is None:
        _EX = ProcessPoolExecutor(NCPU)
    return list(_EX.map(f, xs, chunksize=max(1, len(xs) // (NCPU * 4))))


def program_case(id, text, ans, P=None, **kw):
    if P is None:
        P = tl.flatten(tl.parse_program(text), teal.inline)
    return case(id, P, ans, **kw)


def batch(chk, tag, n, profiles, want, style=False, maker=None, **kw):
    """n generated programs"""
    keys = [f"{chk.prop}/{chk.seed}/{tag}/{i}" for i in range(n)]
    made = pmap(maker or make, [(k, profiles[i % len(profiles)], style) for i, k in enumerate(keys)])
    keys = [k for k, m in zip(keys, made) if m]
    made = [m for m in made if m]
    ans = chk.pool.compile([m[0] for m in made])
    cases, meta = [], {}
    for k, (text, P, (ci, cb), *more), a in zip(keys, made, ans):
        c = case(k, P, a, **dict(dict(chk=want, ci=ci, cb=cb), **kw, **(more[0] if more else {})))
        cases.append(c)
        meta[k] = {"text": text, "key": k}
    if len(chk.samples) < 2 and made:
        chk.samples.append({"program": made[0][0][:1500]})
    return cases, meta


def files(chk, want, repo=True, **kw):
    cases, meta = [], {}
    progs = corpus() + (repo_programs() if repo else [])
    good = []
    for n, t in progs:
        try:
            good.append((n, t, tl.flatten(tl.parse_program(t), teal.inline)))
        except tl.Bad:
            pass
    ans = chk.pool.compile([t for _, t, _ in good])
    for (n, t, P), a in zip(good, ans):
        k = "file:" + n
        d = dict(chk=want, nd=3, fuel=3000)
        d.update(kw)
        cases.append(case(k, P, a, **d))
        meta[k] = {"text": t, "key": k}
    for f in findings(chk.prop):
        t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), f["program"])).read()
        P = tl.flatten(tl.parse_program(t), teal.inline)
        k = "finding:" + f["program"]
        cases.append(case(k, P, chk.pool.compile([t])[0], chk=want, nd=3, fuel=3000))
        meta[k] = {"text": t, "key": k, "finding": f}
    return cases, meta


def behaviour(chk, profiles, want, quick=300, nd=2, repo=True, big=1200, **kw):
    cases, meta = files(chk, want, repo)
    c2, m2 = batch(chk, "0", quick, profiles, want, nd=nd, **kw)
    meta.update(m2)
    chk.refine(cases + c2, meta)
    k = 1
    while not chk.quick and chk.left() > 60 and not chk.violations:
        c, m = batch(chk, str(k), big, profiles, want, nd=nd + k % 2, style=k % 3 == 2, **kw)
        chk.refine(c, m)
        k += 1
    chk.extra["programs"] = chk.cases


def close():
    global _EX
    if _EX is not None:
        _EX.shutdown(cancel_futures=True)
        _EX = None
