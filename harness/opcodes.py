"""Programs that call each opcode of a language specification, and changed language specifications."""
import copy
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
FROZEN = json.load(open(os.path.join(SPEC, "avm_ops.json")))
FIELDS = json.load(open(os.path.join(SPEC, "avm_fields.json")))
# names which are statements or expressions of the language
WORDS = {"return", "assert", "switch", "push", "pop", "exit", "b"}
ARRAYS = FROZEN["txna"]["f"]


def entry(o):
    """the frozen table's form of an opcode of langspec.json"""
    base = FROZEN.get(o["Name"])
    n = o["Size"] - 1
    f = o.get("ArgEnum") or (base["f"] if base and base["n"] == n else [])
    if f and o["Name"] in ("txn", "gtxn", "gtxns", "itxn", "gitxn"):
        f = [x for x in f if x not in ARRAYS]
    notes = re.findall("{[^}]*}", o.get("ImmediateNote", ""))
    fi = 0
    if f:
        fi = 1 if n == 1 else 1 + [x.endswith("field index}") for x in notes].index(True)
    return {"a": list(o.get("Args", "")), "r": list(o.get("Returns", "")), "n": n if o["Size"] else -1,
            "br": "branch" in o.get("ImmediateNote", "") or o["Name"] in ("switch", "match"), "f": f, "fi": fi}


def tables(spec):
    ops = {o["Name"]: entry(o) for o in spec["Ops"]}
    ops["method"] = FROZEN["method"]
    fields = dict(FIELDS)
    for o in spec["Ops"]:
        for f, t in zip(o.get("ArgEnum", []), o.get("ArgEnumTypes", "")):
            fields.setdefault(f, t)
    return ops, fields


def lit(rng, k, i):
    if k == "U" or (k == "." and rng.random() < .5):
        return rng.choice([str(11 + i), "0", str(2 ** 64 - 1 - i), "255", "256"])
    return rng.choice([f'"a{i}"', f'"{"xyz"[i % 3]}"', '""', f'"\\x0{i + 1}"'])


def wrong(k):
    return '"zz"' if k == "U" else "77"


def call(nm, o, rng, args=None, ims=None):
    if ims is None:
        ims = []
        for i in range(max(o["n"], 0)):
            if o["fi"] == i + 1:
                ims.append(rng.choice(o["f"]))
            elif nm == "method":
                ims.append('"add(uint64)uint64"')
            else:
                ims.append(str(rng.choice([0, 1, 2, 3, 127 if nm.startswith("frame") else 255])))
    if args is None:
        args = [lit(rng, k, i) for i, k in enumerate(o["a"])]
    return f"{nm}({', '.join(list(ims) + args)})"


def program(o, expr, rng, types=None):
    """a program with one call; types: declared types of the results, in Tealish order"""
    ks = o["r"][::-1]
    if not ks:
        body = [expr]
    elif len(ks) == 1:
        t = (types or [{"U": "int", "B": "bytes"}.get(ks[0]) or rng.choice(["int", "bytes"])])[0]
        body = [f"{t} r0 = {expr}"]
    else:
        ts = types or [{"U": "int", "B": "bytes"}.get(k) or rng.choice(["int", "bytes"]) for k in ks]
        body = [f"{t} r{i}" for i, t in enumerate(ts)] + [", ".join(f"r{i}" for i in range(len(ks))) + " = " + expr]
    return "\n".join(["#pragma version 8"] + body + ["exit(1)"]) + "\n"


def family(ops, rng, only=None, names=None):
    """[(name, text)]"""
    out = []
    for nm in sorted(only or ops):
        o = ops[nm]
        if not re.fullmatch("[a-z][A-Za-z_0-9]*", nm) or nm in WORDS:
            continue
        add = lambda what, text: out.append((f"{nm}/{what}", text))
        if o["n"] < 0 or o["br"]:
            add("notcallable", program(dict(o, r=[]), f"{nm}({', '.join(lit(rng, k, i) for i, k in enumerate(o['a']))})", rng))
            add("notcallable1", program(dict(o, r=[]), f"{nm}(1)", rng))
            continue
        add("call", program(o, call(nm, o, rng), rng))
        add("call2", program(o, call(nm, o, rng), rng))
        # arities and kinds
        args = [lit(rng, k, i) for i, k in enumerate(o["a"])]
        add("more", program(o, call(nm, o, rng, args + ["1"]), rng))
        if args:
            add("less", program(o, call(nm, o, rng, args[:-1]), rng))
            add("swapped", program(o, call(nm, o, rng, args[::-1]), rng))
        for i, k in enumerate(o["a"]):
            if k in "UB":
                add(f"kind{i}", program(o, call(nm, o, rng, args[:i] + [wrong(k)] + args[i + 1:]), rng))
            if o["fi"]:
                add(f"fieldarg{i}", program(o, call(nm, o, rng, args[:i] + [rng.choice(o["f"])] + args[i + 1:]), rng))
            add(f"enumarg{i}", program(o, call(nm, o, rng, args[:i] + [rng.choice(["Pay", "NoOp", "AssetName", "AcctBalance"])] + args[i + 1:]), rng))
        # results
        ks = o["r"][::-1]
        for i, k in enumerate(ks):
            ts = [{"U": "int", "B": "bytes"}.get(x) or "int" for x in ks]
            ts[i] = "bytes" if ts[i] == "int" else "int"
            add(f"result{i}", program(o, call(nm, o, rng), rng, ts))
        add("noresult" if ks else "result", program(dict(o, r=[] if ks else ["U"]), call(nm, o, rng), rng))
        if len(ks) > 1:
            add("fewresults", program(dict(o, r=ks[1:]), call(nm, o, rng), rng))
        # immediates
        if o["fi"]:
            for f in (o["f"] if only else rng.sample(o["f"], min(3, len(o["f"])))):
                ims = [f if o["fi"] == i + 1 else str(i) for i in range(o["n"])]
                add("field-" + f, program(o, call(nm, o, rng, None, ims), rng))
            for f in ["Nope", "fee", '"Fee"', "1", "Sender" if "Sender" not in o["f"] else "CreatableAppLanguage"]:
                ims = [f if o["fi"] == i + 1 else str(i) for i in range(o["n"])]
                add("nofield" + f.strip('"'), program(o, call(nm, o, rng, None, ims), rng))
        for i in range(o["n"]):
            if o["fi"] != i + 1:
                for bad in ["256", '"x"', "r0", "NoOp", "UNDEFINED", "1 + 1", "70000"]:
                    ims = [bad if j == i else (o["f"][0] if o["fi"] == j + 1 else str(j)) for j in range(o["n"])]
                    if nm == "method" and bad in ("NoOp",):
                        continue
                    add(f"imm{i}-{bad}", program(o, call(nm, o, rng, None, ims), rng))
                if nm != "method":
                    ims = ["KONST" if j == i else (o["f"][0] if o["fi"] == j + 1 else str(j)) for j in range(o["n"])]
                    add(f"imm{i}-const", program(o, call(nm, o, rng, None, ims), rng).replace("8\n", "8\nconst int KONST = 9\n", 1))
    for nm in names or []:
        out.append((f"unknown/{nm}", f"#pragma version 8\nint x = {nm}(1)\nexit(x)\n"))
        out.append((f"unknown2/{nm}", f"#pragma version 8\n{nm}()\nexit(1)\n"))
    return out


NEW = ["newop", "sumhash", "ec_add2", "z", "b_or", "falcon", "opcode9", "len_", "txnq", "global2", "append_", "log2"]


def accesses(ops, rng):
    """uses of the fields of transactions and global values"""
    out = []
    for nm, pre in (("global", "Global."), ("txn", "Txn."), ("gtxn", "Gtxn[0]."), ("itxn", "Itxn.")):
        fs = ops[nm]["f"]
        for f in [f for f in fs if f.startswith("New")] + rng.sample(fs, 4) + ["Nope"]:
            for t in ("int", "bytes", "uint8", "bytes[32]"):
                out.append((f"{nm}-{f}/{t}", f"#pragma version 8\n{t} x = {pre}{f}\nexit(1)\n"))
            out += [(f"{nm}-{f}/sum", f"#pragma version 8\nint x = {pre}{f} + 1\nexit(x)\n"), (f"{nm}-{f}/log", f"#pragma version 8\nlog({pre}{f})\nexit(1)\n")]
    return out


def changed(spec, rng):
    """a changed language specification, what has changed (names) and names which are no opcodes"""
    s = copy.deepcopy(spec)
    by = {o["Name"]: o for o in s["Ops"]}
    touched, gone = [], []
    free = [n for n in NEW if n not in by]
    for nm in rng.sample(free, rng.choice([1, 3, 5])):
        o = {"Opcode": 240 + len(touched), "Name": nm, "Size": 1, "Doc": "new", "Groups": ["Test"]}
        a, r = "".join(rng.choice("UB.") for _ in range(rng.randrange(5))), "".join(rng.choice("UB.") for _ in range(rng.choice([0, 1, 1, 2, 3])))
        if a:
            o["Args"] = a
        if r:
            o["Returns"] = r
        k = rng.randrange(4)
        if k == 1:
            o["Size"], o["ImmediateNote"] = 2, "{uint8 depth}"
        elif k == 2:
            o["Size"], o["ImmediateNote"] = 3, "{uint8 first} {uint8 second}"
        elif k == 3:
            o["Size"], o["ImmediateNote"] = 2, "{uint8 new field index}"
            o["ArgEnum"] = rng.sample(["NewA", "NewB", "Fee", "Sender"], 2)
            o["ArgEnumTypes"] = rng.choice(["UB", "BU", "U.", ".B", ".."])
        s["Ops"].insert(rng.randrange(len(s["Ops"]) + 1), o)
        touched.append(nm)
    removable = [n for n in by if re.fullmatch("[a-z0-9_]+", n) and n not in WORDS and by[n]["Size"] == 1 and n not in KEEP]
    for nm in rng.sample(removable, rng.choice([0, 1, 4])):
        s["Ops"].remove(by[nm])
        gone.append(nm)
    left = [n for n in removable if n not in gone]
    for nm in rng.sample(left, 3):
        o = by[nm]
        k = rng.randrange(3)
        if k == 0 and o.get("Args"):
            i = rng.randrange(len(o["Args"]))
            o["Args"] = o["Args"][:i] + rng.choice("UB.") + o["Args"][i + 1:]
        elif k == 1:
            o["Args"] = o.get("Args", "") + rng.choice("UB")
        else:
            o["Returns"] = rng.choice(["U", "B", "BU", "UUB"])
        touched.append(nm)
    for nm in ("global", "txn", "itxn_field", "acct_params_get", "asset_holding_get", "app_params_get"):
        if rng.random() < .6:
            new = [f"New{nm.title().replace('_', '')}{'ABC'[i]}" for i in range(rng.choice([1, 1, 2, 3]))]
            at = rng.choice([0, 5, 1000])
            by[nm]["ArgEnum"] = by[nm]["ArgEnum"][:at] + new + by[nm]["ArgEnum"][at:]
            by[nm]["ArgEnumTypes"] = by[nm]["ArgEnumTypes"][:at] + "".join(rng.choice("UB.") for _ in new) + by[nm]["ArgEnumTypes"][at:]
            touched.append(nm)
    if rng.random() < .4:
        by["asset_params_get"]["ArgEnum"] = by["asset_params_get"]["ArgEnum"][1:]
        by["asset_params_get"]["ArgEnumTypes"] = by["asset_params_get"]["ArgEnumTypes"][1:]
        touched.append("asset_params_get")
    return s, touched, gone


# opcodes which the compiler itself uses
KEEP = {"err", "assert", "len", "itob", "btoi", "log", "concat", "bzero", "dup", "swap", "pop", "retsub", "return", "substring3", "extract3",
        "extract_uint64", "itxn_begin", "itxn_next", "itxn_submit", "replace3", "box_extract", "box_replace", "box_create", "box_len", "sha512_256",
        "select", "dig", "sqrt", "mulw", "txnas", "gtxns", "args"}
