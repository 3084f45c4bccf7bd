"""Lines of source: their reading (as in module Syntax) and small changes of them."""
import re

import tl

WRAP = {"struct": "struct Xx:", "itxn": "inner_txn:", "switch": "switch xx:", "route": "router:"}


def num(v):
    return str(int.from_bytes(bytes(v[1]), "big"))


def form(k, *ts):
    return "(" + " ".join([k] + [t for t in ts if t != ""]) + ")"


def ex(x):
    k = x["k"]
    if k in ("int",):
        return form("int", x["src"])
    if k == "byt":
        return form("bytes", x["src"])
    if k in ("cst", "enum", "id"):
        return form({"cst": "const"}.get(k, k), x["nm"])
    if k == "un":
        return form("un", x["op"], ex(x["a"]))
    if k == "bin":
        return form("bin", x["op"], ex(x["a"]), ex(x["b"]))
    if k in ("txn", "itx", "glob", "txna", "itxa"):
        n = {"txn": "Txn", "itx": "Itxn", "glob": "Global", "txna": "Txn", "itxa": "Itxn"}[k]
        return form(n, x["f"], ex(x["ix"]) if "ix" in x else "")
    if k in ("gtxn", "gtxna"):
        return form("Gtxn", ex(x["gi"]), x["f"], ex(x["ix"]) if "ix" in x else "")
    if k == "grel":
        return form("rel", x["op"] + x["src"])
    if k == "fld":
        return form("field", x["nm"], x["f"])
    args = []
    if k == "op":
        for m in x["im"]:
            if m["t"] == "f":
                args.append(form("const" if re.fullmatch(r"[A-Z][A-Z_0-9]+", m["s"]) else "enum", m["s"]))
            else:
                args.append(form("bytes", m["s"]) if m["t"] == "m" else ex(m["e"]))
    if k == "std" and x["nm"] in ("Address", "ARC28Event"):
        args.append(form("bytes", x["src"]))
    args += [ex(a) for a in x["args"]]
    if k == "std":
        args += [tl.type_text(t) for t in x["tys"]]
    return form("call", x["nm"], *args)


def ty(t, box=False):
    if t["k"] == "unknown" or t["k"] == "box" and not box:
        raise tl.Bad("type")
    return tl.type_text(t)


def word(t):
    if not re.fullmatch(r"[A-Za-z0-9_]+", t):
        raise tl.Bad("name")
    return t


def st(x):
    k = x["k"]
    if k == "var":
        return form("var", ty(x["ty"]), x["nm"], ex(x["e"]) if x.get("e") else "")
    if k == "fasg":
        return form("set", x["nm"], x["f"], ex(x["e"]))
    if k == "asg":
        return form("assign", *x["nms"], ex(x["e"]))
    if k == "call":
        return form("do", ex(x["e"]))
    if k == "exit":
        return form("exit", ex(x["e"]))
    if k == "assert":
        return form("assert", ex(x["e"]), '"' + x["msg"] + '"' if x["msg"] else "")
    if k == "ret":
        return form("return", *[ex(e) for e in x["es"]])
    if k == "break":
        return form("break")
    if k == "box":
        return form("box", x["sn"], x["nm"], x["meth"], ex(x["e"]))
    if k == "const":
        return form("const", x["ct"], x["nm"], x["src"])
    if k == "jump":
        return form("jump", word(x["nm"]))
    if k in ("if", "while", "elif"):
        return form(k, "not" if x["neg"] else "", ex(x["e"]))
    if k in ("for", "for_"):
        return form("for", x.get("nm", "_"), ex(x["a"]), ex(x["b"]))
    if k == "switch":
        return form("switch", ex(x["e"]))
    if k == "block":
        return form("block", x["nm"])
    if k == "struct":
        return form("struct", x["nm"])
    if k == "func":
        return form("func", x["nm"], "[", *[p["nm"] + ":" + ty(p["ty"], True) for p in x["ps"]], "]",
                    *[ty(t, True) for t in x["rt"]])
    return form({"teal": "teal", "group": "inner_group", "itxn": "inner_txn", "router": "router"}[k])


def reading(ctx, line):
    """the S-expression of a line; "!": not a line"""
    try:
        if tl.strip(line).startswith("#pragma"):
            m = re.fullmatch(r"#pragma version ([0-9]+)", tl.strip(line))
            return form("pragma", m[1]) if m and ctx == "first" else "!" if ctx in ("stmt", "first") else "()"
        if ctx == "elif":
            r = tl.Reader("if 1:\n" + line + "\nend").program()
            if r[0]["elifs"]:
                return st(r[0]["elifs"][0])
            body = r[0]["body"]
            return st(body[0]) if body else "()"
        if ctx in WRAP:
            r = tl.Reader(WRAP[ctx] + "\n" + line + "\nend").program()[0]
            if ctx == "struct":
                return form("f", r["fs"][0]["nm"], ty(r["fs"][0]["ty"])) if r["fs"] else "()"
            if ctx == "itxn":
                if not r["fs"]:
                    return "()"
                f = r["fs"][0]
                return form("s", f["f"], str(f["ix"]) if f["ix"] >= 0 else "", ex(f["e"]))
            if ctx == "switch":
                if r["els"]:
                    return form("else", word(r["els"]))
                return form("o", ex(r["opts"][0]["e"]), word(r["opts"][0]["nm"])) if r["opts"] else "()"
            return form("route", word(r["rts"][0]["nm"])) if r["rts"] else "()"
        try:
            r = tl.Reader(line).program()
        except tl.Bad as e:
            if str(e) != "end of file":
                raise
            r = tl.Reader(line + "\nend").program()
        return st(r[0]) if r else "()"
    except (tl.Bad, AttributeError, TypeError, ValueError, IndexError, KeyError):
        return "!"


# ---------------------------------------------------------------------------------------------
# lines in programs: (context, text before, line, text after)

DECL = """struct Xx:
  fa: int
  fb: bytes[4]
end
const int AB = 5
const bytes CC = "cc"
int a = 1
int b = 2
bytes s = "xyz"
bytes[4] q = "abcd"
Xx x = Cast(bzero(12), Xx)
"""
SEEN = """log(itob(a))
log(itob(b))
log(s)
log(q)
log(itob(x.fa))
log(x.fb)
exit(1)
"""
FUNCS = """func ff(p: int) int:
  return p
end
func gg(p: int, r: bytes) int, bytes:
  return p, r
end
block b1:
  exit(a)
end
block b2:
  exit(0)
end
"""
STMTS = """int c
int c = 5
int c = a + 1
a = a + b
a = (a + b) * 2
a = a == (b - 1)
a = !(a && b)
a = ~ a
b = (a ^ 6) | !b
b = a % (!b + 3)
int c = (a + b) * 2
int c = a == (b - 1)
int c = !a
int c = !(a && b)
int c = ~a
uint64 c = 1_000
uint8 c = UncheckedCast(3, uint8)
bytes t
bytes t = "ab\\n\\x00\\\\ # \\" c"
bytes t = 'it'
bytes[4] t = q
bytes[3] t = Cast(s, bytes[3])
uint8[4] t = Cast(q, uint8[4])
bigint n = Cast(s, bigint)
addr n = Txn.Sender
Xx y = x
Xx y
int c = x.fa
bytes t = x.fb
a = 3
a = ff(a)
a, s = gg(a, s)
_, s = gg(a, "z")
a = ff(ff(a) + 1)
s = concat(s, "d")
a = AB
s = CC
a = Pay
a = Txn.Fee
s = Txn.ApplicationArgs[0]
s = Txn.ApplicationArgs[a + 1]
a = Gtxn[0].Amount
a = Gtxn[+1].Amount
a = Gtxn[-1].Amount
a = Gtxn[a].Amount
s = Gtxn[a].ApplicationArgs[b]
a = Itxn.CreatedAssetID
s = Itxn.Logs[1]
a = Global.LatestTimestamp
s = s b+ q
a = s b< q
s = b~ s
a = 1 + b
a = b+1
a = len(s)
s = itob(a + 1)
s = substring3(s, a, b)
a = app_global_get("k")
app_global_put("k", a)
log(s)
log("a,b)#c")
log(substring3(s, 0, 1))
assert(a)
assert(a == 1)
assert(a, "message")
assert(a == (b + 1), "it is (b), \\"quoted\\"")
exit(a)
exit(a > b)
x.fa = 3
x.fb = q
box<Xx> h = Box("k")
box<Xx> h = OpenBox(s)
box<Xx> h = CreateBox("k")
x = FromBytes(s, Xx)
x = Cast(s, Xx)
a = SizeOf(Xx)
a = SizeOf(bytes[8])
s = ToBytes(a, 8)
s = Rpad("ab", 4)
s = Lpad(s, 4)
s = Concat(s, "ab", q)
q = EnsureType(s, bytes[4])
a = Convert(s, int)
s = Address("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ")
s = ARC28Event("ev(uint64)", ToBytes(a, 8))
jump b1
# a comment
a = 3 # a comment
a = pop()
Error()
push(1)""".split("\n")
CONSTS = """const int Ac = 7
const int A_C = 12
const bytes Bc = "b\\"c"
const bytes Bc = 0x0aFF
const bigint Bc = 0x01
const addr Bc = "abc"
const bytes BC2 = "#" """.rstrip().split("\n")
FUNCLINES = ["func hh():", "func hh(p: int):", "func hh(p: int) int:", "func hh(p: int, r: bytes[4]) int, bytes:",
             "func hh(r:Xx) Xx:", "func hh(h: box<Xx>, n: uint8[4], m: bigint) uint8, addr:", "func hh() bytes[4], int, Xx:"]
FIELDS = ["fa: int", "f_b: bytes[12]", "fC: uint8[4]", "fd: Xx", "ff: uint8"]
SETTERS = ["TypeEnum: Pay", "Amount: a + 1", "Fee: 0", "Receiver: Txn.Sender", "ApplicationArgs[0]: s", "ApplicationArgs[12]: itob(a)",
           'Note: "a: b # c"']
OPTIONS = ["1: b1", "a + 1: b1", '"a: b": b1', "Pay: b2", "else: b2", "AB: b2"]
RETURNS = {"int": ["return 1", "return a + 1", "return ff(1)", "return (1 + 2)"], "int, bytes": ['return 1, "a, b"', 
           'return ff(1), concat("a", "b")', "return 1,s"], "": ["return"], "bytes": ['return "x"', "return ToBytes(1, 2)"]}


def templates():
    out = []
    out.append(("first", "", "#pragma version 8", DECL + SEEN + FUNCS))
    last, main = FUNCS, SEEN + FUNCS
    for s in STMTS:
        out.append(("stmt", DECL, s, last if re.match("exit|jump", s) else main))
    for s in CONSTS:
        out.append(("stmt", DECL, s, main))
    for s in ["if a:", "if not a == 1:", "if (a && b) || a:", "if len(s):", 'if s == "x:":']:
        out.append(("stmt", DECL, s, "  a = 2\nend\n" + main))
    for s in ["elif a:", "elif not a == 1:", "elif ff(a):"]:
        out.append(("elif", DECL + "if a:\n  a = 2\n", s, "  a = 3\nelse:\n  a = 4\nend\n" + main))
    for s in ["while a:", "while not a == 1:", "while (a + 1) > b:"]:
        out.append(("stmt", DECL, s, "  a = 2\nend\n" + main))
        out.append(("stmt", DECL + s + "\n", "break", "end\n" + main))
    for s in ["for i in 0:3:", "for i in a:b:", "for _ in 0:AB:", "for _ in a:10:"]:
        out.append(("stmt", DECL, s, "  a = 2\nend\n" + main))
    for s in ["switch a:", "switch len(s):", "switch (a + 1) % 2:"]:
        out.append(("stmt", DECL, s, "  1: b1\n  else: b2\nend\n" + last))
    for s in OPTIONS:
        out.append(("switch", DECL + ('switch s:\n' if '"' in s else "switch a:\n"), s, "end\n" + last))
    for s in SETTERS:
        pre = "  TypeEnum: Appl\n" + "".join(f"  ApplicationArgs[{i}]: s\n" for i in range(12 if "12" in s else 0)) if "Ar" in s else ""
        out.append(("itxn", DECL + "inner_txn:\n" + pre, s, "end\n" + main))
    for s in FIELDS:
        out.append(("struct", "struct Xx:\n  aa: int\nend\nstruct Yy:\n", s, "end\nYy y\nexit(1)\n"))
    for s in FUNCLINES:
        t = s.partition(")")[2].rstrip(":")
        rs = [r.strip() for r in t.split(",")] if t.strip() else []
        # (one return with values of these types)
        v = {"int": "1", "bytes": '"x"', "bytes[4]": 'Cast("abcd", bytes[4])', "Xx": "Cast(bzero(12), Xx)", "uint8": "Cast(3, uint8)",
             "addr": "Txn.Sender"}
        body = "  return " + ", ".join(v[r] for r in rs) if rs else "  return"
        out.append(("stmt", DECL + "exit(1)\n", s, body + "\nend\n" + last))
    for t, ss in RETURNS.items():
        for s in ss:
            out.append(("stmt", DECL + "exit(1)\nfunc hh() " + t + ":\n", s, "end\n" + last))
    out.append(("stmt", DECL + SEEN + FUNCS, "block b3:", "  exit(1)\nend\n"))
    out.append(("stmt", "", "struct Zz:", "  fa: int\nend\n" + DECL + main))
    for s in ["inner_group:"]:
        out.append(("stmt", DECL, s, "  inner_txn:\n    TypeEnum: Pay\n  end\nend\n" + main))
    out.append(("stmt", DECL, "inner_txn:", "  TypeEnum: Pay\nend\n" + main))
    out.append(("stmt", DECL, "teal:", "  int 1\n  pop\nend\n" + main))
    route = "@public()\nfunc rr(p: int):\n  log(itob(p))\n  return\nend\n@public(OnCompletion=OptIn)\nfunc r2():\n  return\nend\n"
    out.append(("stmt", "", "router:", "  rr\n  r2\nend\n" + route))
    out.append(("route", "router:\n  r2\n", "rr", "end\n" + route))
    return out


ALPHABET = list(" \t_.,:;#\"'()[]<>{}=!~+-*/%&|^\\$@?") + list("0123456789abxfnotXA") + ["é", "ß", "٣", "ⅷ", "٣", "८"]
TOKENS = ["not ", "not", "end", "else", "==", "&&", "||", "b+", "b==", "b~", "()", "[0]", "[4]", "(a)", ", a", "a, ", " = ", " : ", "  ", "0x", "0x1",
          "Txn.", "int ", "int", "bytes[4]", "Cast(", ")", "_", "__", "1_", "\\x", "\\'", "\\\"", '"', '""', "# ", " #", "//", ": b1", ":", "=", "-1", "+1"]


def change(rng, s):
    """a small change of a line"""
    k = rng.randrange(8)
    i = rng.randrange(len(s) + 1)
    if k == 0:
        return s[:i] + s[i + 1:]
    if k in (1, 2):
        return s[:i] + rng.choice(ALPHABET) + s[i:]
    if k == 3:
        return s[:i] + rng.choice(ALPHABET) + s[i + 1:]
    if k == 4 and i < len(s) - 1:
        return s[:i] + s[i + 1] + s[i] + s[i + 2:]
    if k == 5:
        return s[:i] + rng.choice(TOKENS) + s[i:]
    ts = list(re.finditer(r"[A-Za-z0-9_]+|\s+|[^\sA-Za-z0-9_]", s))
    if not ts:
        return s + rng.choice(TOKENS)
    t = rng.choice(ts)
    a, b = t.span()
    if k == 6:
        return s[:a] + rng.choice(["", t[0] + t[0], t[0] + " ", " " + t[0], "(" + t[0] + ")", '"' + t[0] + '"', t[0].upper(), t[0].lower(), t[0] + "[0]",
                                   t[0] + "." + t[0], rng.choice(ts)[0], rng.choice(TOKENS)]) + s[b:]
    u = rng.choice(ts)
    return s[:a] + u[0] + s[b:]


def all_single(s):
    """all deletions, doublings and swaps of characters, and blanks everywhere"""
    out = []
    for i in range(len(s)):
        out += [s[:i] + s[i + 1:], s[:i] + s[i] + s[i:], s[:i] + " " + s[i:]]
        if i + 1 < len(s):
            out.append(s[:i] + s[i + 1] + s[i] + s[i + 2:])
    return out


def usable(ctx, line):
    s = tl.strip(line)
    return not (s in ("end", "else:") or s.startswith("@") or "\n" in line or ctx in ("stmt", "first") and s.startswith("elif "))


def lines_of(text):
    """(context, number) of the lines of a program that can be changed"""
    out, ctx = [], "stmt"
    for i, l in enumerate(text.split("\n")):
        s = tl.strip(l)
        if ctx != "stmt":
            if s == "end":
                ctx = "stmt"
            elif ctx != "teal":
                out.append((ctx, i))
            continue
        if s.startswith("elif "):
            out.append(("elif", i))
        elif s not in ("end", "else:") and not s.startswith("@") and not s.startswith("#pragma"):
            out.append(("stmt", i))
        ctx = "struct" if s.startswith("struct ") else "switch" if s.startswith("switch ") else \
            {"inner_txn:": "itxn", "router:": "route", "teal:": "teal"}.get(s, "stmt")
    return out
