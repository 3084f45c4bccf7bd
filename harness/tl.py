"""Tealish abstract syntax: reading source text, writing source text, and the flat form used by the
TLA+ specification.  Independent of the compiler under test.

A node is a dict with its kind in "k"; KIDS gives the fields that hold child nodes.
"""
import base64
import hashlib
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
OPS = json.load(open(os.path.join(HERE, "..", "spec", "avm_ops.json")))
FIELDS = json.load(open(os.path.join(HERE, "..", "spec", "avm_fields.json")))
STD = ["Error", "Convert", "Cast", "UncheckedCast", "EnsureType", "ToBytes", "FromBytes", "SizeOf",
       "Rpad", "Lpad", "Concat", "Address", "ARC28Event"]
TYPE_ARGS = {"Convert", "Cast", "UncheckedCast", "EnsureType", "FromBytes", "SizeOf"}
SINGLE = {"a", "b", "e", "ix", "gi"}
LISTS = {"args", "body", "elifs", "els", "opts", "es", "fs"}
KIDS = {
    "var": ["e"], "asg": ["e"], "box": ["e"], "fasg": ["e"], "exit": ["e"], "call": ["e"], "assert": ["e"],
    "if": ["e", "body", "elifs", "els"], "elif": ["e", "body"], "while": ["e", "body"],
    "for": ["a", "b", "body"], "for_": ["a", "b", "body"], "switch": ["e", "opts"], "opt": ["e"],
    "router": [], "jump": [], "ret": ["es"], "break": [], "teal": [], "itxn": ["fs"], "fs": ["e"],
    "group": ["body"], "const": [], "func": ["body"], "block": ["body"], "struct": [],
    "int": [], "byt": [], "cst": [], "enum": [], "id": [], "un": ["a"], "bin": ["a", "b"],
    "ucall": ["args"], "op": ["args"], "std": ["args"], "txn": [], "itx": [], "glob": [],
    "txna": ["ix"], "itxa": ["ix"], "gtxn": ["gi"], "gtxna": ["gi", "ix"], "grel": [], "fld": [],
    "comment": [], "blank": [], "gix": [],
}
STMTS = ["var", "asg", "box", "fasg", "exit", "call", "assert", "if", "while", "for", "for_", "switch",
         "router", "jump", "ret", "break", "teal", "itxn", "group", "const", "func", "block", "struct"]
BUILTINS = ["NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication",
            "Pay", "Acfg", "Axfer", "Afrz", "Appl"]


class Bad(Exception):
    """The text is not Tealish"""


def w8(n):
    if int(n) >= 2 ** 64:
        raise Bad("number")
    return list(int(n).to_bytes(8, "big"))


def iv(n):
    return ["i", w8(n)]


def bv(b):
    return ["b", list(b)]


def N(k, **f):
    f["k"] = k
    return f


def decode(text):
    """bytes of a string literal without its quotes"""
    out, i = b"", 0
    while i < len(text):
        c = text[i]
        if c != "\\":
            out += c.encode()
            i += 1
            continue
        n = text[i + 1] if i + 1 < len(text) else ""
        if n == "x":
            if not re.match(r"[0-9a-fA-F]{2}", text[i + 2:i + 4]):
                raise Bad("escape")
            out += bytes([int(text[i + 2:i + 4], 16)])
            i += 4
        elif n in "nrt\\\"'" and n:
            out += {"n": b"\n", "r": b"\r", "t": b"\t"}.get(n, n.encode())
            i += 2
        else:
            raise Bad("escape")
    return out


def address(text):
    """public key of an Algorand address"""
    try:
        raw = base64.b32decode(text + "=" * (-len(text) % 8))
    except Exception:
        return b""
    if len(text) != 58 or len(raw) != 36:
        return b""
    return raw[:32] if hashlib.new("sha512_256", raw[:32]).digest()[-4:] == raw[32:] else b""


def make_address(key):
    raw = key + hashlib.new("sha512_256", key).digest()[-4:]
    return base64.b32encode(raw).decode().rstrip("=")


# ---------------------------------------------------------------------------------------------
# types: written form <-> record

def type_rec(t):
    t = t.strip()
    if t in ("int", "uint64"):
        return {"k": "int", "s": 8, "n": ""}
    if t == "uint8":
        return {"k": "uint", "s": 1, "n": ""}
    if t in ("bytes", "bigint", "addr"):
        return {"k": t, "s": 0, "n": ""}
    m = re.fullmatch(r"(bytes|uint8)\[([0-9]+)\]", t)
    if m:
        return {"k": "bytes" if m[1] == "bytes" else "array", "s": int(m[2]), "n": ""}
    m = re.fullmatch(r"box<([A-Z][a-zA-Z0-9_]+)>", t)
    if m:
        return {"k": "box", "s": 0, "n": m[1]}
    if re.fullmatch(r"[A-Z][a-zA-Z0-9_]+", t):
        return {"k": "struct", "s": 0, "n": t}
    return {"k": "unknown", "s": 0, "n": t}


# ---------------------------------------------------------------------------------------------
# expressions

BINOP = re.compile(r"b==|b!=|b>=|b<=|==|>=|<=|!=|&&|\|\||b[-+/*%><|&^]|[-+*/%><|&^]")
NUMBER = re.compile(r"[0-9]+(?:_[0-9]+)*(?![0-9_])")
STRING = re.compile(r"\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*'")
NAME = re.compile(r"[A-Za-z][A-Za-z0-9_]*")
TYPE = re.compile(r"(?:[a-z][A-Za-z0-9_]*|[A-Z][A-Za-z0-9_]+)(?:\[[0-9]+\])?")
FIELD = re.compile(r"[A-Z][A-Za-z_]+")


class Expr:
    """reader of an expression"""

    def __init__(self, text):
        self.s = text
        self.i = 0

    def blanks(self):
        while self.s[self.i:self.i + 1] in (" ", "\t"):
            self.i += 1

    def at(self, w, blanks=True):
        if blanks:
            self.blanks()
        return self.s.startswith(w, self.i)

    def skip(self, w, blanks=True):
        if not self.at(w, blanks):
            raise Bad(f"expected {w} at {self.s[self.i:]}")
        self.i += len(w)

    def maybe(self, w, blanks=True):
        ok = self.at(w, blanks)
        if ok:
            self.i += len(w)
        return ok

    def take(self, rx):
        """what a pattern matches here"""
        m = rx.match(self.s, self.i)
        if not m:
            raise Bad(f"at {self.s[self.i:]}")
        self.i = m.end()
        return m[0]

    def whole(self):
        e = self.expr()
        self.blanks()
        if self.i != len(self.s):
            raise Bad("trailing")
        return e

    def operator(self):
        self.blanks()
        m = BINOP.match(self.s, self.i)
        return m[0] if m else ""

    def expr(self):
        a = self.value()
        return self.binary(a) if self.operator() else a

    def binary(self, a):
        op = self.operator()
        if not op:
            raise Bad("group")
        self.i += len(op)
        return N("bin", op=op, a=a, b=self.value())

    def index(self):
        self.blanks()
        if self.s[self.i:self.i + 1] in ("+", "-"):
            op = self.s[self.i]
            self.i += 1
            self.blanks()
            n = self.take(re.compile(r"[0-9]+"))
            return N("grel", op=op, v=iv(int(n)), src=n)
        return self.expr()

    def bracket(self):
        """an index, if there is one"""
        if not self.maybe("["):
            return None
        e = self.expr()
        self.skip("]")
        return e

    def value(self):
        self.blanks()
        s, i = self.s, self.i
        c = s[i:i + 1]
        if self.maybe("("):
            e = self.binary(self.value())
            self.skip(")")
            return e
        for op in ("!", "~", "b~"):
            if self.maybe(op):
                return N("un", op=op, a=self.value())
        if c.isdigit():
            v = self.take(NUMBER)
            return N("int", v=iv(int(v)), src=v)
        if c and c in "\"'":
            v = self.take(STRING)
            return N("byt", v=bv(decode(v[1:-1])), src=v)
        v = self.take(NAME)
        low, z = v[0].islower(), self.i
        if (low or len(v) > 1) and self.maybe("("):
            return self.call(v)
        self.i = z
        if not low and len(v) < 2:
            raise Bad("one letter")
        if v in ("Txn", "Itxn", "Global") and self.maybe(".", False):
            self.blanks()
            f = self.take(FIELD)
            z = self.i
            ix = None if v == "Global" else self.bracket()
            if ix is None:
                self.i = z
                return N({"Txn": "txn", "Itxn": "itx", "Global": "glob"}[v], f=f)
            return N({"Txn": "txna", "Itxn": "itxa"}[v], f=f, ix=ix)
        if v == "Gtxn" and self.maybe("[", False):
            gi = self.index()
            self.skip("].")
            self.blanks()
            f = self.take(FIELD)
            z = self.i
            ix = self.bracket()
            if ix is None:
                self.i = z
                return N("gtxn", f=f, gi=gi)
            return N("gtxna", f=f, gi=gi, ix=ix)
        if low and self.maybe("."):
            self.blanks()
            f = self.take(NAME)
            if not f[0].islower():
                raise Bad("field")
            return N("fld", nm=v, f=f)
        if low:
            self.i = z
            return N("id", nm=v)
        return N("cst" if re.fullmatch(r"[A-Z][A-Z_0-9]+", v) else "enum", nm=v)

    def arglist(self):
        """argument nodes, up to the closing parenthesis"""
        args = []
        while not self.maybe(")"):
            if args:
                self.skip(",")
            args.append(self.expr())
        return args

    def type(self):
        self.blanks()
        return type_rec(self.take(TYPE))

    def types(self):
        """type arguments are names, possibly sized"""
        out = []
        while not self.maybe(")"):
            self.skip(",")
            out.append(self.type())
        return out

    def call(self, nm):
        if nm in STD:
            if nm in TYPE_ARGS:
                args = [] if nm == "SizeOf" else [self.expr()]
                return N("std", nm=nm, args=args, tys=([self.type()] if nm == "SizeOf" else []) + self.types())
            args = self.arglist()
            if nm in ("Address", "ARC28Event"):
                if not args or args[0]["k"] != "byt":
                    raise Bad(nm)
                lit = args.pop(0)
                data = bytes(lit["v"][1])
                v = address(data.decode("latin1")) if nm == "Address" else \
                    hashlib.new("sha512_256", data).digest()[:4]
                return N("std", nm=nm, args=args, tys=[], v=bv(v), src=lit["src"])
            return N("std", nm=nm, args=args, tys=[])
        args = self.arglist()
        if nm in ("push", "pop", "bzero"):
            return N("std", nm=nm, args=args, tys=[])
        if nm in OPS:
            n = max(OPS[nm]["n"], 0)
            im = []
            for i, a in enumerate(args[:n]):
                if OPS[nm]["fi"] == i + 1 and a["k"] in ("enum", "cst"):
                    im.append({"t": "f", "s": a["nm"]})
                elif nm == "method" and a["k"] == "byt":
                    im.append({"t": "m", "s": a["src"], "src": a["src"]})
                else:
                    im.append({"t": "e", "e": a})
            return N("op", nm=nm, im=im, args=args[n:])
        return N("ucall", nm=nm, args=args)


def parse_expr(text):
    return Expr(text).whole()


# ---------------------------------------------------------------------------------------------
# statements

def strip(line):
    """a source line without indentation and trailing comment"""
    line = line.strip()
    if line.startswith("#"):
        return line
    q = ""
    i = 0
    while i < len(line):
        ch = line[i]
        if q:
            if ch == "\\":
                i += 1
            elif ch == q:
                q = ""
        elif ch in "\"'":
            q = ch
        elif ch == "#":
            return line[:i].strip()
        i += 1
    return line


def split_commas(s):
    out, depth, q, cur = [], 0, "", ""
    i = 0
    while i < len(s):
        ch = s[i]
        if q:
            if ch == "\\":
                cur += ch
                i += 1
                ch = s[i] if i < len(s) else ""
            elif ch == q:
                q = ""
        elif ch in "\"'":
            q = ch
        elif ch in "([":
            depth += 1
        elif ch in ")]":
            depth -= 1
        elif ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            i += 1
            continue
        cur += ch
        i += 1
    out.append(cur.strip())
    return out


class Reader:
    def __init__(self, text):
        self.lines = text.split("\n")
        self.i = 0

    def peek(self):
        if self.i >= len(self.lines):
            raise Bad("end of file")
        return strip(self.lines[self.i])

    def next(self):
        s = self.peek()
        self.i += 1
        return s, self.i

    def program(self):
        body = []
        while self.i < len(self.lines):
            body += self.stmt()
        return body

    def body(self, *ends):
        out = []
        while not any(self.peek() == e or (e.endswith(" ") and self.peek().startswith(e)) or
                      (e == "else:" and self.peek().startswith(e)) for e in ends):
            out += self.stmt()
        return out

    def stmt(self):
        s, ln = self.next()
        n = self.read(s, ln)
        for x in n:
            x["ln"] = ln if "ln" not in x else x["ln"]
        return n

    def cond(self, s):
        neg = s.startswith("not ")
        return neg, parse_expr(s[4:] if neg else s)

    def read(self, s, ln):
        if s == "" or s.startswith("#"):
            return []
        m = re.match(r"(if|while) (.*):$", s)
        if m:
            neg, e = self.cond(m[2])
            if m[1] == "while":
                body = self.body("end")
                self.next()
                return [N("while", neg=neg, e=e, body=body)]
            body = self.body("end", "elif ", "else:")
            elifs, els, has = [], [], False
            while True:
                t, l = self.next()
                if t == "end":
                    break
                if t.startswith("elif "):
                    m = re.match(r"elif (.*):$", t)
                    if not m:
                        raise Bad("elif")
                    neg2, e2 = self.cond(m[1])
                    elifs.append(N("elif", neg=neg2, e=e2, ln=l, body=self.body("end", "elif ", "else:")))
                else:
                    if t != "else:":
                        raise Bad("else")
                    els, has = self.body("end"), l
            return [N("if", neg=neg, e=e, body=body, elifs=elifs, els=els, hasElse=has)]
        m = re.match(r"for ([a-z_][a-zA-Z0-9_]*) in ([a-zA-Z0-9_]+):([a-zA-Z0-9_]+):$", s)
        if m:
            body = self.body("end")
            self.next()
            a, b = parse_expr(m[2]), parse_expr(m[3])
            if m[1] == "_":
                return [N("for_", a=a, b=b, body=body)]
            return [N("for", nm=m[1], a=a, b=b, body=body)]
        m = re.match(r"block ([a-zA-Z_0-9]+):$", s)
        if m:
            body = self.body("end")
            self.next()
            return [N("block", nm=m[1], body=body)]
        if s.startswith("switch "):
            m = re.match(r"switch (.*):$", s)
            opts, els = [], ""
            while True:
                t, l = self.next()
                if t == "end":
                    break
                if t == "" or t.startswith("#"):
                    continue
                k, _, b = t.rpartition(": ")
                if not re.fullmatch(r"[A-Za-z0-9_]+", b):
                    raise Bad("option")
                if k == "else":
                    els = b
                else:
                    opts.append(N("opt", e=parse_expr(k), nm=b, ln=l))
            if not m:
                raise Bad("switch")
            return [N("switch", e=parse_expr(m[1]), opts=opts, els=els)]
        if s.startswith("@"):
            pub, oc = False, "NoOp"
            while not s.startswith("func "):
                m = re.match(r"@([a-zA-Z_]+)\((.*)\)$", s)
                if m:
                    pub = pub or m[1] == "public"
                    if m[2].strip() and m[1] == "public":
                        oc = m[2].split("=")[1].strip()
                s, ln = self.next()
            return [dict(self.func(s, ln), pub=pub, oc=oc)]
        if s.startswith("func "):
            return [self.func(s, ln)]
        if s == "teal:":
            ins = []
            while True:
                t, l = self.next()
                if t == "end":
                    break
                if t and not (t.startswith("#") and not re.match(r"#(pragma|define) ", t)):
                    ins.append([t, l])
            return [N("teal", lines=ins)]
        if s == "inner_group:":
            body = self.body("end")
            self.next()
            return [N("group", body=body)]
        if s == "inner_txn:":
            fs = []
            while True:
                t, l = self.next()
                if t == "end":
                    break
                if t == "" or t.startswith("#"):
                    continue
                m = re.match(r"([A-Z][A-Za-z0-9_]*)(?:\[([0-9]{1,2})\])?: (.*)$", t)
                if not m:
                    raise Bad("field")
                fs.append(N("fs", f=m[1], ix=int(m[2]) if m[2] is not None else -1, e=parse_expr(m[3]), ln=l))
            return [N("itxn", fs=fs)]
        if s.startswith("struct "):
            m = re.match(r"struct ([A-Z][a-zA-Z_0-9]*):$", s)
            fs = []
            while True:
                t, l = self.next()
                if t == "end":
                    break
                if t == "" or t.startswith("#"):
                    continue
                f = re.fullmatch(r"([a-z][A-Za-z0-9_]*): (\S+)", t)
                if not f:
                    raise Bad("field")
                fs.append({"nm": f[1], "ty": type_rec(f[2]), "ln": l, "tt": f[2]})
            if not m:
                raise Bad("struct")
            return [N("struct", nm=m[1], fs=fs)]
        if s == "router:":
            rts = []
            while True:
                t, l = self.next()
                if t == "end":
                    break
                if t == "" or t.startswith("#"):
                    continue
                rts.append({"nm": t, "b": list(t.encode()), "ln": l})
            return [N("router", rts=rts)]
        return [self.line(s)]

    def func(self, s, ln):
        m = re.match(r"func ([a-zA-Z_0-9]+)\(([^)]*)\)(.*):$", s)
        if not m:
            raise Bad("func")
        ps = []
        for p in split_commas(m[2]) if m[2].strip() else []:
            f = re.fullmatch(r"([a-z][A-Za-z0-9_]*):\s*(\S+)", p)
            if not f:
                raise Bad("parameter")
            ps.append({"nm": f[1], "ty": type_rec(f[2]), "tt": f[2]})
        rt = [t.strip() for t in m[3].split(",")] if m[3].strip() else []
        if "" in rt:
            raise Bad("return type")
        body = self.body("end")
        self.next()
        return N("func", nm=m[1], ps=ps, rt=[type_rec(t) for t in rt], rtt=rt, body=body, pub=False,
                 oc="NoOp", ln=ln)

    def line(self, s):
        m = re.match(r"const (int|bytes|bigint|addr) ([A-Z][a-zA-Z0-9_]*) = (.*)$", s)
        if m:
            t = m[3]
            if re.fullmatch(r"[0-9]+", t):
                v = iv(int(t))
            elif re.fullmatch(r"0x(?:[0-9a-fA-F]{2})+", t):
                v = bv(bytes.fromhex(t[2:]))
            elif re.fullmatch(r'"(?:\\.|[^"\\])+"', t):
                v = bv(decode(t[1:-1]))
            else:
                raise Bad("const")
            return N("const", ct=m[1], nm=m[2], v=v, src=t)
        if re.match(r"(const|for|block|struct|if|while|switch|func) ", s):
            raise Bad("keyword")
        m = re.match(r"jump (.*)$", s)
        if m:
            return N("jump", nm=m[1])
        m = re.match(r"return(?![a-zA-Z0-9_]) ?(.*)$", s)
        if m:
            return N("ret", es=[parse_expr(a) for a in split_commas(m[1])] if m[1] else [])
        if s == "break":
            return N("break")
        if re.match(r"break(?![a-zA-Z0-9_])", s):
            raise Bad(s)
        m = re.match(r"([A-Za-z][A-Za-z0-9_]*(?:\[[0-9]+\])?) ([a-z][a-zA-Z0-9_]*)(?: = (.*))?$", s)
        if m:
            x = N("var", ty=type_rec(m[1]), tt=m[1], nm=m[2])
            if m[3] is not None:
                x["e"] = parse_expr(m[3])
            return x
        m = re.match(r"box<([A-Z][a-zA-Z0-9_]+)> ([a-z][a-zA-Z0-9_]*) = (Open|Create)?Box\((.*)\)$", s)
        if m:
            return N("box", sn=m[1], nm=m[2], meth=m[3] or "", e=parse_expr(m[4]))
        m = re.match(r"([a-z][a-zA-Z_0-9]*)\.([a-z][a-zA-Z_0-9]*) = (.*)$", s)
        if m:
            return N("fasg", nm=m[1], f=m[2], e=parse_expr(m[3]))
        m = re.match(r"([a-z_][a-zA-Z0-9_]*(?:\s*,\s*[a-z_][a-zA-Z0-9_]*)*)\s* = (.*)$", s)
        if m:
            return N("asg", nms=[x.strip() for x in m[1].split(",")], e=parse_expr(m[2]))
        m = re.match(r"exit\((.*)\)$", s)
        if m:
            return N("exit", e=parse_expr(m[1]))
        m = re.match(r'assert\((.*?)(?:, "((?:\\.|[^"\\])*)")?\)$', s)
        if m:
            return N("assert", e=parse_expr(m[1]), msg=m[2] or "")
        if re.match(r"[a-zA-Z_0-9]+\(.*\)$", s):
            return N("call", e=parse_expr(s))
        raise Bad(f"statement {s}")


def parse_program(text):
    """list of statements; comments and the version pragma are dropped"""
    return Reader(text).program()


# ---------------------------------------------------------------------------------------------
# writing

def ty_text(x):
    if x.get("tt"):
        return x["tt"]
    t = x["ty"] if "ty" in x else x
    return type_text(t)


def type_text(t):
    if t["k"] == "uint":
        return "uint8"
    if t["k"] == "array":
        return f"uint8[{t['s']}]"
    if t["k"] == "bytes":
        return f"bytes[{t['s']}]" if t["s"] else "bytes"
    if t["k"] == "box":
        return f"box<{t['n']}>"
    if t["k"] in ("struct", "unknown"):
        return t["n"]
    return t["k"]


class Style:
    """Layout of the written source"""
    rng = None          # None: canonical
    comments = False    # add comments and blank lines

    def __init__(self, rng=None, comments=False):
        self.rng = rng
        self.comments = comments

    def sp(self):
        """optional space"""
        return self.rng.choice(["", " ", "  "]) if self.rng else ""

    def sp1(self):
        """space around operators"""
        return self.rng.choice([" ", "  ", " \t", " "]) if self.rng else " "

    def tight(self, left, op):
        """no space around an operator"""
        return bool(self.rng) and op[0] != "b" and not re.search(r"(^|\W)b$", left) and self.rng.random() < .2

    def comma(self):
        return self.sp() + "," + self.rng.choice(["", " ", "  "]) if self.rng else ", "


def E(x, st=None, top=True):
    st = st or Style()
    k = x["k"]
    if k == "int":
        return x.get("src") or str(int.from_bytes(bytes(x["v"][1]), "big"))
    if k == "byt":
        return x.get("src") or quote(bytes(x["v"][1]))
    if k in ("cst", "enum", "id"):
        return x["nm"]
    if k == "un":
        return x["op"] + st.sp() + E(x["a"], st, False)
    if k == "bin":
        a, b = E(x["a"], st, False), E(x["b"], st, False)
        s = a + x["op"] + b if st.tight(a, x["op"]) else a + st.sp1() + x["op"] + st.sp1() + b
        return s if top and not x.get("par") else "(" + st.sp() + s + st.sp() + ")"
    if k in ("ucall", "op", "std"):
        args = []
        if k == "op":
            args += [m["s"] if m["t"] == "f" else m["src"] if m["t"] == "m" else E(m["e"], st) for m in x["im"]]
        if k == "std" and x["nm"] in ("Address", "ARC28Event"):
            args.append(x["src"])
        args += [E(a, st) for a in x["args"]]
        if k == "std":
            args += [type_text(t) for t in x["tys"]]
        return x["nm"] + "(" + st.sp() + st.comma().join(args) + st.sp() + ")"
    if k in ("txn", "itx", "glob"):
        return {"txn": "Txn.", "itx": "Itxn.", "glob": "Global."}[k] + x["f"]
    if k in ("txna", "itxa"):
        return {"txna": "Txn.", "itxa": "Itxn."}[k] + x["f"] + "[" + E(x["ix"], st) + "]"
    if k in ("gtxn", "gtxna"):
        s = "Gtxn[" + E(x["gi"], st) + "]." + x["f"]
        return s + ("[" + E(x["ix"], st) + "]" if k == "gtxna" else "")
    if k == "grel":
        return x["op"] + str(int.from_bytes(bytes(x["v"][1]), "big"))
    if k == "fld":
        return x["nm"] + "." + x["f"]
    raise Exception(k)


def quote(b):
    out = ""
    for c in b:
        ch = chr(c)
        if ch in "\"\\":
            out += "\\" + ch
        elif 32 <= c < 127:
            out += ch
        else:
            out += "\\x%02x" % c
    return '"' + out + '"'


class Writer:
    """Source text of a program; sets the line numbers of its nodes"""

    def __init__(self, st=None):
        self.out = []
        self.st = st or Style()
        self.level = 0

    def line(self, s, where=""):
        st = self.st
        if st.rng and st.comments:
            while st.rng.random() < 0.12:
                pad = " " * st.rng.choice([0, 2, 4, 7])
                if where in ("teal", "first"):
                    break
                self.out.append(pad + st.rng.choice(["", "# note", "#", "## x = 1", '# "quoted', "# end", "#if a:"]))
        ind = "    " * self.level
        if st.rng:
            ind = st.rng.choice([ind, "", "  " * self.level, "\t" * self.level, " " * st.rng.randrange(6)])
            if st.rng.random() < 0.15:
                s += st.rng.choice(["  ", "\t", " "])
            if st.comments and st.rng.random() < 0.15 and where not in ("teal",):
                s += st.rng.choice([" # c", "  # it's \"q", " #", " # end", "  # x: y = 1"])
        self.out.append(ind + s)
        return len(self.out)

    def program(self, body, version=None):
        if version:
            self.line(f"#pragma version {version}", "first")
        self.stmts(body)
        return "\n".join(self.out) + "\n"

    def stmts(self, body):
        for x in body:
            self.stmt(x)

    def inner(self, body):
        self.level += 1
        self.stmts(body)
        self.level -= 1

    def stmt(self, x):
        st, k = self.st, x["k"]
        e = lambda n: E(n, st)
        L = self.line
        neg = lambda n: "not " if n["neg"] else ""
        if k == "comment":
            L(x["text"])
        elif k == "var":
            s = f"{ty_text(x)} {x['nm']}"
            x["ln"] = L(s + (" = " + st.sp() + e(x["e"]) if x.get("e") else ""))
        elif k == "asg":
            x["ln"] = L(st.comma().join(x["nms"]) + " = " + st.sp() + e(x["e"]))
        elif k == "box":
            x["ln"] = L(f"box<{x['sn']}> {x['nm']} = {x['meth']}Box({e(x['e'])})")
        elif k == "fasg":
            x["ln"] = L(f"{x['nm']}.{x['f']} = " + st.sp() + e(x["e"]))
        elif k == "exit":
            x["ln"] = L(f"exit({e(x['e'])})")
        elif k == "assert":
            m = f', "{x["msg"]}"' if x.get("msg") else ""
            x["ln"] = L(f"assert({e(x['e'])}{m})")
        elif k == "call":
            x["ln"] = L(e(x["e"]))
        elif k == "if":
            x["ln"] = L(f"if {neg(x)}{e(x['e'])}:")
            self.inner(x["body"])
            for y in x["elifs"]:
                y["ln"] = L(f"elif {neg(y)}{e(y['e'])}:")
                self.inner(y["body"])
            if x["els"] or x.get("hasElse"):
                L("else:")
                self.inner(x["els"])
            L("end")
        elif k == "while":
            x["ln"] = L(f"while {neg(x)}{e(x['e'])}:")
            self.inner(x["body"])
            L("end")
        elif k in ("for", "for_"):
            x["ln"] = L(f"for {x.get('nm', '_')} in {e(x['a'])}:{e(x['b'])}:")
            self.inner(x["body"])
            L("end")
        elif k == "switch":
            x["ln"] = L(f"switch {e(x['e'])}:")
            self.level += 1
            for y in x["opts"]:
                y["ln"] = L(f"{e(y['e'])}: {y['nm']}")
            if x["els"]:
                L(f"else: {x['els']}")
            self.level -= 1
            L("end")
        elif k == "router":
            x["ln"] = L("router:")
            self.level += 1
            for y in x["rts"]:
                y["ln"] = L(y["nm"])
            self.level -= 1
            L("end")
        elif k == "jump":
            x["ln"] = L(f"jump {x['nm']}")
        elif k == "ret":
            x["ln"] = L("return" + (" " + st.comma().join(e(y) for y in x["es"]) if x["es"] else ""))
        elif k == "break":
            x["ln"] = L("break")
        elif k == "teal":
            x["ln"] = L("teal:")
            self.level += 1
            for y in x["lines"]:
                y[1] = L(y[0], "teal")
            self.level -= 1
            L("end", "teal")
        elif k == "itxn":
            x["ln"] = L("inner_txn:")
            self.level += 1
            for y in x["fs"]:
                ix = f"[{y['ix']}]" if y["ix"] >= 0 else ""
                y["ln"] = L(f"{y['f']}{ix}: {e(y['e'])}")
            self.level -= 1
            L("end")
        elif k == "group":
            x["ln"] = L("inner_group:")
            self.inner(x["body"])
            L("end")
        elif k == "const":
            x["ln"] = L(f"const {x['ct']} {x['nm']} = {x['src']}")
        elif k == "func":
            if x["pub"]:
                par = "" if x["oc"] == "NoOp" and not x.get("ocw") else "".join(["OnCompletion", st.sp(), "=", st.sp(), x["oc"]])
                L(f"@public({st.sp()}{par}{st.sp()})")
            ps = st.comma().join(f"{p['nm']}: {ty_text(p)}" for p in x["ps"])
            rt = ", ".join(x.get("rtt") or [type_text(t) for t in x["rt"]])
            x["ln"] = L(f"func {x['nm']}({ps}){' ' if rt else ''}{rt}:")
            self.inner(x["body"])
            L("end")
        elif k == "block":
            x["ln"] = L(f"block {x['nm']}:")
            self.inner(x["body"])
            L("end")
        elif k == "struct":
            x["ln"] = L(f"struct {x['nm']}:")
            self.level += 1
            for f in x["fs"]:
                f["ln"] = L(f"{f['nm']}: {ty_text(f)}")
            self.level -= 1
            L("end")
        else:
            raise Exception(k)


# ---------------------------------------------------------------------------------------------
# the flat form

DROP = {"src", "tt", "rtt", "lines", "par", "hasElse", "ocw", "gix"}


def flatten(body, tokenise):
    """{"n": nodes, "root": ids}; tokenise: inline TEAL lines -> statements"""
    nodes = []

    def add(x):
        if x is None:
            return 0
        r = {}
        nodes.append(r)
        me = len(nodes)
        for f, v in x.items():
            if f in DROP:
                continue
            if f in KIDS[x["k"]]:
                r[f] = [add(y) for y in v] if isinstance(v, list) else add(v)
            elif f == "im":
                r["im"] = [{"t": "e", "e": add(m["e"])} if m["t"] == "e" else {"t": m["t"], "s": m["s"]} for m in v]
            elif f == "ps":
                r["ps"] = [{"nm": p["nm"], "ty": p["ty"]} for p in v]
            elif f == "fs" and x["k"] == "struct":
                r["fs"] = [{"nm": p["nm"], "ty": p["ty"], "ln": p["ln"]} for p in v]
            else:
                r[f] = v
        if x["k"] == "assert":
            r["msg"] = x.get("msg") or ""
        if x["k"] == "var" and "e" not in r:
            r["e"] = 0
        if x["k"] == "teal":
            r["ins"] = tokenise(x["lines"])
        if x["k"] == "std" and "v" not in r:
            r["v"] = ["b", []]
        return me

    root = [add(x) for x in body if x["k"] not in ("comment", "blank")]
    return {"n": nodes, "root": root}


def walk(body):
    """all nodes of a program"""
    for x in body if isinstance(body, list) else [body]:
        if not isinstance(x, dict):
            continue
        yield x
        for f in KIDS.get(x.get("k"), []):
            v = x.get(f)
            if v:
                yield from walk(v if isinstance(v, list) else [v])
        for m in x.get("im", []):
            if m["t"] == "e":
                yield from walk([m["e"]])
