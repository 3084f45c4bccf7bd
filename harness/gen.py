"""Random Tealish programs (abstract syntax).

Programs are well typed, always end within the fuel of the specification (apart from loops whose
bounds are changed by their body) and mostly do not fail; a profile selects what they exercise.
"""
from tl import N, OPS, BUILTINS, iv, bv, make_address, type_text

T_INT, T_U8 = ("int", 8, ""), ("uint", 1, "")


def TB(n=0):
    return ("bytes", n, "")


def rec(t):
    return {"k": t[0], "s": 0 if t[0] in ("struct", "box") else t[1], "n": t[2]}


def isint(t):
    return t[0] in ("int", "uint")


def isbyt(t):
    return t[0] in ("bytes", "bigint", "addr", "array", "struct")


VARS = ["a", "b", "c", "d", "i", "j", "n", "x", "y", "z", "total", "value", "key", "end_time", "iff", "notx", "not_x",
        "return_value", "breaker", "exit_code", "format", "switcher", "loop1", "result", "tmp", "tmp2", "x1", "x_1",
        "elif_", "structure", "funcs", "blocked", "len1", "account", "camelCase", "for_", "in_", "const_", "asserted",
        "jumper", "routers", "teal_", "log_", "len", "push_", "itob", "concat", "abc", "l0_end", "main", "s_0", "r2d2"]
FUNCS = ["f", "g", "h", "add", "check", "compute", "f1", "f2", "get_value", "setup", "do_it", "helper", "update",
         "end_f", "if_ok", "l1_else", "main", "x", "total", "returns", "swap2", "pay", "route_f", "block_f", "go"]
BLOCKS = ["main", "start", "b0", "b1", "finish", "update", "create", "x", "f", "setup", "delete", "fail", "loop",
          "Done", "l0_end", "optin", "end_block", "A", "B2", "state", "if_true", "3rd", "route", "default", "else1"]
CONSTS = ["AA", "BB", "K1", "FEE", "MIN_BALANCE", "MAX", "ZERO", "ONE", "KEY", "PREFIX", "A_B", "N_0", "LIMIT"]
STRUCTS = ["Item", "Pt", "Record", "Account", "Holder", "Pair_1", "Cfg", "S2"]
FIELDS = ["id", "name", "price", "owner", "a", "b", "x", "y", "count", "data", "tag", "size", "end", "key", "lo", "hi"]
INTS = [0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 63, 64, 100, 127, 128, 200, 255, 256, 257, 1000, 65535, 65536,
        2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1]
STRS = ["", "a", "ab", "abc", "key", "hello", "a b", "x;y", "a//b", "a // b", "# no", "\\x00\\xff", "it's", 'q\\"q', "\\n", "tab\\t",
        "\\\\", "0x00", "12345678", "abcdefgh", "some longer text, with (symbols): = [1] end", "{}", "'", "if x:", "//",
        "é", "const AA", "AA", "FEE", "a\\\\", "pushint 1"]
TXN_INT = ["NumAppArgs", "Fee", "Amount", "GroupIndex", "ApplicationID", "OnCompletion", "NumAccounts", "TypeEnum",
           "FirstValid", "AssetAmount", "XferAsset", "NumAssets"]
TXN_BYT = ["Sender", "Note", "Receiver", "Lease", "TxID", "RekeyTo", "CloseRemainderTo", "AssetReceiver", "ConfigAssetName"]
TXNA_BYT, TXNA_INT = ["ApplicationArgs", "Accounts", "Logs"], ["Assets", "Applications"]
GLOB_INT = ["Round", "LatestTimestamp", "GroupSize", "MinTxnFee", "CurrentApplicationID", "LogicSigVersion", "MinBalance"]
GLOB_BYT = ["ZeroAddress", "CreatorAddress", "CurrentApplicationAddress", "GroupID"]
ITX_INT = [("Fee", 8), ("Amount", 8), ("TypeEnum", 8), ("XferAsset", 8), ("AssetAmount", 8), ("ApplicationID", 8),
           ("OnCompletion", 8), ("ConfigAssetTotal", 8), ("VoteFirst", 8), ("FreezeAsset", 8), ("GlobalNumUint", 8)]
ITX_BYT = ["Receiver", "Sender", "Note", "AssetReceiver", "CloseRemainderTo", "ConfigAssetName", "ApprovalProgram", "RekeyTo"]
ITXA_BYT, ITXA_INT = ["ApplicationArgs", "Accounts", "ApprovalProgramPages"], ["Assets", "Applications"]
COMPLETIONS = ["NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication"]

BASE = dict(var=6, varno=1, asg=8, multi=2, fasg=0, log=5, put=3, asrt=1.5, iff=5, whil=2, forr=2, call=3, exitif=1,
            teal=0, push=0, itxn=0, group=0, jumpif=1, const=0.7, box=0, fbox=0, state=1.5, local=0.5,
            std=1.0, ops=1.0, env=1.0, structs=0, boxes=False, funcs=3, blocks=2, router=False, stmts=14, depth=3,
            exprs=3, shadow=0.5, anyv=0.3, fail=0.15, consts=2, teals=False, groups=False, term=None, recur=0.0,
            boundary=0.1, bigstruct=False, slots=0, pend=0.1, unnamed=0)


MESSAGES = ["failed", "a, b", "x == 1", "not (ok)", "it's", "100%", "a: b", "# no", "// no", "message", "a\\nb", "tab\\t.", "\\\"quoted\\\"", "back\\\\slash",
            "two  spaces", " lead and trail ", "é ✓ 漢", "http://x/#y", "a; b", "tl:5: int x = 1", ")", "(", "pushint 1", "end", "}", "{0}", "%s", "None", "0", "b64(x)", "\\x41",
            "it: 'x', 'y'", "=", " = ", "x" * 200, "a // b // c", "\\'", "$1", "\\r"]


class G:
    def __init__(self, rng, **prof):
        self.r = rng
        self.p = dict(BASE, **prof)
        self.structs = {}            # name -> [(field, type, offset)], size
        self.consts = []             # visible constants (name, kind, value); innermost last
        self.scopes = []             # visible variables: lists of records
        self.budget = self.p["stmts"]
        self.has_group = False
        self.fn = None               # function being written
        self.loop = 0                # inside a while?
        self.ingroup = False
        self.pure = 0                # no side effects allowed in expressions
        self.used_any = False
        self.blocks_visible = []
        self.funcs_visible = []
        self.canjump = True
        self.unnamed = False         # inside a `for _`?

    # -- choices ---------------------------------------------------------------------------
    def ch(self, seq):
        return self.r.choice(seq)

    def p_(self, x):
        return self.r.random() < x

    def weighted(self, table):
        table = [(k, w) for k, w in table if w > 0]
        x = self.r.random() * sum(w for _, w in table)
        for k, w in table:
            x -= w
            if x <= 0:
                return k
        return table[-1][0]

    # -- names -----------------------------------------------------------------------------
    def names(self):
        return {v["nm"] for s in self.scopes for v in s}

    def fresh(self, pool=VARS):
        seen = self.names() | self.reserved
        free = [n for n in pool if n not in seen]
        if free and self.p_(0.95):
            # reuse of the same few names in different scopes is interesting
            return self.ch(free[:6] if self.p_(0.5) else free)
        k = len(seen)
        while f"v{k}" in seen:
            k += 1
        return f"v{k}"

    def declare(self, nm, t, ok=True, ro=False):
        v = {"nm": nm, "t": t, "ok": ok, "ro": ro}
        self.scopes[-1].append(v)
        return v

    def visible(self, pred):
        return [v for s in self.scopes for v in s if v["ok"] and pred(v)]

    def const(self, kind):
        seen, out = set(), []
        for c in reversed(self.consts):
            if c[0] not in seen:
                seen.add(c[0])
                if c[1] == kind:
                    out.append(c)
        return out

    # -- types -----------------------------------------------------------------------------
    def size(self, t):
        return self.structs[t[2]]["size"] if t[0] == "struct" else t[1]

    def vtype(self):
        k = self.weighted([("int", 8), ("u8", 1), ("bytes", 4), ("sized", 2.5), ("bigint", 0.4), ("addr", 0.4),
                           ("array", 0.5), ("struct", 4 * self.p["structs"] if self.structs else 0)])
        if k == "int":
            return T_INT
        if k == "u8":
            return T_U8
        if k == "bytes":
            return TB()
        if k == "sized":
            return TB(self.ch([1, 2, 3, 4, 8, 8, 16, 32, 5]))
        if k == "array":
            return ("array", self.ch([1, 2, 4, 8]), "")
        if k == "struct":
            n = self.ch(list(self.structs))
            return ("struct", self.structs[n]["size"], n)
        return (k, 0, "")

    # -- expressions -----------------------------------------------------------------------
    def ival(self, n):
        x = N("int", v=iv(n))
        if n >= 1000 and self.p_(0.2):
            x["src"] = f"{n:_}"
        return x

    def small(self, hi=9):
        return self.ival(self.r.randrange(hi + 1))

    def sval(self, b):
        return N("byt", v=bv(b))

    def lit(self):
        s = self.ch(STRS)
        from tl import decode
        return N("byt", v=bv(decode(s)), src='"' + s + '"')

    def ex(self, t, d=None):
        """an expression that may be stored where t is declared"""
        d = self.p["exprs"] if d is None else d
        if t[0] == "int":
            return self.xint(d)
        if t[0] == "uint":
            return self.xu8(d)
        n = self.size(t)
        return self.xsized(n, d) if n else self.xbytes(d)

    def op(self, nm, args, im=()):
        return N("op", nm=nm, im=list(im), args=args)

    def std(self, nm, args, tys=(), **kw):
        return N("std", nm=nm, args=args, tys=list(tys), **kw)

    def im(self, n):
        cs = [c for c in self.const("int") if c[2] == n]
        if cs and self.p_(0.7):
            return {"t": "e", "e": N("cst", nm=cs[0][0])}
        return {"t": "e", "e": self.ival(n)}

    def fim(self, f):
        return {"t": "f", "s": f}

    def env_int(self, d):
        k = self.weighted([("txn", 5), ("glob", 2), ("gtxn", 2), ("txna", 1), ("grel", 1), ("gtxna", 0.7), ("itx", 0.3),
                           ("arg", 0.7)])
        if k == "txn":
            return N("txn", f=self.ch(TXN_INT))
        if k == "glob":
            return N("glob", f=self.ch(GLOB_INT))
        if k == "gtxn":
            return N("gtxn", f=self.ch(TXN_INT), gi=self.ix(15, d))
        if k == "grel":
            return N("gtxn", f=self.ch(TXN_INT), gi=N("grel", op=self.ch("+-"), v=iv(self.r.randrange(0, 4))))
        if k == "txna":
            return N("txna", f=self.ch(TXNA_INT), ix=self.ix(255, d))
        if k == "gtxna":
            return N("gtxna", f=self.ch(TXNA_INT), gi=self.ix(15, d), ix=self.ix(255, d))
        if k == "itx":
            return N("itx", f=self.ch(["CreatedAssetID", "CreatedApplicationID", "NumLogs"]))
        return self.op("btoi", [self.op("extract", [N("txna", f="ApplicationArgs", ix=self.ix(3, 0))],
                                        [self.im(0), self.im(self.ch([1, 2, 8]))])])

    def env_bytes(self, d):
        k = self.weighted([("txn", 4), ("txna", 4), ("glob", 1), ("gtxn", 1), ("gtxna", 0.7), ("itxa", 0.3), ("arg", 0.3)])
        if k == "txn":
            return N("txn", f=self.ch(TXN_BYT))
        if k == "txna":
            return N("txna", f=self.ch(TXNA_BYT), ix=self.ix(255 if self.p_(0.2) else 3, d))
        if k == "glob":
            return N("glob", f=self.ch(GLOB_BYT))
        if k == "gtxn":
            gi = N("grel", op=self.ch("+-"), v=iv(self.r.randrange(0, 3))) if self.p_(0.3) else self.ix(15, d)
            return N("gtxn", f=self.ch(TXN_BYT), gi=gi)
        if k == "gtxna":
            return N("gtxna", f=self.ch(TXNA_BYT), gi=self.ix(15, d), ix=self.ix(255, d))
        if k == "itxa":
            return N("itxa", f="Logs", ix=self.ix(3, d))
        return self.op("arg", [], [self.im(self.r.randrange(4))])

    def ix(self, hi, d):
        k = self.weighted([("lit", 4), ("var", 2), ("cst", 1), ("ex", 1 if d > 0 else 0)])
        if k == "lit":
            return self.ival(hi) if self.p_(0.1) else self.small(min(hi, 5))
        if k == "var":
            v = self.visible(lambda v: isint(v["t"]))
            if v:
                return N("id", nm=self.ch(v)["nm"])
        if k == "cst":
            c = [c for c in self.const("int")]
            if c:
                return N("cst", nm=self.ch(c)[0])
        if k == "ex":
            return N("bin", op=self.ch(["+", "%", "&"]), a=self.small(), b=N("int", v=iv(self.r.randrange(1, 5))))
        return self.small(min(hi, 5))

    def fields(self, pred):
        out = []
        for v in self.visible(lambda v: v["t"][0] in ("struct", "box")):
            for f, ft, off in self.structs[v["t"][2]]["fields"]:
                if pred(ft) and (v["t"][0] == "struct" or not self.pure):
                    out.append((v["nm"], f, ft))
        return out

    def fieldref(self, pred):
        fs = self.fields(pred)
        if not fs:
            return None
        nm, f, _ = self.ch(fs)
        return N("fld", nm=nm, f=f)

    def ucall(self, pred):
        if self.pure:
            return None
        fs = [f for f in self.callable() if len(f["rt"]) == 1 and pred(f["rt"][0])]
        if not fs:
            return None
        f = self.ch(fs)
        return N("ucall", nm=f["nm"], args=[self.ex(t, 1) for _, t in f["ps"]])

    def callable(self):
        seen, out = set(), []
        for fs in reversed(self.funcs_visible):
            for f in fs:
                if f["nm"] not in seen:
                    if f["rank"] > self.rank and (not f["ready"] is None):
                        out.append(f)
            seen |= {f["nm"] for f in fs}
        return out

    def xint(self, d):
        k = self.weighted([
            ("lit", 3), ("var", 6), ("cst", 1.2), ("enum", 0.3), ("bin", 6 if d > 0 else 0), ("un", 0.8 if d > 0 else 0),
            ("env", 2 * self.p["env"]), ("len", 0.8 if d > 0 else 0), ("call", 2 if d > 0 else 0),
            ("fld", 2.5 * bool(self.structs)), ("conv", 0.6 * self.p["std"] if d > 0 else 0), ("sizeof", 0.15 * self.p["std"]),
            ("ops", 1.5 * self.p["ops"] if d > 0 else 0), ("any", self.p["anyv"] if d > 0 else 0),
            ("cmpb", 0.5 if d > 0 else 0), ("cast", 0.3 * self.p["std"] if d > 0 else 0),
            ("bmath", 0.2 if d > 0 else 0), ("state", 0.6 * self.p["state"] if d > 0 else 0),
            ("pop", self.p["pend"] * 0 if d > 0 else 0)])
        e = getattr(self, "i_" + k)(d - 1)
        return e if e is not None else (self.small() if self.p_(0.5) else self.i_var(d))

    def i_lit(self, d):
        return self.ival(self.ch(INTS)) if self.p_(self.p["boundary"]) else self.small()

    def i_var(self, d):
        v = self.visible(lambda v: isint(v["t"]))
        return N("id", nm=self.ch(v)["nm"]) if v else self.small()

    def i_cst(self, d):
        c = self.const("int")
        return N("cst", nm=self.ch(c)[0]) if c else None

    def i_enum(self, d):
        return N("enum", nm=self.ch(BUILTINS))

    def i_bin(self, d):
        o = self.weighted([("+", 5), ("*", 1), ("%", 1.5), ("/", 0.7), ("-", 1), ("==", 1.5), ("!=", 1), ("<", 1.2), (">", 1.2),
                           ("<=", 1), (">=", 1), ("&&", 1.2), ("||", 1.2), ("&", 0.7), ("|", 0.7), ("^", 0.7)])
        a, b = self.xint(d), self.xint(d)
        if o in "%/" and not self.p_(self.p["fail"]):
            b = N("int", v=iv(self.r.randrange(1, 7)))
        if o == "-" and not self.p_(self.p["fail"]):
            a = N("bin", op="+", a=self.ival(self.ch([1000, 300, 100, 2 ** 32])), b=a)
            b = N("bin", op="%", a=b, b=self.ival(self.ch([2, 7, 100])))
        x = N("bin", op=o, a=a, b=b)
        if self.p_(0.15):
            x["par"] = True
        return x

    def i_un(self, d):
        return N("un", op=self.ch(["!", "!", "~"]), a=self.xint(d))

    def i_env(self, d):
        return self.env_int(d)

    def i_len(self, d):
        return self.op("len", [self.xbytes(d)])

    def i_call(self, d):
        return self.ucall(isint)

    def i_fld(self, d):
        return self.fieldref(isint)

    def i_conv(self, d):
        if self.p_(0.5):
            return self.std("Convert", [self.xsized(self.ch([1, 2, 8, 8, 9]), d)], [rec(T_INT)])
        return self.std("FromBytes", [self.xsized(self.ch([1, 4, 8]), d)], [rec(self.ch([T_INT, T_INT, T_U8]))])

    def i_sizeof(self, d):
        return self.std("SizeOf", [], [rec(self.vtype())])

    def i_ops(self, d):
        k = self.ch(["btoi", "getbyte", "getbit", "sqrt", "bitlen", "shl", "shr", "exp", "e16", "e32", "e64", "select",
                     "setbit", "divw", "gaid", "gload"])
        if k == "btoi":
            return self.op("btoi", [self.op("itob", [self.xint(d)]) if self.p_(0.4) else self.xsized(self.ch([1, 3, 8, 8, 9]), d)])
        if k == "getbyte":
            return self.op("getbyte", [self.xsized(self.ch([4, 8]), d), self.small(4 if not self.p_(0.2) else 9)])
        if k == "getbit":
            return self.op("getbit", [self.xint(d) if self.p_(.5) else self.xsized(2, d), self.small(9)])
        if k == "sqrt":
            return self.op("sqrt", [self.xint(d)])
        if k == "bitlen":
            return self.op("bitlen", [self.xint(d) if self.p_(.5) else self.xbytes(d)])
        if k in ("shl", "shr"):
            return self.op(k, [self.xint(d), self.small(9)])
        if k == "exp":
            return self.op("exp", [self.small(9), self.small(5)])
        if k in ("e16", "e32", "e64"):
            return self.op("extract_uint" + k[1:], [self.xsized(8, d), self.small(4 if k == "e32" else 6 if k == "e16" else 0)])
        if k == "divw":
            return self.op("divw", [self.small(1), self.xint(d), self.ival(self.r.randrange(2, 9))])
        if k == "gaid":
            return self.op("gaid", [], [self.im(self.r.randrange(3))])
        if self.p["anyv"] <= 0:
            return None
        self.used_any = True
        if k == "select":
            return self.op("select", [self.xint(d), self.xint(d), self.xint(d)])
        if k == "setbit":
            return self.op("setbit", [self.xint(d), self.small(9), self.small(1)])
        return self.op("gload", [], [self.im(self.r.randrange(3)), self.im(self.r.randrange(9))])

    def anyval(self, d):
        self.used_any = True
        if self.pure or self.p_(0.3):
            return self.op("gload", [], [self.im(self.r.randrange(2)), self.im(self.r.randrange(4))])
        k = self.ch(["ag", "al", "itxn"])
        if k == "al":
            return self.op("app_local_get", [self.xbytes(0), self.lit()])
        return self.op("app_global_get", [self.xbytes(min(d, 1))])

    def i_any(self, d):
        a = self.anyval(d)
        if self.p_(0.3):
            return self.std("EnsureType", [a], [rec(T_INT)])
        return self.std("UncheckedCast", [a], [rec(T_INT)]) if self.p_(0.15) else a

    def i_state(self, d):
        if self.pure:
            return None
        return self.ch([lambda: self.op("balance", [self.xbytes(0)]), lambda: self.op("min_balance", [self.xint(0)]),
                        lambda: self.op("app_opted_in", [self.xint(0), self.xint(0)])])()

    def i_cmpb(self, d):
        o = self.ch(["==", "!=", "b==", "b<", "b>", "b<=", "b>=", "b!="])
        return N("bin", op=o, a=self.xbytes(d), b=self.xbytes(d))

    def i_cast(self, d):
        return self.std("Cast", [self.typed(self.xint, d)], [rec(self.ch([T_INT, T_U8]))])

    def i_bmath(self, d):
        return self.op("btoi", [N("bin", op=self.ch(["b+", "b*", "b|", "b&", "b^", "b%"]), a=self.xsized(2, d), b=self.lit())])

    def i_pop(self, d):
        return None

    def xu8(self, d):
        v = self.visible(lambda v: v["t"][0] == "uint")
        k = self.weighted([("lit", 3), ("var", 3 if v else 0), ("fld", 2), ("call", 1), ("cast", 1.5 if d > 0 else 0),
                           ("conv", 0.7 if d > 0 else 0)])
        e = None
        if k == "var":
            e = N("id", nm=self.ch(v)["nm"])
        elif k == "fld":
            e = self.fieldref(lambda t: t[0] == "uint")
        elif k == "call":
            e = self.ucall(lambda t: t[0] == "uint")
        elif k == "cast":
            e = self.std("Cast", [self.typed(self.xint, d - 1) if self.p_(.3) else N("bin", op="%", a=self.xint(d - 1), b=self.ival(256))], [rec(T_U8)])
        elif k == "conv":
            e = self.std("Convert", [self.xsized(self.ch([1, 1, 2]), d - 1)], [rec(T_U8)])
        return e or self.ival(self.ch([0, 1, 2, 7, 127, 128, 255]))

    def xbytes(self, d):
        k = self.weighted([
            ("lit", 4), ("var", 6), ("cst", 1), ("env", 2 * self.p["env"]), ("concat", 2 if d > 0 else 0), ("itob", 2 if d > 0 else 0),
            ("call", 1.5 if d > 0 else 0), ("fld", 2 * bool(self.structs)), ("std", 2 * self.p["std"] if d > 0 else 0),
            ("ops", 1.5 * self.p["ops"] if d > 0 else 0), ("any", self.p["anyv"] if d > 0 else 0),
            ("sized", 1), ("bmath", 0.7 if d > 0 else 0), ("bun", 0.2 if d > 0 else 0)])
        e = getattr(self, "b_" + k)(d - 1)
        return e if e is not None else (self.lit() if self.p_(0.5) else self.b_var(d))

    def b_lit(self, d):
        return self.lit()

    def b_var(self, d):
        v = self.visible(lambda v: isbyt(v["t"]) or (v["t"][0] == "box" and self.p_(0.2)))
        return N("id", nm=self.ch(v)["nm"]) if v else self.lit()

    def b_cst(self, d):
        c = self.const("bytes")
        return N("cst", nm=self.ch(c)[0]) if c else None

    def b_env(self, d):
        return self.env_bytes(d)

    def b_concat(self, d):
        if self.p_(0.5):
            return self.op("concat", [self.xbytes(d), self.xbytes(d)])
        return self.std("Concat", [self.xbytes(d) for _ in range(self.r.randrange(1, 4))])

    def b_itob(self, d):
        return self.op("itob", [self.xint(d)])

    def b_call(self, d):
        return self.ucall(isbyt)

    def b_fld(self, d):
        return self.fieldref(isbyt)

    def b_sized(self, d):
        return self.xsized(self.ch([1, 4, 8, 32]), d)

    def b_std(self, d):
        k = self.ch(["conv", "tob", "tob", "lpad", "rpad", "addr", "event", "cast", "fromb", "ens", "bzero"])
        if k == "conv":
            return self.std("Convert", [self.typed(self.xint, d)], [rec(self.ch([TB(), TB(8), TB(4), TB(16), TB(1), ("bigint", 0, "")]))])
        if k == "tob":
            v = self.visible(lambda v: v["t"][0] == "bigint")
            a = N("id", nm=self.ch(v)["nm"]) if v and self.p_(.6) else self.typed(self.xint, d)
            return self.std("ToBytes", [a, self.kn(self.ch([0, 1, 2, 4, 8, 9, 16, 32]))])
        if k in ("lpad", "rpad"):
            return self.std(k.capitalize(), [self.typed(self.xbytes, d), self.kn(self.ch([4, 8, 16, 32, 40, 64]))])
        if k == "addr":
            a = make_address(bytes(self.r.randrange(256) for _ in range(32)) if self.p_(.7) else bytes(32))
            import tl
            return self.std("Address", [], v=bv(tl.address(a)), src=f'"{a}"')
        if k == "event":
            import hashlib
            s = self.ch(["Swap(uint64,uint64)", "E()", "Ev(byte[],uint64)"])
            return self.std("ARC28Event", [self.xbytes(d) for _ in range(self.r.randrange(0, 3))],
                            v=bv(hashlib.new("sha512_256", s.encode()).digest()[:4]), src=f'"{s}"')
        if k == "cast":
            return self.std("Cast", [self.typed(self.xbytes, d)], [rec(self.ch([TB(), ("bigint", 0, ""), ("addr", 0, ""), TB(8)]))])
        if k == "fromb":
            return self.std("FromBytes", [self.typed(self.xbytes, d)], [rec(self.ch([TB(), ("bigint", 0, ""), TB(4)]))])
        if k == "ens":
            return self.std("EnsureType", [self.xbytes(d)], [rec(self.ch([TB(), ("bigint", 0, "")]))])
        return self.std("bzero", [self.small(9)])

    def kn(self, n):
        """n, known at compile time"""
        cs = [c for c in self.const("int") if c[2] == n]
        if cs and self.p_(0.5):
            return N("cst", nm=cs[0][0])
        st = [s for s in self.structs if self.structs[s]["size"] == n]
        if st and self.p_(0.5):
            return self.std("SizeOf", [], [rec(("struct", n, self.ch(st)))])
        return self.ival(n)

    def b_ops(self, d):
        k = self.ch(["extract", "extract3", "substring", "substring3", "replace2", "replace3", "sha", "setbyte", "bsqrt",
                     "extract0", "method", "hash"])
        if k == "extract":
            return self.op("extract", [self.xsized(8, d)], [self.im(self.r.randrange(5)), self.im(self.r.randrange(1, 4))])
        if k == "extract0":
            return self.op("extract", [self.xbytes(d)], [self.im(0), self.im(0)])
        if k == "extract3":
            return self.op("extract3", [self.xsized(8, d), self.small(4), self.small(4)])
        if k == "substring":
            return self.op("substring", [self.xsized(8, d)], [self.im(self.r.randrange(4)), self.im(self.r.randrange(4, 9))])
        if k == "substring3":
            return self.op("substring3", [self.xsized(8, d), self.small(4), N("int", v=iv(self.r.randrange(4, 9)))])
        if k == "replace2":
            return self.op("replace2", [self.xsized(8, d), self.xsized(2, d)], [self.im(self.r.randrange(7))])
        if k == "replace3":
            return self.op("replace3", [self.xsized(8, d), self.small(6), self.xsized(2, d)])
        if k == "setbyte":
            return self.op("setbyte", [self.xsized(4, d), self.small(3), self.xu8(d)])
        if k == "bsqrt":
            return self.op("bsqrt", [self.xsized(4, d)])
        if k == "method":
            return self.op("method", [], [{"t": "m", "s": '"add(uint64,uint64)uint64"', "src": '"add(uint64,uint64)uint64"'}])
        return self.op(self.ch(["sha256", "keccak256", "sha512_256", "sha3_256"]), [self.xbytes(d)])

    def b_any(self, d):
        a = self.anyval(d)
        if self.p_(0.3):
            return self.std("EnsureType", [a], [rec(TB())])
        return a if self.p_(0.9) else self.std("UncheckedCast", [a], [rec(TB())])

    def b_bmath(self, d):
        o = self.weighted([("b+", 3), ("b*", 2), ("b-", 0.5), ("b/", 0.7), ("b%", 0.7), ("b|", 1), ("b&", 1), ("b^", 1)])
        b = self.xsized(self.ch([1, 2, 8]), d)
        if o in ("b/", "b%"):
            b = self.sval(b"\x03")
        return N("bin", op=o, a=self.xsized(self.ch([2, 4, 8]), d), b=b)

    def b_bun(self, d):
        return N("un", op="b~", a=self.xbytes(d))

    def xsized(self, n, d):
        v = self.visible(lambda v: isbyt(v["t"]) and self.size(v["t"]) == n)
        k = self.weighted([("lit", 2), ("var", 5 if v else 0), ("fld", 3), ("call", 1.5 if d > 0 else 0),
                           ("bzero", 0.6), ("pad", 1.2 if d > 0 else 0), ("tob", 1 if d > 0 else 0),
                           ("cast", 1.2 if d > 0 else 0), ("sender", 2 if n == 32 else 0), ("conv", 0.7 if d > 0 else 0),
                           ("fromb", 0.5 if d > 0 else 0), ("ens", 0.4 if d > 0 else 0)])
        e = None
        T = rec(TB(n)) if self.p_(.8) else rec(("array", n, ""))
        if k == "var":
            e = N("id", nm=self.ch(v)["nm"])
        elif k == "fld":
            e = self.fieldref(lambda t: isbyt(t) and self.size(t) == n)
        elif k == "call":
            e = self.ucall(lambda t: isbyt(t) and self.size(t) == n)
        elif k == "bzero":
            e = self.std("bzero", [self.kn(n)])
        elif k == "pad":
            e = self.std(self.ch(["Lpad", "Rpad"]), [self.sval(b"q") if self.p_(.3) else self.short(d - 1, n), self.kn(n)])
        elif k == "tob":
            e = self.std("ToBytes", [self.typed(self.xint, d - 1), self.kn(n)])
        elif k == "cast":
            e = self.std("Cast", [self.exact(n, d - 1)], [T])
        elif k == "fromb":
            e = self.std("FromBytes", [self.exact(n, d - 1)], [T])
        elif k == "ens":
            e = self.std("EnsureType", [self.exact(n, d - 1)], [T])
        elif k == "sender":
            e = N("txn", f="Sender")
        elif k == "conv":
            e = self.std("Convert", [self.typed(self.xint, d - 1)], [T])
        if e is None:
            e = self.sval(bytes(self.r.choice([0, 1, 65, 97, 98, 255, 34, 92, 35, 47, 59, 32]) for _ in range(n)))
        return e

    def short(self, d, n):
        return self.xsized(self.r.randrange(1, n + 1), d) if self.p_(.8) else self.typed(self.xbytes, d)

    def exact(self, n, d):
        """bytes whose length is n at run time though the type does not say so"""
        if n > 1 and self.p_(.4):
            m = self.r.randrange(1, n)
            return self.op("concat", [self.xsized(m, d), self.xsized(n - m, d)])
        if n == 8 and self.p_(.6):
            return self.op("itob", [self.xint(d)])
        if self.p_(.3):
            return self.op("extract3", [self.std("bzero", [self.kn(n + 3)]), self.small(3), self.ival(n)])
        return self.env_bytes(0) if self.p_(.4) else self.op("concat", [self.sval(b""), self.xsized(n, d)])

    def typed(self, f, *a):
        """an expression whose type is known"""
        anyv, self.p["anyv"] = self.p["anyv"], 0
        e = f(*a)
        self.p["anyv"] = anyv
        return e

    # -- statements ------------------------------------------------------------------------
    def body(self, n, depth):
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            out += self.stmt(depth)
        return out

    def block_body(self, n, depth):
        """statements of a nested construct without a scope of its own"""
        saved = [len(s) for s in self.scopes], [v["ok"] for s in self.scopes for v in s], len(self.consts)
        out = self.body(n, depth)
        # variables declared here stay visible, but may never have been assigned
        flat = [v for s in self.scopes for v in s]
        old = [v for s, k in zip(self.scopes, saved[0]) for v in s[:k]]
        for v, ok in zip(old, saved[1]):
            v["ok"] = ok
        for v in flat:
            if not any(v is o for o in old):
                v["ok"] = False
        return out

    def scope(self, f):
        self.scopes.append([])
        nc = len(self.consts)
        out = f()
        del self.consts[nc:]
        self.scopes.pop()
        return out

    def stmt(self, depth):
        p = self.p
        self.budget -= 1
        k = self.weighted([
            ("var", p["var"]), ("varno", p["varno"]), ("asg", p["asg"]), ("multi", p["multi"]),
            ("fasg", p["fasg"] if self.structs else 0), ("log", p["log"]), ("put", p["put"]), ("asrt", p["asrt"]),
            ("iff", p["iff"] if depth > 0 else 0), ("whil", p["whil"] if depth > 0 else 0), ("forr", p["forr"] if depth > 0 else 0),
            ("call", p["call"]), ("exitif", p["exitif"] if depth > 0 else 0), ("teal", p["teal"]), ("push", p["push"]),
            ("itxn", p["itxn"]), ("group", p["group"] if depth > 0 and not self.ingroup and not self.fn else 0),
            ("jumpif", p["jumpif"] if self.canjump and depth > 0 and not self.fn else 0), ("const", p["const"]),
            ("box", p["box"] if self.structs else 0), ("local", p["local"])])
        return getattr(self, "s_" + k)(depth - 1) or []

    def s_var(self, d):
        t = self.vtype()
        nm = self.fresh()
        e = self.ex(t)
        self.declare(nm, t)
        return [N("var", ty=rec(t), nm=nm, e=e)]

    def s_varno(self, d):
        t = self.vtype()
        nm = self.fresh()
        x = N("var", ty=rec(t), nm=nm)
        v = self.declare(nm, t, ok=False)
        if self.p_(.8):
            y = N("asg", nms=[nm], e=self.ex(t))
            v["ok"] = True
            return [x, y]
        return [x]

    def writable(self):
        # a function may run before the declaration of an outer variable is executed
        mine = self.fscope if self.fn else 0
        return [v for i, s in enumerate(self.scopes) for v in s if not v["ro"] and v["t"][0] != "box"
                and (i >= mine or v["ok"])]

    def s_asg(self, d):
        w = self.writable()
        if self.p_(0.06):
            return [N("asg", nms=["_"], e=self.ex(self.vtype()))]
        if not w:
            return self.s_var(d)
        v = self.ch(w)
        if isint(v["t"]) and v["t"][0] == "int" and v["ok"] and self.p_(.25):
            e = N("bin", op="+", a=N("id", nm=v["nm"]), b=self.small())
        else:
            e = self.ex(v["t"])
        v["ok"] = True
        return [N("asg", nms=[v["nm"]], e=e)]

    def s_multi(self, d):
        cands = [("f", f) for f in self.callable() if len(f["rt"]) > 1] * 3 if not self.pure else []
        cands += [("op", ("mulw", [T_INT, T_INT])), ("op", ("addw", [T_INT, T_INT])), ("op", ("expw", [T_INT, T_INT])),
                  ("op", ("divmodw", [T_INT] * 4))]
        if self.p["state"] > 0:
            cands += [("box_get", None), ("box_len", None)]
            if self.p["anyv"] > 0:
                cands += [("gex", None)]
        k, c = self.ch(cands)
        if k == "f":
            ts = c["rt"]
            e = N("ucall", nm=c["nm"], args=[self.ex(t, 2) for _, t in c["ps"]])
        elif k == "op":
            nm, ts = c
            args = [self.xint(1) for _ in OPS[nm]["a"]]
            if nm == "divmodw":
                args = [self.small(), self.xint(1), self.small(1), self.ival(self.r.randrange(1, 9))]
            if nm == "expw":
                args = [self.small(5), self.small(9)]
            e = self.op(nm, args)
        elif k == "gex":
            self.used_any = True
            ts = [T_INT, T_INT if self.p_(.5) else TB()]
            e = self.op("app_global_get_ex", [self.small(2), self.xbytes(1)]) if self.p_(.6) else \
                self.op("asset_params_get", [self.small(2)], [self.fim(self.ch(["AssetTotal", "AssetDecimals"]
                                                                               if isint(ts[1]) else ["AssetName", "AssetURL"]))])
            if e["nm"] == "asset_params_get" and self.p_(.3):
                e = self.std(self.ch(["EnsureType", "UncheckedCast"]), [e], [rec(t) for t in ts])
        elif k == "box_get":
            ts = [T_INT, TB()]
            e = self.op("box_get", [self.xbytes(1)])
        else:
            ts = [T_INT, T_INT]
            e = self.op("box_len", [self.xbytes(1)])
        nms, pre, used = [], [], set()
        for t in ts:
            w = [v for v in self.writable() if v["nm"] not in used and self.holds(v["t"], t)]
            if self.p_(.15):
                nms.append("_")
            elif w and self.p_(.6):
                v = self.ch(w)
                nms.append(v["nm"])
            else:
                nt = t if t[0] != "any" else T_INT
                nm = self.fresh()
                pre.append(N("var", ty=rec(nt), nm=nm))
                self.declare(nm, nt, ok=False)
                nms.append(nm)
            used.add(nms[-1])
        for s in self.scopes:
            for v in s:
                if v["nm"] in nms:
                    v["ok"] = True
        return pre + [N("asg", nms=nms, e=e)]

    def holds(self, t, u):
        if isint(t):
            return isint(u) and u[1] <= t[1]
        if t[0] == "box" or u[0] == "box" or not isbyt(u):
            return False
        return self.size(t) == 0 or self.size(t) == self.size(u)

    def s_fasg(self, d):
        out = []
        for v in self.visible(lambda v: v["t"][0] in ("struct", "box")):
            for f, ft, off in self.structs[v["t"][2]]["fields"]:
                out.append((v["nm"], f, ft))
        if not out:
            return self.s_box(d) if self.p["box"] and self.p_(.5) else self.s_var(d)
        nm, f, ft = self.ch(out)
        return [N("fasg", nm=nm, f=f, e=self.ex(ft))]

    def s_log(self, d):
        return [N("call", e=self.op("log", [self.xbytes(self.p["exprs"])]))]

    def s_put(self, d):
        t = self.vtype()
        v = self.xint(self.p["exprs"]) if isint(t) else self.xbytes(self.p["exprs"])
        return [N("call", e=self.op("app_global_put", [self.xbytes(1), v]))]

    def s_local(self, d):
        if self.p_(.5):
            return [N("call", e=self.op("app_local_put", [self.xbytes(0) if self.p_(.5) else self.xint(0), self.xbytes(1), self.xint(1)]))]
        return [N("call", e=self.op("app_global_del", [self.xbytes(1)]))]

    def cond(self, d=2):
        """(not, condition)"""
        neg = self.p_(.25)
        return neg, self.xint(d)

    def s_asrt(self, d):
        e = self.xint(2)
        if not self.p_(self.p["fail"]):
            e = N("bin", op="||", a=e, b=N("int", v=iv(1))) if self.p_(.5) else N("bin", op=">=", a=e, b=N("int", v=iv(0)))
        x = N("assert", e=e)
        if self.p_(.5):
            x["msg"] = self.ch(MESSAGES)
        return [x]

    def s_iff(self, d):
        neg, c = self.cond()
        x = N("if", neg=neg, e=c, body=self.block_body(self.r.randrange(1, 4), d), elifs=[], els=[], hasElse=False)
        for _ in range(self.ch([0, 0, 0, 1, 1, 2])):
            neg, c = self.cond()
            x["elifs"].append(N("elif", neg=neg, e=c, body=self.block_body(self.r.randrange(1, 3), d)))
        if self.p_(.45):
            x["els"], x["hasElse"] = self.block_body(self.r.randrange(1, 3), d), True
        self.maybe_leave(x, d)
        return [x]

    def maybe_leave(self, x, d):
        """return or break at the end of a branch"""
        b = self.ch([x["body"]] + [y["body"] for y in x["elifs"]] + ([x["els"]] if x["els"] else []))
        if self.ingroup:
            return
        if self.fn and self.p_(.35):
            b.append(self.ret())
        elif self.loop and self.p_(.4):
            b.append(N("break"))

    def ret(self):
        return N("ret", es=[self.ex(t, 2) for t in self.fn["rt"]])

    def s_whil(self, d):
        c = self.fresh(["i", "n", "count", "k", "w", "loops"])
        pre = [N("var", ty=rec(T_INT), nm=c, e=N("int", v=iv(0)))]
        v = self.declare(c, T_INT, ro=True)
        lim = N("int", v=iv(self.r.randrange(0, 4)))
        cond = N("bin", op="<", a=N("id", nm=c), b=lim)
        neg = False
        k = self.r.random()
        if k < .2:
            neg, cond = True, N("bin", op=">=", a=N("id", nm=c), b=lim)
        elif k < .5:
            cond = N("bin", op="&&", a=cond, b=self.xint(1))

        def inner():
            old, self.loop = self.loop, 1
            inc = N("asg", nms=[c], e=N("bin", op="+", a=N("id", nm=c), b=N("int", v=iv(1))))
            front = self.p_(.5)
            b = self.block_body(self.r.randrange(1, 4), d)
            if self.p_(.3) and not self.ingroup:
                neg2, c2 = self.cond(1)
                b.insert(self.r.randrange(len(b) + 1), N("if", neg=neg2, e=self.safe(c2), body=[N("break")], elifs=[], els=[], hasElse=False))
            self.loop = old
            return [inc] + b if front else b + [inc]
        body = self.scope(inner)
        v["ro"] = True
        return pre + [N("while", neg=neg, e=cond, body=body)]

    def safe(self, e):
        """an expression that may be put elsewhere in the body: only literals and loop-invariant names"""
        v = [x for x in self.scopes[0] if x["ok"] and isint(x["t"]) and x.get("pre")]
        if v and self.p_(.7):
            return N("bin", op=self.ch(["==", ">", "<"]), a=N("id", nm=self.ch(v)["nm"]), b=self.small())
        return N("txn", f="NumAppArgs")

    def s_forr(self, d):
        nm = self.fresh(["i", "j", "k", "idx", "n", "it"])
        lo = self.r.randrange(0, 3)
        a = N("int", v=iv(lo))
        b = N("int", v=iv(lo + self.r.randrange(0, 4)))
        v = [x for x in self.visible(lambda v: v["t"] == T_INT) if x.get("bound")]
        if v and self.p_(.6):
            a = N("int", v=iv(0))
            b = N("id", nm=self.ch(v)["nm"])
        elif self.const("int") and self.p_(.3):
            cs = [c for c in self.const("int") if lo <= c[2] < 6]
            if cs:
                b = N("cst", nm=cs[0][0])

        def inner():
            if unnamed:
                old, self.unnamed = self.unnamed, True
                b_ = self.block_body(self.r.randrange(1, 4), d)
                self.unnamed = old
                return b_
            self.declare(nm, T_INT, ro=True)
            return self.block_body(self.r.randrange(1, 4), d)
        # `for _` leaves its counter on the stack (a known finding): only where that shows in nothing else
        unnamed = not self.fn and not self.unnamed and self.p["unnamed"] and self.p_(self.p["unnamed"])
        if unnamed:
            return [N("for_", a=a, b=b, body=self.scope(inner))]
        return [N("for", nm=nm, a=a, b=b, body=self.scope(inner))]

    def s_call(self, d):
        fs = [f for f in self.callable() if not f["rt"]]
        if not fs:
            fs = [f for f in self.callable() if len(f["rt"]) == 1]
            if not fs:
                return self.s_log(d)
            f = self.ch(fs)
            w = [v for v in self.writable() if self.holds(v["t"], f["rt"][0])]
            e = N("ucall", nm=f["nm"], args=[self.ex(t, 2) for _, t in f["ps"]])
            if w:
                v = self.ch(w)
                v["ok"] = True
                return [N("asg", nms=[v["nm"]], e=e)]
            return [N("asg", nms=["_"], e=e)]
        f = self.ch(fs)
        return [N("call", e=N("ucall", nm=f["nm"], args=[self.ex(t, 2) for _, t in f["ps"]]))]

    def s_exitif(self, d):
        neg, c = self.cond()
        if not self.p_(.4):
            c = N("bin", op="&&", a=c, b=N("bin", op=">", a=N("txn", f="Fee"), b=self.small()))
            neg = False
        return [N("if", neg=neg, e=c, body=[N("exit", e=self.xint(1))], elifs=[], els=[], hasElse=False)]

    def s_jumpif(self, d):
        bs = self.jumpable()
        if not bs or self.ingroup:
            return []
        neg, c = self.cond()
        return [N("if", neg=neg, e=c, body=[N("jump", nm=self.ch(bs)["nm"])], elifs=[], els=[], hasElse=False)]

    def jumpable(self):
        seen, out = set(), []
        for bs in reversed(self.blocks_visible):
            for b in bs:
                if b["nm"] not in seen and b["order"] > self.order:
                    out.append(b)
            seen |= {b["nm"] for b in bs}
        return out

    def s_const(self, d):
        return [self.constdef()]

    def constdef(self):
        nm = self.ch(CONSTS)
        if self.p_(.65):
            n = self.ch(INTS) if self.p_(.3) else self.r.randrange(10)
            if self.p_(.15):
                n = self.ch([4, 8, 16, 32, 255])
            self.consts.append((nm, "int", n))
            src = str(n)
            return N("const", ct="int", nm=nm, v=iv(n), src=src)
        from tl import decode
        if self.p_(.3):
            b = bytes(self.r.randrange(256) for _ in range(self.r.randrange(1, 9)))
            self.consts.append((nm, "bytes", b))
            return N("const", ct="bytes", nm=nm, v=bv(b), src="0x" + b.hex())
        s = self.ch([s for s in STRS if s])
        self.consts.append((nm, "bytes", decode(s)))
        return N("const", ct="bytes", nm=nm, v=bv(decode(s)), src='"' + s + '"')

    def s_teal(self, d):
        k = self.ch(["neutral", "log", "branch", "scratch", "data", "text", "text", "spaces", "loop", "odd"])
        q = self.ch(['"two  spaces"', '"tab\tin it"', '"# no comment"', '"a  //  b"', '"\\"q\\" ; x"', '"end"', '"  both ends  "', '"\\\\"', '"\\n\\t"', '"\\x00\\xff"',
                     '"it\'s"', '"x: y"', '"a,  b"', '"="', '" = "', '"/"', '";"', '""', '"é  ü"', '"0x01"', '"tl:1: x"'])
        L = {
            "text": [f"pushbytes {q}", "log"],
            "spaces": [f"byte   {q}   // a  comment   \"  ", "log   ;  pushint   7 ;pop"],
            "loop": ["pushint 0", f"again{self.uid}:", "pushint 1", "+", "dup", "itob", "log", "dup", "pushint 2", "<", f"bnz again{self.uid}  // back", "pop"],
            "odd": ["pushint 0x10 ; itob;log", "pushint 010;  itob", "log;", "// only a comment", f"pushbytes {q};log//x", "int 3 // three", "pop"],
            "neutral": ["pushint 3", "pushint 4", "+", "pop"],
            "log": ['pushbytes "x // y; z"', "log // comment"],
            "branch": [f"pushint {self.r.randrange(2)}", f"bz skip{self.uid}", 'pushbytes "in"', "log", f"skip{self.uid}:"],
            "scratch": ["pushint 5; dup; pop; itob; log"],
            "data": ['byte 0x0102', "len", "itob", "log", "pushint 7", "dup", "pop", "pop"],
        }[k]
        self.uid += 1
        return [N("teal", lines=[[s, 0] for s in L])]

    def s_push(self, d):
        """values that travel between Tealish and inline TEAL on the stack"""
        n = self.r.randrange(1, 4)
        args = [self.xint(2) for _ in range(n)]
        out = [N("call", e=self.std("push", args))]
        if self.p_(.6):
            L = []
            if n >= 2:
                L.append(self.ch(["swap", "swap // exchange"]))
                if self.p_(.5):
                    L.append(self.ch(["+", "||", ">", "^"]))
                    n -= 1
            if n >= 1 and self.p_(.4):
                L += ["dup"]
                n += 1
            L = L or ["dup", "pop"]
            out.append(N("teal", lines=[[s, 0] for s in L]))
        for _ in range(n):
            k = self.ch(["var", "log", "expr", "asg"])
            pop = self.std("pop", [])
            if k == "log":
                out.append(N("call", e=self.op("log", [self.op("itob", [pop])])))
            elif k == "asg" and [v for v in self.writable() if v["t"][0] == "int"]:
                v = self.ch([v for v in self.writable() if v["t"][0] == "int"])
                v["ok"] = True
                out.append(N("asg", nms=[v["nm"]], e=pop))
            elif k == "expr":
                out.append(N("call", e=self.op("app_global_put", [self.lit(), self.xint(0)])))
                out.append(N("asg", nms=["_"], e=pop))
            else:
                nm = self.fresh()
                self.declare(nm, T_INT)
                out.append(N("var", ty=rec(T_INT), nm=nm, e=pop))
        self.used_any = True
        return out

    def setters(self):
        fs, n = [], self.r.randrange(0, 4)
        fs.append(N("fs", f="TypeEnum", ix=-1, e=N("enum", nm=self.ch(["Pay", "Axfer", "Appl", "Acfg", "Afrz"])) if self.p_(.7) else self.xint(1)))
        for _ in range(n):
            k = self.r.random()
            if k < .35:
                fs.append(N("fs", f=self.ch(ITX_INT)[0], ix=-1, e=self.xint(2)))
            elif k < .65:
                fs.append(N("fs", f=self.ch(ITX_BYT), ix=-1, e=self.xbytes(2)))
            else:
                f = self.ch(ITXA_BYT + ITXA_INT)
                if any(x["f"] == f for x in fs):
                    continue
                for i in range(self.r.randrange(1, 4)):
                    fs.append(N("fs", f=f, ix=i, e=self.xint(1) if f in ITXA_INT else self.xbytes(1)))
                    if self.p_(.2):
                        fs.append(N("fs", f="Fee", ix=-1, e=self.xint(0)))
        if self.p_(.3):
            arr = [x for x in fs if x["ix"] >= 0]
            rest = [x for x in fs if x["ix"] < 0]
            self.r.shuffle(rest)
            fs = rest + arr
        return fs

    def s_itxn(self, d):
        out = [N("itxn", fs=self.setters())]
        if self.p_(.3) and not self.ingroup:
            nm = self.fresh()
            self.declare(nm, T_INT)
            out.append(N("var", ty=rec(T_INT), nm=nm, e=N("itx", f=self.ch(["CreatedAssetID", "NumLogs"]))))
        return out

    def s_group(self, d):
        self.has_group = True
        self.ingroup = True
        old = dict(self.p)
        self.p = dict(self.p, itxn=8, iff=3, forr=3, whil=2, call=5)
        body = []
        if self.p_(.85):
            body += self.s_itxn(d)
        body += self.block_body(self.r.randrange(0, 4), d)
        self.p = old
        self.ingroup = False
        return [N("group", body=body)]

    def s_box(self, d):
        if not self.structs:
            return []
        sn = self.ch(list(self.structs))
        nm = self.fresh()
        meth = self.ch(["Open", "Open", "Create", ""])
        key = self.xbytes(2)
        self.declare(nm, ("box", 0, sn))
        return [N("box", sn=sn, nm=nm, meth=meth, e=key)]

    # -- programs --------------------------------------------------------------------------
    def make_structs(self):
        out = []
        k = self.r.randrange(1, 4) if self.p["structs"] or self.p["boxes"] else 0
        for nm in self.r.sample(STRUCTS, k):
            fs, off = [], 0
            for f in self.r.sample(FIELDS, self.r.randrange(1, 6)):
                t = self.weighted([(T_INT, 5), (T_U8, 2), (TB(self.ch([1, 2, 4, 8, 10, 32])), 4),
                                   (("array", self.ch([1, 3, 8]), ""), 1),
                                   (TB(self.ch([200, 255, 256, 300])), 2.5 if self.p["bigstruct"] else 0.1)] +
                                  [(("struct", s["size"], n), 1) for n, s in self.structs.items()])
                fs.append((f, t, off))
                off += self.size(t)
            self.structs[nm] = {"fields": fs, "size": off}
            out.append(N("struct", nm=nm, fs=[{"nm": f, "ty": rec(t), "ln": 0} for f, t, _ in fs]))
        return out

    def make_funcs(self, n, base, depth):
        fs = []
        used = set()
        for i in range(n):
            free = [f for f in FUNCS if f not in used and f not in OPS]
            nm = self.ch(free)
            used.add(nm)
            ps, pn = [], set()
            for _ in range(self.ch([0, 1, 1, 2, 2, 3])):
                free = [v for v in VARS[:24] if v not in pn and v not in self.rootnames]
                if not free:
                    break
                v = self.ch(free)
                pn.add(v)
                ps.append((v, self.vtype()))
            rt = [self.vtype() for _ in range(self.ch([0, 0, 1, 1, 1, 2, 3]))]
            fs.append({"nm": nm, "ps": ps, "rt": rt, "rank": base + i, "ready": True, "pub": False, "oc": "NoOp"})
        return fs

    def function(self, f, depth):
        old = self.fn, self.rank, self.loop, self.ingroup, self.canjump
        self.fn, self.rank, self.loop, self.ingroup, self.canjump = f, f["rank"], 0, False, False

        self.fscope = len(self.scopes)

        def inner():
            ps = []
            for v, t in f["ps"]:
                if v in self.names():
                    v = self.fresh()
                self.declare(v, t)
                self.scopes[-1][-1]["bound"] = False
                ps.append({"nm": v, "ty": rec(t)})
            self.budget = self.r.randrange(0, max(2, self.p["stmts"] // 2))
            b = self.body(self.budget, min(2, self.p["depth"]))
            b.append(self.ret())
            return ps, b
        ps, b = self.scope(inner)
        self.fn, self.rank, self.loop, self.ingroup, self.canjump = old
        return N("func", nm=f["nm"], ps=ps, rt=[rec(t) for t in f["rt"]], body=b, pub=f["pub"], oc=f["oc"])

    def terminal(self):
        bs = self.jumpable()
        k = self.weighted([("exit", 3), ("jump", 2 if bs else 0), ("switch", 3 if bs else 0)])
        if k == "exit":
            return N("exit", e=self.xint(self.p["exprs"]))
        if k == "jump":
            return N("jump", nm=self.ch(bs)["nm"])
        self.pure += 1
        anyv, self.p["anyv"] = self.p["anyv"], 0
        t = self.ch([T_INT, T_INT, TB()])
        e = (N("txn", f=self.ch(["OnCompletion", "NumAppArgs"])) if isint(t) else N("txna", f="ApplicationArgs", ix=self.ival(0))) \
            if self.p_(.6) else self.ex(t, 2)
        opts = []
        for _ in range(self.r.randrange(1, 4)):
            if isint(t):
                o = self.ch([lambda: N("enum", nm=self.ch(COMPLETIONS)), self.small, lambda: self.xint(1)])()
            else:
                o = self.lit() if self.p_(.8) else self.xbytes(1)
            opts.append(N("opt", e=o, nm=self.ch(bs)["nm"]))
        self.pure -= 1
        self.p["anyv"] = anyv
        return N("switch", e=e, opts=opts, els=self.ch(bs)["nm"] if self.p_(.6) else "")

    def plan_blocks(self, n, depth):
        """tree of blocks with their functions; orders follow the tree"""
        out, used = [], set()
        for _ in range(n):
            free = [b for b in BLOCKS if b not in used]
            nm = self.ch(free[:5] if self.p_(self.p["shadow"]) else free)
            used.add(nm)
            self.order_count += 1
            b = {"nm": nm, "order": self.order_count}
            b["blocks"] = self.plan_blocks(self.ch([0, 0, 1, 2]), depth - 1) if depth > 0 else []
            out.append(b)
        return out

    def block(self, b, depth):
        oldo, oldr = self.order, self.rank
        self.order = b["order"]
        fs = self.make_funcs(self.ch([0, 0, 0, 1, 2]) if self.p["funcs"] else 0, oldr - 100, depth)
        self.rank = oldr - 101
        self.funcs_visible.append(fs)
        self.blocks_visible.append(b["blocks"])

        def inner():
            self.budget = self.r.randrange(1, max(3, self.p["stmts"] // 2))
            body = self.body(self.budget, min(2, self.p["depth"]))
            body.append(self.terminal())
            for v in self.scopes[-1]:
                v["ok"] = False
            return body + self.defs(fs, b["blocks"], depth)
        body = self.scope(inner)
        self.funcs_visible.pop()
        self.blocks_visible.pop()
        self.order, self.rank = oldo, oldr
        return N("block", nm=b["nm"], body=body)

    def defs(self, fs, bs, depth):
        items = [("f", f) for f in fs] + [("b", b) for b in bs]
        self.r.shuffle(items)
        return [self.function(x, depth) if k == "f" else self.block(x, depth - 1) for k, x in items]

    def program(self):
        self.uid = 0
        self.reserved = set()
        self.order_count, self.order, self.rank = 0, 0, 0
        self.scopes = [[]]
        out = self.make_structs()
        self.rootnames = set()
        # preamble: globals
        for _ in range(self.r.randrange(0, self.p["consts"] + 1)):
            out.append(self.constdef())
        self.funcs_visible, self.blocks_visible = [], []
        for _ in range(self.r.randrange(1, 5)):
            n = len(self.scopes[0])
            out += self.s_var(0)
            for v in self.scopes[0][n:]:
                v["pre"] = True
        if self.p_(.3):
            nm = self.fresh()
            out.append(N("var", ty=rec(T_INT), nm=nm, e=self.small(3)))
            v = self.declare(nm, T_INT, ro=True)
            v["pre"] = v["bound"] = True
        for _ in range(self.p["slots"]):
            out += self.s_var(0)
        self.rootnames = self.names()
        fs = self.make_funcs(self.r.randrange(0, self.p["funcs"] + 1) if self.p["funcs"] else 0, 1, 0)
        bs = self.plan_blocks(self.r.randrange(0, self.p["blocks"] + 1) if self.p["blocks"] else 0, 2)
        if self.p["router"]:
            bs = []
            for i, f in enumerate(fs):
                f["pub"] = i == 0 or self.p_(.8)
                f["oc"] = self.ch(COMPLETIONS + ["CreateApplication"]) if f["pub"] and self.p_(.5) else "NoOp"
            if not fs:
                fs = self.make_funcs(1, 1, 0)
                fs[0]["pub"] = True
        self.funcs_visible.append(fs)
        self.blocks_visible.append(bs)
        self.rank = 0
        self.canjump = self.p_(.3)
        if self.p["router"]:
            if self.p_(.4):
                self.budget = 3
                out += self.body(3, 1)
            rts = []
            for f in fs:
                if f["pub"] and (self.p_(.9) or not rts):
                    rts.append({"nm": f["nm"], "b": list(f["nm"].encode()), "ln": 0})
            self.r.shuffle(rts)
            out.append(N("router", rts=rts))
        else:
            out += self.body(self.budget, self.p["depth"])
            out.append(self.terminal())
        pre = [v for v in self.scopes[0] if v.get("pre") and v["ok"]]
        keep = bool(self.canjump)
        for v in self.scopes[0]:
            v["ok"] = v["ok"] if (v.get("pre") or not keep) else False
        # function bodies may run before the later variables exist
        late = [v for v in self.scopes[0] if not v.get("pre") and v["ok"]]
        for v in late:
            v["ok"] = False
        items = [("f", f) for f in fs] + [("b", b) for b in bs]
        self.r.shuffle(items)
        for k, x in items:
            if k == "f":
                out.append(self.function(x, 1))
            else:
                # blocks run after the main code
                if not keep and self.p_(.7):
                    for v in late:
                        v["ok"] = True
                out.append(self.block(x, 1))
                for v in late:
                    v["ok"] = False
        return out
