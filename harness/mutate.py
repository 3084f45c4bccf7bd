"""Small changes of programs (abstract syntax), most of which break a rule of the language."""
import copy

from tl import N, KIDS, OPS, BUILTINS, walk, iv, bv, type_rec
from gen import rec, T_INT, T_U8, TB

EXPRS = {"int", "byt", "cst", "enum", "id", "un", "bin", "ucall", "op", "std", "txn", "itx", "glob", "txna", "itxa", "gtxn",
         "gtxna", "fld"}


def exprs(body):
    """(container, key) of each expression that is a child of a node"""
    out = []
    for x in walk(body):
        for f in KIDS.get(x["k"], []):
            v = x.get(f)
            if isinstance(v, list):
                out += [(v, i) for i, y in enumerate(v) if isinstance(y, dict) and y.get("k") in EXPRS]
            elif isinstance(v, dict) and v.get("k") in EXPRS:
                out.append((x, f))
        for m in x.get("im", []):
            if m["t"] == "e":
                out.append((m, "e"))
    return out


def bodies(body):
    out = [body]
    for x in walk(body):
        for f in ("body", "els"):
            if isinstance(x.get(f), list) and x["k"] not in ("teal",):
                out.append(x[f])
    return out


class M:
    def __init__(self, rng):
        self.r = rng

    def mutate(self, body, k=1, kinds=None):
        """a changed copy, or None"""
        b = copy.deepcopy(body)
        for _ in range(k):
            for _ in range(20):
                f = self.r.choice(kinds or MUTATIONS)
                if getattr(self, f)(b):
                    break
            else:
                return None
        return b

    def pick(self, body, *kinds):
        xs = [x for x in walk(body) if x.get("k") in kinds]
        return self.r.choice(xs) if xs else None

    # names
    def undeclared(self, b):
        x = self.pick(b, "id", "fld", "fasg", "asg", "cst", "ucall", "jump", "opt", "enum")
        if not x:
            return False
        if x["k"] == "asg":
            i = self.r.randrange(len(x["nms"]))
            x["nms"][i] = "nowhere"
        elif x["k"] == "cst":
            x["nm"] = "NOWHERE"
        elif x["k"] == "enum":
            x["nm"] = "Nowhere"
        else:
            x["nm"] = "nowhere"
        return True

    def othername(self, b):
        """use another declared name"""
        kinds = self.r.choice([("id",), ("id",), ("id",), ("cst",), ("ucall",), ("jump", "opt"), ("fld", "fasg")])
        x, y = self.pick(b, *kinds), self.pick(b, *kinds)
        if not x or x["nm"] == y["nm"]:
            return False
        x["nm"] = y["nm"]
        if self.r.random() < .5 and "f" in y and "f" in x:
            x["f"] = y["f"]
        return True

    def othervar(self, b):
        x = self.pick(b, "id")
        y = self.pick(b, "var", "box", "for")
        if not x or not y:
            return False
        x["nm"] = y["nm"]
        return True

    def assignother(self, b):
        x, y = self.pick(b, "asg"), self.pick(b, "var", "box", "for")
        if not x or not y:
            return False
        x["nms"][self.r.randrange(len(x["nms"]))] = y["nm"]
        return True

    def redeclare(self, b):
        x, y = self.pick(b, "var", "for", "box"), self.pick(b, "var", "for", "box")
        if not x or x["nm"] == y["nm"]:
            return False
        x["nm"] = y["nm"]
        return True

    def duplicate(self, b):
        """repeat a definition or declaration"""
        body = self.r.choice(bodies(b))
        xs = [x for x in body if x["k"] in ("var", "func", "block", "struct", "const", "box", "exit", "ret")]
        if not xs:
            return False
        x = self.r.choice(xs)
        body.insert(body.index(x) + 1, copy.deepcopy(x))
        return True

    def renamedef(self, b):
        kind = self.r.choice(["func", "block", "struct", "const"])
        x, y = self.pick(b, kind), self.pick(b, kind)
        if not x or x is y:
            return False
        x["nm"] = y["nm"]
        return True

    # values
    def value(self, b):
        es = exprs(b)
        if not es:
            return False
        c, i = self.r.choice(es)
        if c.get("k") == "grel" if isinstance(c, dict) else False:
            return False
        c[i] = self.some()
        return True

    def some(self):
        r = self.r
        return r.choice([
            lambda: N("int", v=iv(r.choice([0, 1, 255, 256, 70000, 2 ** 64 - 1]))),
            lambda: N("byt", v=bv(b"x" * r.choice([0, 1, 2, 8, 32]))),
            lambda: N("enum", nm=r.choice(BUILTINS)),
            lambda: N("txn", f=r.choice(["Fee", "Sender", "Note", "Receiver"])),
            lambda: N("txna", f=r.choice(["ApplicationArgs", "Assets"]), ix=N("int", v=iv(0))),
            lambda: N("op", nm="itob", im=[], args=[N("int", v=iv(1))]),
            lambda: N("op", nm="log", im=[], args=[N("byt", v=bv(b"x"))]),
            lambda: N("op", nm="addw", im=[], args=[N("int", v=iv(1)), N("int", v=iv(2))]),
            lambda: N("std", nm="bzero", args=[N("int", v=iv(r.choice([1, 8])))], tys=[]),
            lambda: N("un", op=r.choice(["!", "~", "b~"]), a=N("int", v=iv(1))),
        ])()

    def swap(self, b):
        es = exprs(b)
        if len(es) < 2:
            return False
        (c, i), (d, j) = self.r.sample(es, 2)
        c[i] = copy.deepcopy(d[j])
        return True

    def operator(self, b):
        x = self.pick(b, "bin", "un")
        if not x:
            return False
        if x["k"] == "un":
            x["op"] = self.r.choice(["!", "~", "b~"])
        else:
            x["op"] = self.r.choice(["+", "b+", "==", "b==", "&&", "<", "b<", "%", "b&", "!=", "b!="])
        return True

    def literal(self, b):
        x = self.pick(b, "int", "byt")
        if not x:
            return False
        x.pop("src", None)
        if x["k"] == "int":
            x["v"] = iv(self.r.choice([0, 1, 2, 15, 16, 17, 255, 256, 257, 65535, 2 ** 64 - 1]))
        else:
            v = bytes(x["v"][1])
            x["v"] = bv(self.r.choice([v + b"x", v[:-1], b"", v * 2]))
        return True

    # calls
    def arity(self, b):
        x = self.pick(b, "ucall", "op", "std")
        if not x:
            return False
        if x["args"] and self.r.random() < .5:
            x["args"].pop(self.r.randrange(len(x["args"])))
        else:
            x["args"].insert(self.r.randrange(len(x["args"]) + 1), self.some())
        return True

    def argorder(self, b):
        xs = [x for x in walk(b) if x.get("k") in ("ucall", "op", "std") and len(x["args"]) > 1]
        if not xs:
            return False
        a = self.r.choice(xs)["args"]
        i, j = self.r.sample(range(len(a)), 2)
        a[i], a[j] = a[j], a[i]
        return True

    def opname(self, b):
        x = self.pick(b, "op")
        if not x:
            return False
        same = [o for o in OPS if OPS[o]["n"] == len(x["im"]) and len(OPS[o]["a"]) == len(x["args"]) and OPS[o]["fi"] == 0]
        x["nm"] = self.r.choice(same + ["nosuchop"]) if same else "nosuchop"
        return True

    def immediate(self, b):
        xs = [x for x in walk(b) if x.get("k") == "op" and x["im"]]
        if not xs:
            return False
        m = self.r.choice(self.r.choice(xs)["im"])
        if m["t"] == "f":
            m["s"] = self.r.choice(["Nowhere", "AssetName", "AppCreator"])
        elif m["t"] == "e":
            m["e"] = N("int", v=iv(self.r.choice([0, 255, 256, 1000])))
        else:
            return False
        return True

    def field(self, b):
        x = self.pick(b, "txn", "txna", "gtxn", "gtxna", "glob", "itx", "itxa", "fs", "fld", "fasg")
        if not x:
            return False
        x["f"] = self.r.choice(["Fee", "Sender", "Accounts", "Assets", "Nothing", "CreatedAssetID", "ZeroAddress", "a"] if x["k"] not in ("fld", "fasg")
                               else ["nothing", "a", "id", "x"])
        return True

    def index(self, b):
        x = self.pick(b, "txna", "itxa", "gtxn", "gtxna", "fs")
        if not x:
            return False
        if x["k"] == "fs":
            x["ix"] = self.r.choice([-1, 0, 1, 2])
            return True
        f = self.r.choice([f for f in ("ix", "gi") if f in x])
        x[f] = self.r.choice([N("int", v=iv(self.r.choice([15, 16, 255, 256]))), N("byt", v=bv(b"x")), N("txn", f="Note")])
        return True

    def stdtypes(self, b):
        xs = [x for x in walk(b) if x.get("k") == "std" and x["tys"]]
        if not xs:
            return False
        x = self.r.choice(xs)
        i = self.r.randrange(len(x["tys"]))
        x["tys"][i] = self.type(x["tys"])
        return True

    def type(self, others):
        return self.r.choice([rec(T_INT), rec(T_U8), rec(TB()), rec(TB(8)), rec(TB(3)), rec(("array", 2, "")),
                              rec(("bigint", 0, "")), rec(("struct", 0, "Nowhere")), rec(("struct", 0, "Item"))])

    # declarations
    def vartype(self, b):
        x = self.pick(b, "var", "func", "struct")
        if not x:
            return False
        t = self.type(0)
        if x["k"] == "var":
            x["ty"] = t
        elif x["k"] == "struct":
            self.r.choice(x["fs"])["ty"] = t
        elif x["ps"] and self.r.random() < .5:
            self.r.choice(x["ps"])["ty"] = t
        elif x["rt"]:
            x["rt"][self.r.randrange(len(x["rt"]))] = t
        else:
            return False
        return True

    def signature(self, b):
        x = self.pick(b, "func")
        if not x:
            return False
        k = self.r.randrange(4)
        if k == 0 and x["ps"]:
            x["ps"].pop(self.r.randrange(len(x["ps"])))
        elif k == 1:
            x["ps"].append({"nm": self.r.choice(["extra", "a", "b"]), "ty": rec(T_INT)})
        elif k == 2 and x["rt"]:
            x["rt"].pop()
        else:
            x["rt"].append(rec(T_INT))
        return True

    def structfield(self, b):
        x = self.pick(b, "struct")
        if not x:
            return False
        k = self.r.randrange(3)
        if k == 0 and len(x["fs"]) > 1:
            x["fs"].pop(self.r.randrange(len(x["fs"])))
        elif k == 1 and len(x["fs"]) > 1:
            x["fs"][0]["nm"] = x["fs"][-1]["nm"]
        else:
            x["fs"].append({"nm": "added", "ty": rec(self.r.choice([T_INT, TB(4), TB()])), "ln": 0})
        return True

    def consttype(self, b):
        x = self.pick(b, "const")
        if not x:
            return False
        x["ct"] = self.r.choice(["int", "bytes", "bigint"])
        return True

    # statements
    def delete(self, b):
        body = self.r.choice(bodies(b))
        if not body:
            return False
        body.pop(self.r.randrange(len(body)))
        return True

    def move(self, b):
        bs = bodies(b)
        src, dst = self.r.choice(bs), self.r.choice(bs)
        if not src:
            return False
        x = src[self.r.randrange(len(src))]
        if any(y is dst for y in bodies([x])):
            return False
        if x["k"] in ("func", "block", "struct") and dst is not b and self.r.random() < .8:
            return False
        src.remove(x)
        dst.insert(self.r.randrange(len(dst) + 1), x)
        return True

    def insert(self, b):
        body = self.r.choice(bodies(b))
        x = self.r.choice([
            lambda: N("break"), lambda: N("ret", es=[]), lambda: N("ret", es=[self.some()]), lambda: N("exit", e=self.some()),
            lambda: N("call", e=self.callable()), lambda: N("asg", nms=["_"], e=self.some()),
            lambda: N("asg", nms=["_", "_"], e=self.some()), lambda: N("jump", nm="main"), lambda: N("assert", e=self.some()),
            lambda: N("if", neg=False, e=self.some(), body=[], elifs=[], els=[], hasElse=False),
            lambda: N("while", neg=True, e=self.some(), body=[N("break")])])()
        body.insert(self.r.randrange(len(body) + 1), x)
        return True

    def callable(self):
        while True:
            e = self.some()
            if e["k"] in ("op", "std"):
                return e

    def returns(self, b):
        x = self.pick(b, "ret")
        if not x:
            return False
        if x["es"] and self.r.random() < .5:
            x["es"].pop()
        elif self.r.random() < .5:
            x["es"].append(self.some())
        elif x["es"]:
            x["es"][self.r.randrange(len(x["es"]))] = self.some()
        return True

    def targets(self, b):
        x = self.pick(b, "asg")
        if not x:
            return False
        if len(x["nms"]) > 1 and self.r.random() < .6:
            x["nms"].pop()
        else:
            x["nms"].append("_")
        return True

    def calltoasg(self, b):
        x = self.pick(b, "asg", "call")
        if not x:
            return False
        if x["k"] == "call":
            x["k"] = "asg"
            x["nms"] = ["_"]
        elif x["e"]["k"] in ("op", "ucall", "std"):
            x["k"] = "call"
            x.pop("nms")
        else:
            return False
        return True

    def switchelse(self, b):
        x = self.pick(b, "switch")
        if not x:
            return False
        x["els"] = "nowhere" if self.r.random() < .5 else ""
        return True

    def route(self, b):
        x = self.pick(b, "router")
        f = self.pick(b, "func")
        if not x or not f:
            return False
        k = self.r.randrange(3)
        if k == 0:
            x["rts"].append({"nm": f["nm"], "b": list(f["nm"].encode()), "ln": 0})
        elif k == 1:
            x["rts"].append({"nm": "nowhere", "b": list(b"nowhere"), "ln": 0})
        else:
            f["pub"] = not f["pub"]
        return True


MUTATIONS = ["undeclared", "othername", "othervar", "assignother", "redeclare", "duplicate", "renamedef", "value", "value", "swap", "swap",
             "operator", "literal", "arity", "argorder", "opname", "immediate", "field", "index", "stdtypes", "vartype", "vartype",
             "signature", "structfield", "consttype", "delete", "delete", "move", "insert", "insert", "returns", "targets",
             "calltoasg", "switchelse", "route"]

# changes of one statement that leave the other statements valid
LOCAL = ["undeclared", "undeclared", "value", "value", "operator", "literal", "arity", "opname", "immediate", "field", "index",
         "stdtypes", "insert", "returns", "targets", "calltoasg"]
