"""Texts for the Structure module: from kinds of lines to text, and from text to kinds of lines."""
import re

import tl

SIMPLE = {
    "blank": ["", "   "], "comment": ["# c", "#", "#if 1:"], "pragma": ["#pragma version 8"], "end": ["end"],
    "stmt": ['log("a")', "assert(1)", 'app_global_put("k", 1)', "log(Txn.Sender)", 'log("x: y")'],
    "const": ["const int K{i}K = 1", 'const bytes K{i}K = "a"'], "exit": ["exit(1)", "exit(0)"], "jump": ["jump {b}"], "break": ["break"],
    "if": ["if 1:", "if not Txn.Fee:"], "elif": ["elif 1:", "elif not Txn.Fee:"], "else": ["else:"], "while": ["while Txn.Fee:", "while not 1:"],
    "for": ["for i{i} in 0:2:"], "block": ["block b{i}:"], "switch": ["switch Txn.Fee:"], "router": ["router:"], "teal": ["teal:"],
    "itxn": ["inner_txn:"], "group": ["inner_group:"], "struct": ["struct S{i}x:"], "dec": ["@public()", "@public(OnCompletion=OptIn)"],
    "elsepair": ["else: {b}"], "field": ["f{i}: int", "f{i}: bytes[4]", "f{i}: uint8"], "pair": ["{i}: {b}", "Fee: {i}"], "word": ["dup", "{f}", "foo"],
    "junk": ["???", ")", "x =", "else", "if 1", "elif 1", "1 + 1", "end end", "enda", "else: exit(1)x(", "f(", "= 1", "int", "while 1", "@public", "func f()"],
}


def instantiate(kinds, rng):
    """a text with the given kinds of lines"""
    bs = [f"b{i}" for i, (k, _) in enumerate(kinds) if k == "block"] or ["nowhere"]
    fs = [f"g{i}" for i, (k, _) in enumerate(kinds) if k == "func"] or ["nofunc"]
    out, open_ = [], []
    for i, (k, n) in enumerate(kinds):
        if k == "func":
            s = f"func g{i}(){' int' if n else ''}:"
        elif k == "ret":
            s = "return 1" if n else "return"
        else:
            top = open_[-1] if open_ else ""
            alts = SIMPLE[k]
            if k == "junk":
                alts = [a for a in alts if ": " not in a]
            if k == "pair":
                alts = alts[:1] if top == "switch" else alts[1:] if top == "itxn" else alts
            if k == "word":
                alts = alts[1:2] if top == "router" else alts[:1] if top == "teal" else alts
            s = rng.choice(alts).format(i=i, b=rng.choice(bs), f=rng.choice(fs))
        if k in ("if", "while", "for", "block", "switch", "router", "teal", "itxn", "group", "struct", "func"):
            open_.append(k)
        elif k == "end" and open_:
            open_.pop()
        out.append(s)
    return "\n".join(out)


RULES = [
    ("blank", r""), ("pragma", r"#pragma.*"), ("comment", r"#.*"), ("end", r"end"),
    ("if", r"if .*:"), ("elif", r"elif .*:"), ("else", r"else:"), ("while", r"while .*:"), ("for", r"for .*:"), ("block", r"block .*:"),
    ("switch", r"switch .*:"), ("router", r"router:"), ("teal", r"teal:"), ("itxn", r"inner_txn:"), ("group", r"inner_group:"),
    ("struct", r"struct .*:"), ("dec", r"@.*\(.*\)"), ("elsepair", r"else: .*"), ("const", r"const .*"), ("jump", r"jump .*"),
    ("ret", r"return(?![a-zA-Z0-9_]).*"), ("break", r"break"), ("exit", r"exit\(.*\)"),
    ("stmt", r"(?:[A-Za-z][A-Za-z0-9_]*(?:\[[0-9]+\])? [a-z][a-zA-Z0-9_]*(?: = .*)?)|box<.*|[a-z][A-Za-z_0-9]*\.[a-z][A-Za-z_0-9]* = .*|"
             r"[a-z_][A-Za-z_0-9]*(?:\s*,\s*[a-z_][A-Za-z_0-9]*)*\s* = .*|[A-Za-z_0-9]+\(.*\)"),
    ("field", r"[a-z][a-zA-Z0-9_]*: [a-zA-Z][A-Za-z0-9_]+(?:\[\d+\])?"), ("pair", r".*: .*"), ("word", r"[A-Za-z_0-9]+"),
]
RULES = [(k, re.compile(r)) for k, r in RULES]


def classify(text):
    """the kinds of the lines of a text"""
    out = []
    for x in text.split("\n"):
        s = tl.strip(x)
        k = next((k for k, r in RULES if r.fullmatch(s)), "")
        n = 0
        if s.startswith("func "):
            m = re.fullmatch(r"func ([a-zA-Z_0-9]+)\((.*)\)(.*):", s)
            if m:
                k, n = "func", len([t for t in m[3].split(",") if t.strip()])
        elif k == "ret":
            r = s[6:].strip()
            n = len(tl.split_commas(r)) if r else 0
        out.append({"k": k or "word", "n": n})
    return out


def shuffle_lines(text, rng):
    """some lines moved, removed or repeated"""
    ls = text.rstrip("\n").split("\n")
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        i, j = rng.randrange(len(ls)), rng.randrange(len(ls))
        k = rng.randrange(6)
        if k == 0 and len(ls) > 1:
            del ls[i]
        elif k == 1:
            ls.insert(j, ls[i])
        elif k == 2:
            ls[i], ls[j] = ls[j], ls[i]
        elif k == 3:
            ls.insert(i, rng.choice(["end", "else:", "block q:", "exit(1)", "if 1:", "return", "break", "teal:", "struct Qq:", "inner_group:", "@public()"]))
        elif k == 4 and len(ls) > 3:
            del ls[rng.randrange(1, len(ls)):]
        else:
            ends = [n for n, x in enumerate(ls) if x.strip() == "end"]
            if ends:
                del ls[rng.choice(ends)]
    return "\n".join(ls) + rng.choice(["", "\n"])


PIECES = ["(", ")", "\"", "'", "\\", ":", " = ", ",", "#", "[", "]", ".", "0x", "b\"", "+", "end", "\n", "\t", "\x00", "é", "\u2028", "\x85", "\x0c", "\r",
          "1_0", "99999999999999999999999", "Cast(", "push(", "pop()", "Txn.", "Gtxn[+1].", "_", "not ", "int ", "box<", ">", "@", "FromBytes(", "if ", "//",
          "while ", "func f(", "bytes[", "bytes[0]", "uint8[70000]", "SizeOf(", "Error()", "Address(\"A\")", "ARC28Event(\"x\")", "method(\"x()\")", "{", "%", "$&"]


def fuzz(text, rng):
    """some characters changed"""
    s = text
    for _ in range(rng.choice([1, 1, 2, 3, 8])):
        i = rng.randrange(len(s) + 1)
        k = rng.randrange(5)
        if k == 0:
            s = s[:i] + s[i + rng.choice([1, 1, 2, 5, 20]):]
        elif k == 1:
            s = s[:i] + rng.choice(PIECES) + s[i:]
        elif k == 2:
            s = s[:i] + rng.choice(PIECES) + s[i + 1:]
        elif k == 3:
            j = rng.randrange(len(s) + 1)
            s = s[:i] + s[j:j + rng.choice([1, 3, 10, 40])] + s[i:]
        else:
            words = list(re.finditer(r"[A-Za-z_0-9]+", s))
            if len(words) > 1:
                a, b = rng.choice(words), rng.choice(words)
                s = s[:a.start()] + b[0] + s[a.end():]
    return s


def soup(rng):
    """tokens in any order"""
    words = PIECES + ["x", "y", "int x", "bytes b", "Item", "K1", "1", "\"a\"", "if 1:", "else:", "end", "exit(1)", "return", "block a:", "jump a", "log(", "itob(", "len("]
    return "\n".join("".join(rng.choice(words) + rng.choice(["", " "]) for _ in range(rng.randrange(1, 7))) for _ in range(rng.randrange(1, 12)))


FORMS = ["#pragma version 8", "const int K = 1", "const bytes K = \"a\"", "const bytes K = 0xab", "jump a", "exit(x)", "f(x, y)", "assert(x)", "assert(x, \"m\")", "int x", "int x = y",
         "bytes[8] x = \"a\"", "x = y", "x, y = f(z)", "block a:", "switch x:", "router:", "teal:", "inner_txn:", "inner_group:", "if x:", "if not x:", "while x:", "while not x:",
         "for i in x:y:", "for _ in 0:10:", "func f(x: int, y: bytes[8]) int, bytes:", "return x, y", "return \"a\"", "@public()", "@public(OnCompletion=OptIn)", "struct S:", "a.b = x",
         "box<S> x = Box(y)", "box<S> x = CreateBox(\"k\")", "break", "x = Txn.Fee", "x = Gtxn[+1].Accounts[2]", "x = a.b", "x = K", "x = not y", "x = (1 + 2) * 3",
         "x = \"it's # no // comment\"", "x = 'a'", "x = 0xff", "# comment"]
PLACES = [("", ""), ("switch 1:\n", "\nend"), ("inner_txn:\n", "\nend"), ("struct S:\n", "\nend"), ("exit(1)\nfunc f():\n", "\nreturn\nend"), ("router:\n", "\nend"), ("teal:\n", "\nend"),
          ("if 1:\n", "\nend\nexit(1)"), ("exit(1)\n@public()\n", "\nfunc f():\nreturn\nend")]


def stretched(rng, n):
    """each form of line with one of its words, numbers, strings, marks or spaces very long, and then cut or with something after it"""
    out = []
    for f in FORMS + ["a: x", "x: int", "x: bytes[8]", "1: a", "else: a", "ApplicationArgs[0]: x", "Fee: 1", "f", "pushint 1"]:
        for m in re.finditer(r"\w+|\s+|[^\w\s]", f):
            w = m[0]
            for x in (w * 60, ("a_" if w[0].isalpha() else "\\x00" if w == "\"" else "()" if w == "(" else w + " ") * 60):
                t = f[:m.start()] + x + f[m.end():]
                for a, b in (PLACES[0], rng.choice(PLACES[1:])):
                    out += [a + u + b for u in rng.sample((t, t + rng.choice(["!", "(", ")", ",", " ", "\"", "'", ":", "]", "#"]), t[:-1], t[:-2]), 2 if a else 4)]
    return out if n is None else rng.sample(out, min(n, len(out)))


def extremes(rng):
    """deep, long and degenerate texts"""
    out = ["", "\n", " ", "\n\n\n", "#", "#pragma", "#pragma version", "#pragma version 8", "\x00", "end", "\ufeffexit(1)", "exit(1)\r\n", "exit(1)\r\nexit(1)\r\n"]
    for d in (3, 10, 24, rng.randrange(25, 60)):
        out += ["exit(" + "(" * d + "1" + " + 1)" * d + ")", "exit(" + "(" * d + "1" + " + 1)" * (d - 1) + ")", "exit(" + "(1 + " * d + "1" + ")" * d + ")",
                "exit(" + "len(itob(" * d + "1" + "))" * d + ")", "exit(" + "len(itob(" * d + "1" + "))" * d, "exit(" + "!" * d + "1)",
                "exit(" + "len(Txn.ApplicationArgs[" * d + "1" + "])" * d + ")", "exit(" + "Gtxn[" * d + "1" + "].Fee" * d + ")",
                "exit(" + "FromBytes(ToBytes(" * d + "1" + ", 8), int)" * d + ")", "exit(" + "f(" * d + "1" + ")" * (d + 1)]
        out += ["\n".join([h] * d + ["end"] * d + ["exit(1)"]) for h in ("if 1:", "while 1:", "for i in 0:2:", "inner_group:")]
        out += ["\n".join(["if 1:"] * d), "\n".join(["switch 1:"] * d), "exit(1)\n" + "\n".join(["block a:", "exit(1)"] * d + ["end"] * d)]
    for n in (300, rng.randrange(400, 3000)):
        out += ["\n".join(["if 1:"] * n + ["end"] * n + ["exit(1)"]), "exit(" + "!" * n + "1)", "exit(" + "(" * n + "1" + " + 1)" * n + ")",
                "log(\"" + "a" * n * 10 + "\")\nexit(1)", "x" + ", x" * n + " = 1", "exit(1)\nfunc f(" + "a: int, " * n + ") int:\nreturn 1\nend",
                "assert(1, \"" + "\\\\" * n, "log(\"" + "\\\"" * n, "exit(1)\nfunc f():\nreturn " + "(" * n + "\nend", "int x = " + "a" * n * 5,
                "exit(" + "1 + " * n + "1)", "x = " + "1, " * n, "jump " + "a" * n, "struct S:\n" + "".join(f"f{i}: int\n" for i in range(n)) + "end\nexit(1)",
                "".join(f"int v{i} = {i}\n" for i in range(min(n, 400))) + "exit(1)", "switch 1:\n" + "1: a\n" * n + "end\nblock a:\nexit(1)\nend",
                "a" * n + " = 1", "a " * n, "[" * n, "\"" * n, "'" * n, "#" * n, "\\" * n, ":" * n, "exit(\"" + "'\"" * n + ")", "\n" * n, "if " + "not " * n + "1:\nend\nexit(1)",
                "elif 1:\n" * n, "else: " * n, "1: " * n, "switch 1:\n" + "1: " * n + "a\nend\nexit(1)", "inner_txn:\n" + "Fee[1]" * n + ": 1\nend\nexit(1)"]
    return out
