"""Source text as lines of tokens, for the Layout module."""
import re

import tl

TOKEN = re.compile(r"""(?P<s>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|(?P<w>box<[A-Za-z0-9_]+>)|(?P<o>\bb(?:==|!=|>=|<=|[-+*/%<>|&^~])(?!\w*>)|"""
                   r"""==|!=|>=|<=|&&|\|\||[-+*/%<>|&^!~=])|(?P<w2>[A-Za-z_0-9][A-Za-z_0-9]*(?:\.[A-Za-z_][A-Za-z_0-9]*)*)|(?P<p>[^\s])""")


def number(x):
    """numbers (and values in hexadecimal) have several written forms"""
    y = x.replace("_", "")
    return str(int(y)) if y.isdecimal() and y.isascii() and len(y) < 4000 else x.lower() if re.fullmatch("0x[0-9a-fA-F]+", x) else x


def line(text):
    """a line of source text"""
    code = tl.strip(text)
    full = text.strip()
    if code.startswith("#") and not code.startswith("#pragma"):
        code = ""
    if code.startswith("#pragma"):
        code = full.split(" #")[0].rstrip()
    com = full[len(code):].strip()
    toks, gaps, at = [], [], 0
    body = code
    if code.startswith("#"):
        body, toks, gaps = "", [{"x": code, "c": "w", "v": []}], [0]
    for m in TOKEN.finditer(body):
        k = m.lastgroup[0]
        toks.append({"x": number(m[0]) if m[0][0].isdigit() and k == "w" else m[0], "c": k, "v": list(tl.decode(m[0][1:-1])) if k == "s" else []})
        gaps.append(m.start() - at)
        at = m.end()
    lead = len(text) - len(text.lstrip())
    return {"code": code, "com": com, "t": toks, "g": gaps, "ind": lead, "cgap": len(full) - len(code) - len(com),
            "odd": text != text.rstrip() or "\t" in text[:lead]}


def lines(text):
    return [line(x) for x in text.split("\n") if x.strip()]


def shake(text, rng):
    """another indentation"""
    out = []
    for x in text.split("\n"):
        y = x.strip()
        out.append(rng.choice(["", " ", "      ", "\t", "   \t "]) + y + rng.choice(["", "", " ", "\t", "   "]))
    return "\n".join(out)
