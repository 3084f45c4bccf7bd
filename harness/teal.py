"""Tokens of TEAL text, for the Avm module of the specification."""
import re

from tl import address, decode, Bad

MAX = 2 ** 64 - 1


def lex(line):
    """statements of a line of TEAL: lists of (text, quoted)"""
    stmts, cur, i = [], [], 0
    while i < len(line):
        c = line[i]
        if c in " \t\r":
            i += 1
        elif c == ";":
            stmts.append(cur)
            cur = []
            i += 1
        elif line.startswith("//", i):
            break
        elif c == '"':
            j = i + 1
            while j < len(line) and line[j] != '"':
                j += 2 if line[j] == "\\" else 1
            if j >= len(line):
                cur.append((line[i:], "bad"))
                break
            cur.append((line[i:j + 1], True))
            i = j + 1
        else:
            j = i
            while j < len(line) and line[j] not in " \t\r;" and not line.startswith("//", j):
                j += 1
            cur.append((line[i:j], False))
            i = j
    stmts.append(cur)
    return [s for s in stmts if s]


def token(text, q):
    t = {"s": text, "w": [], "n": -1, "b": [0], "q": bool(q), "lb": False}
    if q == "bad":
        t["s"] = "<unterminated string>"
        return t
    if q:
        try:
            t["b"] = [1] + list(decode_teal(text[1:-1]))
        except Bad:
            pass
        return t
    if re.fullmatch(r"0[xX][0-9a-fA-F]*", text):
        h = text[2:]
        if len(h) % 2 == 0:
            t["b"] = [1] + list(bytes.fromhex(h))
        v = int(h, 16) if h else None
    elif re.fullmatch(r"0[0-7]+", text):
        v = int(text, 8)               # as in Go: a leading zero means octal
    elif re.fullmatch(r"0|[1-9][0-9]*", text):
        v = int(text)
    else:
        v = None
    if v is not None and v <= MAX:
        t["w"] = list(v.to_bytes(8, "big"))
        if v < 2 ** 31:
            t["n"] = v
    if len(text) == 58:
        a = address(text)
        if a:
            t["b"] = [1] + list(a)
    if text.endswith(":") and len(text) > 1:
        t["lb"] = True
        t["s"] = text[:-1]
    return t


def decode_teal(s):
    if "\\'" in re.findall(r"\\.|[^\\]", s):
        raise Bad("escape")
    return decode(s)


def statements(lines):
    """[{l, t}] for numbered lines [(text, line number)]"""
    out = []
    for text, no in lines:
        if "\n" in text:
            # a line of the program is one line of the file
            out.append({"l": no, "t": [token("<line break>", "bad")]})
            continue
        for s in lex(text):
            toks = [token(*x) for x in s]
            for t in toks[1:]:
                if t["lb"]:
                    t["lb"], t["s"] = False, t["s"] + ":"
            out.append({"l": no, "t": toks})
    return out


def program(lines):
    return statements([(l, i + 1) for i, l in enumerate(lines)])


def inline(lines):
    return statements([(l, n) for l, n in lines])
