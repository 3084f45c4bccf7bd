"""Random handwritten TEAL, and programs with TEAL-like strings, for the checks of minification."""

STR = ['"//"', '"; // x"', '"L1"', '"L1 L2:"', '"a\\"//b"', '"\\\\"', '"b L1"', '"#pragma"', '"  two  spaces  "', '"L2:"', '"\\x2f\\x2f"', "0x2f2f",
       '"//\\\\"', '";"', '"\\";b L1//"', '"http://x/y//z"']
LAB = ["L1", "L2", "L11", "L1_end", "l", "loop", "_x", "main", "b2", "bz_", "int1", "Fee1", "1a", "a-b", "x.y", "L", "L__2", "end", "err_1", "q" * 40,
       "callsub1", "txn1", "match_", "switch_1", "a,b", "é1", "log1", "return1", "if_true?", "(x)", "a/b", "l//"[:1] + "z"]


def program(rng):
    labs = rng.sample(LAB, rng.choice([2, 3, 4, 6, 9]))
    n = rng.choice([6, 10, 16, 24])
    code = []
    defd = []
    places = sorted(rng.choices(range(n + 1), k=len(labs)))
    if rng.random() < .7:          # labels next to each other
        k = rng.randrange(len(labs))
        places = sorted(places[:k] + [places[k]] * (len(labs) - k))
    byp = {}
    for l, p in zip(labs, places):
        byp.setdefault(p, []).append(l)

    def target():
        return rng.choice(labs)

    def stmt():
        k = rng.random()
        if k < .2:
            return [f"byte {rng.choice(STR)}", "log"]
        if k < .3:
            return [rng.choice(["txn Fee", "txn Amount", "pushint 1", "int 0x10", "global Round", "load 3"]), rng.choice(["bnz ", "bz "]) + target()]
        if k < .36:
            return ["b " + target()]
        if k < .44:
            return ["callsub " + target()]
        if k < .5:
            return ["txn Fee", "switch " + " ".join(rng.choices(labs, k=rng.choice([0, 1, 2, 4])))]
        if k < .54:
            ls = rng.choices(labs, k=2)
            return ["int 1", "int 2", "txn Amount", f"match {ls[0]} {ls[1]}"]
        if k < .6:
            return ["retsub"]
        if k < .68:
            return ["txn Amount", "itob", "log"]
        if k < .74:
            return ["int 7", "store 3"]
        if k < .8:
            return [f"byte {rng.choice(STR)}", "pop"]
        if k < .84:
            return ["txn Fee", "assert"]
        if k < .88:
            return ["int 1", "return"]
        if k < .9:
            return ["byte \"k\"", "txn Fee", "app_global_put"]
        if k < .94:
            return rng.choice([["int 3", "loads", "pop"], ["int 3", "txn Fee", "stores"], ["txn Amount", "loads", "itob", "log"], ["int 1", "int 2", "dig 1", "cover 2", "popn 3"],
                               ["int 1", "frame_bury -1"], ["frame_dig -1", "itob", "log"], ["proto 1 1"], ["proto 0 0"], ["frame_dig 0", "assert"], ["arg_2", "log"], ["intc_0", "pop"],
                               ["int 4", "dupn 2", "uncover 2", "pop", "pop", "pop"]])
        return ["load 3", "int 1", "+", "store 3"]

    def deco(s):
        r = rng.random()
        if r < .12:
            s += rng.choice([" ", "", "  "]) + "//" + rng.choice(["", " c", " " + rng.choice(labs) + ":", " \"unclosed", "; b " + rng.choice(labs), "//", " tl:3"])
        return rng.choice(["", "", "  ", "\t", "    "]) + s + rng.choice(["", "", "", "  ", "\t"])
    out = ["#pragma version 8"]
    if rng.random() < .3:
        out.append("#define K1 pushint 4")
        out.append('#define S2 byte "//L1"')
    for i in range(n + 1):
        for l in byp.get(i, []):
            r = rng.random()
            if r < .1:
                out.append(deco(f"{l}: int 1") if rng.random() < .5 else deco(f"int 2; pop; {l}:"))
                if "int 1" in out[-1] and rng.random() < .8:
                    out.append(deco("pop"))
            else:
                out.append(deco(l + ":"))
            while rng.random() < .25:
                out.append(rng.choice(["", "   ", "// " + rng.choice(labs) + ":", "//", "  // tl:9", "\t"]))
        ss = stmt()
        if rng.random() < .3:
            out.append(deco(rng.choice(["; ", ";", " ; "]).join(ss)))
        else:
            out += [deco(s) for s in ss]
        while rng.random() < .15:
            out.append(rng.choice(["", "// comment", "// " + rng.choice(labs) + ":", "  "]))
    if rng.random() < .4:
        out += ["int 1", "return"]
    if rng.random() < .5:
        out.append("")
    return out
