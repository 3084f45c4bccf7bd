"""Writes MANIFEST.json"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRODUCT = "TLA+ source machine x AVM machine: TLC explores the product on the code's own output"
TRUST = ("Trusted: the TLA+ modules (Tealish, Statics, Avm, AvmOps), the reader/writer between source text and syntax trees "
         "(harness/tl.py) and between TEAL text and instructions (harness/teal.py).")


def product(extra):
    return (PRODUCT, "model_checking", "For every program tried, TLC explores all environment answers (within the listed candidate values) and "
            "compares every effect and the outcome of the compiled program with the specification. " + extra + " " + TRUST)


C = {
    "C01": product("Programs: an exhaustive family per operator, field and literal form (every literal spelling in every position), and seeded random programs."),
    "C02": product("Programs: exhaustive nestings of control statements, random nests whose every branch is observed, and seeded random programs; loops are cut by fuel."),
    "C03": product("Programs: families of many variables (to beyond the last slot), of the same names in all scopes, and of variables live across calls for every kind of scope of caller and callee; seeded random programs."),
    "C04": product("Programs: every arity of parameters and results with every way of using them, and seeded random programs with multi-value functions and returns inside nestings."),
    "C05": product("Programs: families of struct layouts (to 4 KB) and seeded random programs."),
    "C06": product("Programs: families of box operations and seeded random programs; box operations are compared as effects."),
    "C07": product("Routers of families (sizes, kinds of parameters, decorators, completions) and at random. Environment: route names and near misses, completions, creation, fitting and unfitting arguments."),
    "C08": product("Programs: a family of groups and inner transactions in all forms, and seeded random programs with groups spanning functions and loops."),
    "C09": product("Programs: a family per standard function and boundary value, and seeded random programs."),
    "C10": product("Invariants of the product: no kind error, stack as expected at exit, declared sizes hold at every store."),
    "C11": ("TLA+ static semantics vs. the compiler's verdict, evaluated by TLC", "model_checking",
            "Statics.tla decides acceptance; compared with the code for mutants of valid programs (one or two rule violations) and valid programs. " + TRUST),
    "C12": ("TLA+ pushdown automaton of the line structure: TLC generates texts and judges the answers to them and to other malformed texts", "model_checking",
            "All line sequences to a small length, longer random ones, shuffled and cut programs, arbitrary characters and extreme sizes; every answer "
            "must be a result or one of the two errors, in time, and invalid structure must be refused. Trusted: Structure.tla, harness/structure.py."),
    "C13": ("TLA+ assembler (Avm!Assemble) evaluated by TLC on the emitted TEAL", "model_checking",
            "Every label, macro, opcode, immediate and literal of every emitted line is checked, for seeded random and extreme programs. " + TRUST),
    "C14": ("TLA+ line machine of the formatter, evaluated by TLC on texts and their formatted forms", "model_checking",
            "Tokens, comments and blank lines preserved line by line, indentation from the block structure, canonical gaps, idempotence and independence of the "
            "layout of the input; the compiled TEAL must not change. For seeded random programs in random layouts and the repository's programs. Trusted: Layout.tla, harness/layout.py."),
    "C15": product("The line of every effect and failure, every TEAL line's map entry, assert messages and the line of compile errors are compared."),
    "C16": ("TLA+ session machine: TLC generates histories of compilations (simulation), the harness replays them into the code, TLC checks the recorded answers", "model_checking",
            "The specification of a session answers each request from the source text alone; the answers of single-text fresh processes with four hash seeds define that function. Trusted: Session.tla, harness/remote/session.py."),
    "C17": product("The text given to the compiler has other names, comments and spacing than the syntax tree given to the specification."),
    "C18": product("Programs: constants of both kinds declared at every level, shadowed, used as values, immediates and indexes; a family and seeded random programs."),
    "C19": ("TLA+ AVM machines: TLC explores the product of the input and output TEAL, statement matching along the line map", "model_checking",
            "Every minified/stripped program is compared statement by statement (line map included) and, for a sample, run in lockstep. Inputs: random TEAL with odd comments, quoting and labels, emitted TEAL, the repository's TEAL files. Trusted: TealPair.tla, Avm.tla, harness/teal.py."),
    "C20": ("TLA+ specification of source maps: TLC checks recorded histories of map operations", "model_checking",
            "Small maps exhaustively (thorough) and long random histories, with maps of compiled programs and assembler maps. Trusted: MapModel.tla, harness/remote/maphist.py."),
    "C21": ("TLA+ machine of the command line on a file system: TLC checks its properties, generates histories and judges the recorded ones", "model_checking",
            "The machine's own properties are checked exhaustively to a small depth; random histories of edits and commands are replayed into the real commands, in scratch "
            "directories, with a local stand-in for algod and goal; every file and exit code must be a step of the machine. Trusted: Cli.tla, harness/remote/cli.py."),
    "C22": ("TLA+ static semantics and opcode tables: TLC decides acceptance and the emitted code for every opcode, with changed language specs too", "model_checking",
            "Each opcode of the packaged spec (frozen copy in the specification) with right and wrong immediates, arguments, kinds; run in product with the AVM; other langspec.json files replace the tables. Trusted: Langspec.tla, AvmOps.tla."),
    "C23": product("Also checks that the lines of each teal block appear verbatim and in place."),
    "C24": ("TLA+ struct layouts evaluated by TLC vs. the inspection of random declarations, and the product for the layout used", "model_checking",
            "Layouts, offsets, names of types and refusals of seeded random struct declarations. Trusted: Inspect.tla, Statics.tla, harness/tl.py."),
    "C25": ("TLA+ machine of projects and places of language specifications: TLC checks its properties, generates histories and judges the recorded ones", "model_checking",
            "The machine's own properties are checked exhaustively to a small depth; random histories of fetches, updates, comparisons, compilations and edits are replayed into the "
            "real commands, each in a process of its own, with the network replaced by a table of places (redirects and failures of several kinds). Trusted: Project.tla, harness/remote/project.py."),
    "C26": ("TLA+ grammar of the lines, evaluated by TLC on lines and their small changes; product of the machines for the readable ones", "model_checking",
            "Small changes (characters, tokens) of template lines for every form and of lines of random programs: none that the grammar refuses may be accepted, "
            "and the readable ones are judged by the static semantics and, for a sample, by behaviour. Only the blanks space and tab, and few non-ASCII characters. "
            "Trusted: Syntax.tla and Statics.tla; the reading of the harness must agree with Syntax.tla."),
}

TODO = {}


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    cmd = "/opt/venv/bin/python harness/check.py {} {}"
    checks = [dict(property=p, quick_cmd=cmd.format(p, "quick"), thorough_cmd=cmd.format(p, "thorough"),
                   technique=C[p][0], level=C[p][1], level_note=C[p][2]) for p in props if p in C]
    na = [dict(property=p, reason=TODO.get(p, "Not claimed yet: the check is being built.")) for p in props if p not in C]
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
             notes="TLA+ with TLC; see DESIGN.md. No hooks in /repo: the checks use its public API. Known findings: findings/KNOWN_FINDINGS.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
