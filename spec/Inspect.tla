------------------------------ MODULE Inspect ------------------------------
(* Inspection reports the layout that the static rules give to the structs  *)
(* of a program: what inspect_program answers is compared, for each case,   *)
(* with the structs of the program in the order of their declaration.       *)
EXTENDS Statics, IOUtils

Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
VARIABLES c, verdict
vars == <<c, verdict>>

\* how a type is named
TypeName(t) ==
    CASE t.k = "int" -> "int"
      [] t.k = "uint" -> "uint" \o ToString(8 * t.s)
      [] t.k = "struct" -> t.n \o "[" \o ToString(t.s) \o "]"
      [] t.s = 0 -> t.k
      [] OTHER -> t.k \o "[" \o ToString(t.s) \o "]"

Layout(S, x) ==
    [nm |-> x.nm, size |-> S.structs[x.nm].size,
     fs |-> [i \in 1..Len(x.fs) |->
               LET f == S.structs[x.nm].fields[x.fs[i].nm]
               IN [nm |-> x.fs[i].nm, ty |-> TypeName(f.t), size |-> f.t.s, off |-> f.off]]]
Structs(P) == SelectSeq(P.root, LAMBDA i : P.n[i].k = "struct")
Expected(P, S) == LET r == Structs(P) IN [i \in 1..Len(r) |-> Layout(S, P.n[r[i]])]

\* a layout: the fields are adjacent, in order, and fill the struct
RECURSIVE Sum(_, _)
Sum(fs, i) == IF i = 0 THEN 0 ELSE Sum(fs, i - 1) + fs[i].size
Adjacent(l) == l.size = Sum(l.fs, Len(l.fs)) /\ \A i \in 1..Len(l.fs) : l.fs[i].off = Sum(l.fs, i - 1)

Result(C) ==
    LET S == Static(C.P) IN
    IF ~S.ok THEN IF C.acc THEN <<"skip", "accept">> ELSE <<"refused", S.why>>
    ELSE IF ~C.acc THEN IF C.comp THEN <<"inspect", C.msg>> ELSE <<"skip", "accept">>
    ELSE LET e == Expected(C.P, S) IN
         IF \E i \in 1..Len(e) : ~Adjacent(e[i]) THEN <<"model", e>>
         ELSE IF C.insp # e THEN <<"inspect", <<"reported", C.insp, "declared", e>>>>
         ELSE <<"ok", "">>

Init == c \in 1..Len(Cases) /\ verdict = <<"", "">>
Next == /\ verdict[1] = ""
        /\ verdict' = TLCEval(Result(Cases[c]))
        /\ PrintT("VERDICT " \o ToJson(<<Cases[c].id, verdict'[1], ToString(verdict'[2]), 0, 0>>))
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Truthful == verdict[1] \in {"", "ok", "skip", "refused"}
=============================================================================
