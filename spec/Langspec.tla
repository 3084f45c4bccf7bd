------------------------------ MODULE Langspec ------------------------------
(* Opcodes of the language specification: which calls are valid, and the    *)
(* code of a call: its stack arguments in order, then exactly the opcode    *)
(* with its immediates.  Cases are programs whose opcode calls (at the top  *)
(* of an expression) have literal arguments; and comparisons of two         *)
(* language specifications (the names in one and not in the other).         *)
EXTENDS Statics

Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
VARIABLES c, verdict
vars == <<c, verdict>>

Literal(x) == x.k \in {"int", "byt"}
\* what the literal arguments and the opcode become
PushIns(v) == [op |-> "push", im |-> <<v>>]
Code(P, S, e) == [i \in 1..Len(P.n[e].args) |-> PushIns(P.n[P.n[e].args[i]].v)] \o
                 <<[op |-> P.n[e].nm, im |-> S.rs[e]]>>
Calls(P) == {e \in 1..Len(P.n) : P.n[e].k = "op" /\ \A i \in 1..Len(P.n[e].args) : Literal(P.n[P.n[e].args[i]])}
SameIns(a, b) == a.op = b.op /\ a.im = b.im
Emitted(code, want) == \E k \in 0..(Len(code) - Len(want)) : \A j \in 1..Len(want) : SameIns(code[k + j], want[j])
\* is there no other occurrence of the opcode than those called?
Plain == {"push", "store", "load", "return", "bz", "bnz", "b", "pop", "assert", "log", "itob", "len", "=="}
Count(code, nm) == Cardinality({k \in 1..Len(code) : code[k].op = nm})
Once(P, S, code) == \A nm \in {P.n[e].nm : e \in Calls(P)} \ Plain :
    Count(code, nm) = Cardinality({e \in 1..Len(P.n) : P.n[e].k = "op" /\ P.n[e].nm = nm})

Program(C) ==
    LET S == Static(C.P) IN
    IF S.ok # C.acc THEN <<"accept", IF S.ok THEN C.msg ELSE <<S.why, S.ln>>>>
    ELSE IF ~S.ok THEN <<"refused", S.why>>
    ELSE LET a == Assemble(C.T) IN
         IF a.err # <<>> THEN <<"asm", <<a.err[1].why, a.err[1].l>>>>
         ELSE LET bad == {e \in Calls(C.P) : ~Emitted(a.code, Code(C.P, S, e))} IN
              IF bad # {} THEN <<"emitted", <<"expected", Code(C.P, S, CHOOSE e \in bad : TRUE)>>>>
              ELSE IF ~Once(C.P, S, a.code) THEN <<"emitted", "more than the opcode called">>
              ELSE <<"ok", "">>

Names(s) == {s[i] : i \in 1..Len(s)}
Diff(C) == IF /\ Names(C.new) = Names(C.b) \ Names(C.a) /\ Len(C.new) = Cardinality(Names(C.new))
              /\ Names(C.gone) = Names(C.a) \ Names(C.b) /\ Len(C.gone) = Cardinality(Names(C.gone))
           THEN <<"ok", "">> ELSE <<"diff", <<"new", C.new, "gone", C.gone>>>>

Init == c \in 1..Len(Cases) /\ verdict = <<"", "">>
Next == /\ verdict[1] = ""
        /\ verdict' = TLCEval(IF Cases[c].diff THEN Diff(Cases[c]) ELSE Program(Cases[c]))
        /\ PrintT("VERDICT " \o ToJson(<<Cases[c].id, verdict'[1], ToString(verdict'[2]), 0, 0>>))
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
AsSpecified == verdict[1] \in {"", "ok", "refused"}
=============================================================================
