------------------------------ MODULE Session ------------------------------
(* One process that uses the library: functions on programs, and compiler   *)
(* objects used step by step, interleaved, with failures and repetitions.   *)
(* The state of the process is only that of its compiler objects: every     *)
(* answer is a function of the source text, Fresh[<<step, program>>], which *)
(* is what a new process answers.                                           *)
(*                                                                          *)
(* Gen: histories are generated and written, to be replayed on the code.    *)
(* Trace: recorded answers are compared with those of new processes.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

NObj == 3
Functions == {"c", "r", "i"}                 \* compile_program, reformat_program, inspect_program
Steps == {"parse", "process", "compile", "reformat", "map", "structs"}
None == [p |-> 0, ph |-> 0]

\* what a step needs and leaves: 0 new, 1 parsed, 2 processed, 3 compiled, -1 failed
Allowed(s, o) ==
    /\ o.p # 0 /\ o.ph >= 0
    /\ CASE s = "parse" -> o.ph = 0
         [] s = "process" -> o.ph = 1
         [] s = "map" -> o.ph = 3
         [] s = "structs" -> o.ph >= 1
         [] OTHER -> TRUE
Max(a, b) == IF a > b THEN a ELSE b
Phase(s, ph) == CASE s = "parse" -> 1 [] s = "process" -> 2 [] s = "compile" -> 3
                  [] s = "reformat" -> Max(2, ph) [] OTHER -> ph

VARIABLES objs, hist, c, verdict
vars == <<objs, hist, c, verdict>>

----------------------------------------------------------------------------
(* Generation: NP programs, histories of D actions <<step, object, program>> *)
NP == IF "NP" \in DOMAIN IOEnv THEN atoi(IOEnv.NP) ELSE 5
D == IF "D" \in DOMAIN IOEnv THEN atoi(IOEnv.D) ELSE 20
GenInit == objs = [o \in 1..NObj |-> None] /\ hist = <<>> /\ c = 0 /\ verdict = <<"", "">>
Do(a) == hist' = Append(hist, a) /\ UNCHANGED <<c, verdict>>
GenNext ==
    IF Len(hist) < D
    THEN \/ \E f \in Functions, p \in 1..NP : Do(<<f, 0, p>>) /\ UNCHANGED objs
         \/ \E o \in 1..NObj, p \in 1..NP : objs[o].ph \in {1, 3} \cup (IF objs[o].p = 0 THEN {0} ELSE {}) /\ Do(<<"new", o, p>>) /\ objs' = [objs EXCEPT ![o] = [p |-> p, ph |-> 0]]
         \/ \E o \in 1..NObj, s \in Steps :
              /\ Allowed(s, objs[o])
              /\ Do(<<s, o, objs[o].p>>)
              /\ objs' = [objs EXCEPT ![o].ph = Phase(s, @)]
         \/ \E o \in 1..NObj : objs[o].ph = 3 /\ Do(<<"scribble", o, objs[o].p>>) /\ UNCHANGED objs
    ELSE /\ c = 0 /\ c' = 1
         /\ PrintT("VERDICT " \o ToJson(hist))
         /\ UNCHANGED <<objs, hist, verdict>>
GenSpec == GenInit /\ [][GenNext]_vars

----------------------------------------------------------------------------
(* Recorded histories: h[i] = [s, o, p, a: answer, e: did it fail?], fresh[p][s] the answer of a new process *)
Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
H == Cases[c].h
Fresh(s, p) == Cases[c].fresh[p][s]
Done(kind, detail) ==
    /\ verdict' = <<kind, detail>>
    /\ PrintT("VERDICT " \o ToJson(<<Cases[c].id, kind, ToString(detail), Len(hist), 0>>))
TraceInit == c \in 1..Len(Cases) /\ objs = [o \in 1..NObj |-> None] /\ hist = <<>> /\ verdict = <<"", "">>
TraceNext ==
    /\ verdict[1] = ""
    /\ LET i == Len(hist) + 1 IN
       IF i > Len(H) THEN Done("ok", "") /\ UNCHANGED <<objs, hist>>
       ELSE LET x == H[i] IN
            /\ hist' = Append(hist, <<x.s, x.o, x.p>>)
            /\ IF x.s = "new" THEN objs' = [objs EXCEPT ![x.o] = [p |-> x.p, ph |-> 0]] /\ UNCHANGED verdict
               ELSE IF x.s = "scribble" THEN UNCHANGED <<objs, verdict>>
               ELSE IF x.o # 0 /\ ~Allowed(x.s, objs[x.o])
               THEN UNCHANGED <<objs, verdict>>        \* not a use of a failed object
               ELSE /\ objs' = IF x.o = 0 THEN objs
                               ELSE [objs EXCEPT ![x.o].ph = IF x.e THEN -1 ELSE Phase(x.s, @)]
                    /\ IF x.a = Fresh(x.s, x.p) THEN UNCHANGED verdict
                       ELSE Done("answer", <<"step", i, x.s, "object", x.o, "program", x.p, "answers", x.a, "alone", Fresh(x.s, x.p)>>)
    /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
Pure == verdict[1] \in {"", "ok"}
=============================================================================
