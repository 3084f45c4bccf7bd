----------------------------- MODULE Structure -----------------------------
(* The line structure of source text: a pushdown automaton that reads one   *)
(* line at a time.  The state is the stack of open constructs, whether      *)
(* structs may still be declared, and whether the line read before made the *)
(* text invalid.  Constructs nest as the language says; the text is valid   *)
(* when everything is closed at its end.                                    *)
(*                                                                          *)
(* Gen: texts are generated, valid ones and ones with one invalid line.     *)
(* Trace: texts (lines with their kinds) and what the compiler, formatter   *)
(* and inspection answered: each must answer with a result or one of the    *)
(* two errors, and refuse every text with an invalid structure.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

\* a line [k |-> kind, n |-> number of returned values]
L(k) == [k |-> k, n |-> 0]
Inline == {"stmt", "const", "exit", "jump", "ret", "break"}
HeaderKinds == {"if", "while", "for", "func", "block", "switch", "router", "teal", "itxn", "group", "struct", "dec"}
Pairs == {"elsepair", "field", "pair"}             \* `else: a`, `a: int`, `Fee: 1`
Other == {"blank", "comment", "pragma", "end", "elif", "else", "word", "junk"}
Kinds == Inline \cup HeaderKinds \cup Pairs \cup Other
Frame(k, n) == [k |-> k, ex |-> FALSE, last |-> "", n |-> n, bad |-> FALSE]
Base == <<Frame("program", 0)>>

Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
SetTop(s, f) == Append(Pop(s), f)
Bodies == {"program", "block", "func", "if", "else", "while", "for", "group"}
Scopes == {"program", "block"}
Within(s, k) == \E i \in 1..Len(s) : s[i].k = k
Enclosing(s, k) == s[CHOOSE i \in 1..Len(s) : s[i].k = k /\ \A j \in (i + 1)..Len(s) : s[j].k # k]
Refuse == [ok |-> FALSE, s |-> <<>>, st |-> FALSE]
Go(s, st) == [ok |-> TRUE, s |-> s, st |-> st]

\* a statement of kind k is complete in the construct on top of the stack
Statement(s, st, k) ==
    LET f == Top(s) IN
    IF f.k \in Scopes /\ f.ex THEN Refuse
    ELSE Go(SetTop(s, [f EXCEPT !.ex = @ \/ k \in {"exit", "jump", "switch", "router"}, !.last = k]), st /\ f.k # "program")
Definition(s, st) == Go(s, FALSE)
\* the construct on top is closed
Close(s, st) ==
    LET f == Top(s) IN
    IF Len(s) = 1 THEN Refuse
    ELSE CASE f.k = "block" -> IF f.ex THEN Definition(Pop(s), st) ELSE Refuse
           [] f.k = "func" -> IF f.last = "ret" THEN Definition(IF Top(Pop(s)).k = "dec" THEN Pop(Pop(s)) ELSE Pop(s), st) ELSE Refuse
           [] f.k = "struct" -> IF f.bad THEN Refuse ELSE Go(Pop(s), st)
           [] f.k = "dec" -> Refuse
           [] OTHER -> Statement(Pop(s), st, IF f.k = "else" THEN "if" ELSE f.k)
Open(s, st, l) ==
    LET f == Top(s) IN
    CASE l.k = "dec" /\ f.k = "dec" -> Go(s, FALSE)         \* several decorators of a function
      [] l.k \in {"func", "dec"} -> IF (f.k \in Scopes /\ f.ex) \/ f.k = "dec" THEN Go(Append(s, Frame(l.k, l.n)), FALSE) ELSE Refuse
      [] l.k = "block" -> IF f.k \in Scopes /\ f.ex THEN Go(Append(s, Frame("block", 0)), FALSE) ELSE Refuse
      [] l.k = "struct" -> IF f.k = "program" /\ st THEN Go(Append(s, Frame("struct", 0)), st) ELSE Refuse
      [] OTHER -> IF f.k \in Bodies /\ ~(f.k \in Scopes /\ f.ex) THEN Go(Append(s, Frame(l.k, 0)), st) ELSE Refuse

\* the state after line number ln
Step(s, st, l, ln) ==
    LET f == Top(s) IN
    IF f.k = "teal" THEN (IF l.k = "end" THEN Close(s, st) ELSE Go(s, st))
    ELSE IF l.k = "end" THEN Close(s, st)
    ELSE IF l.k \in {"blank", "comment"} THEN Go(s, st)
    ELSE IF l.k = "pragma" THEN (IF ln = 1 THEN Go(s, st) ELSE Refuse)
    ELSE IF f.k = "switch" \/ f.k = "itxn" THEN (IF l.k \in Pairs THEN Go(s, st) ELSE Refuse)
    ELSE IF f.k = "struct" THEN (IF l.k = "field" THEN Go(s, st) ELSE IF l.k = "elsepair" THEN Go(SetTop(s, [f EXCEPT !.bad = TRUE]), st) ELSE Refuse)
    ELSE IF f.k = "router" THEN Go(s, st)
    ELSE IF f.k = "dec" /\ l.k \notin {"func", "dec"} THEN Refuse
    ELSE IF l.k \in HeaderKinds THEN Open(s, st, l)
    ELSE IF l.k = "elif" THEN (IF f.k = "if" THEN Go(s, st) ELSE Refuse)
    ELSE IF l.k = "else" THEN (IF f.k = "if" THEN Go(SetTop(s, [f EXCEPT !.k = "else"]), st) ELSE Refuse)
    ELSE IF l.k = "ret" THEN (IF Within(s, "func") THEN (IF Enclosing(s, "func").n = l.n THEN Statement(s, st, "ret") ELSE Refuse) ELSE Refuse)
    ELSE IF l.k = "break" THEN (IF Within(s, "while") THEN Statement(s, st, "break") ELSE Refuse)
    ELSE IF l.k \in Inline THEN Statement(s, st, l.k)
    ELSE Refuse

VARIABLES stack, early, txt, grow, c, verdict
vars == <<stack, early, txt, grow, c, verdict>>

----------------------------------------------------------------------------
(* Generation.  grow: number of lines after which open constructs are closed. *)
(* Invalid lines are the last ones of their text.                            *)
G == IF "G" \in DOMAIN IOEnv THEN atoi(IOEnv.G) ELSE 3
Lines == {L(k) : k \in Kinds} \cup {[k |-> k, n |-> 1] : k \in {"func", "ret"}}
GenInit == stack = Base /\ early = TRUE /\ txt = <<>> /\ grow \in 0..G /\ c = 0 /\ verdict = ""
Write(v) == verdict' = v /\ PrintT("VERDICT " \o ToJson(<<v, [i \in 1..Len(txt') |-> <<txt'[i].k, txt'[i].n>>]>>))
\* the next line that helps to close the construct on top
Closing == LET f == Top(stack) IN
           IF f.k = "func" /\ f.last # "ret" THEN [k |-> "ret", n |-> f.n]
           ELSE IF f.k = "block" /\ ~f.ex THEN L("exit")
           ELSE IF f.k = "dec" THEN L("func")
           ELSE L("end")
GenNext ==
    /\ verdict = ""
    /\ UNCHANGED <<grow, c>>
    /\ \/ /\ Len(txt) < grow
          /\ \E l \in Lines : LET r == Step(stack, early, l, Len(txt) + 1) IN
               /\ r.ok /\ stack' = r.s /\ early' = r.st /\ txt' = Append(txt, l) /\ UNCHANGED verdict
       \/ /\ Len(txt) = grow
          /\ \E l \in Lines : /\ ~Step(stack, early, l, Len(txt) + 1).ok
                              /\ txt' = Append(txt, l) /\ Write("refused") /\ UNCHANGED <<stack, early>>
       \/ /\ Len(txt) = grow /\ Len(stack) > 1
          /\ txt' = txt /\ Write("refused") /\ UNCHANGED <<stack, early>>
       \/ /\ Len(txt) >= grow /\ Len(stack) > 1
          /\ LET r == Step(stack, early, Closing, Len(txt) + 1) IN
               /\ r.ok /\ stack' = r.s /\ early' = r.st /\ txt' = Append(txt, Closing) /\ UNCHANGED verdict
       \/ /\ Len(txt) >= grow /\ Len(stack) = 1 /\ txt' = txt /\ Write("ok") /\ UNCHANGED <<stack, early>>
GenSpec == GenInit /\ [][GenNext]_vars

----------------------------------------------------------------------------
(* Recorded texts: ls the lines, ans the answers [o |-> "result", "parse", "compile" or another, m |-> has it a message?] *)
Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
C == Cases[c]
Done(k, d) == verdict' = k /\ PrintT("VERDICT " \o ToJson(<<C.id, k, ToString(d), Len(txt), 0>>))
Outcomes == {"result", "parse", "compile"}
Judge(invalid) ==
    IF \E i \in 1..Len(C.ans) : C.ans[i].o \notin Outcomes \/ (C.ans[i].o # "result" /\ ~C.ans[i].m) THEN Done("outcome", C.ans)
    ELSE IF invalid /\ \E i \in 1..Len(C.ans) : C.ans[i].o = "result" THEN Done("structure", <<"line", Len(txt), C.ans>>)
    \* a valid text may be refused for other reasons (module Statics), but by all three for those of parsing
    ELSE IF Cardinality({C.ans[i].o = "parse" : i \in 1..Len(C.ans)}) > 1 THEN Done("differ", C.ans)
    ELSE Done(IF invalid THEN "refused" ELSE "ok", "")
TraceInit == c \in 1..Len(Cases) /\ stack = Base /\ early = TRUE /\ txt = <<>> /\ grow = 0 /\ verdict = ""
TraceNext ==
    /\ verdict = ""
    /\ LET i == Len(txt) + 1 IN
       IF i > Len(C.ls) THEN Judge(Len(stack) > 1) /\ UNCHANGED <<stack, early, txt>>
       ELSE LET r == Step(stack, early, C.ls[i], i) IN
            IF ~r.ok THEN Judge(TRUE) /\ UNCHANGED <<stack, early, txt>>
            ELSE stack' = r.s /\ early' = r.st /\ txt' = Append(txt, C.ls[i].k) /\ UNCHANGED verdict
    /\ UNCHANGED <<grow, c>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
Diagnosed == verdict \in {"", "ok", "refused"}
=============================================================================
