------------------------------- MODULE Layout -------------------------------
(* The canonical style of source text, as a machine that reads the          *)
(* formatted text line by line next to the source it was made from.  A line *)
(* has its indentation, its tokens, the gap (number of blanks) before each  *)
(* token, its comment and the gap before it.  Blank lines are left out.     *)
(*                                                                          *)
(* The state is the number of lines read and the stack of open constructs.  *)
(* Each line of the result must have the tokens and the comment of the      *)
(* source line, four blanks per open construct, and the canonical gaps.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
VARIABLES c, i, stack, verdict
vars == <<c, i, stack, verdict>>

Top(s) == IF s = <<>> THEN "" ELSE s[Len(s)]
Openers == {"if", "while", "for", "func", "block", "switch", "router", "teal", "inner_txn", "inner_group", "struct"}
\* (a token: its text x, its class - word, string, operator, punctuation - and, of a string, its value)
First(l) == IF l.t = <<>> THEN "" ELSE l.t[1].x
Last(l) == IF l.t = <<>> THEN "" ELSE l.t[Len(l.t)].x
Raw(s) == Top(s) = "teal"
Ends(l) == Len(l.t) = 1 /\ First(l) = "end"
Opens(l, s) == /\ ~Raw(s) /\ Last(l) = ":" /\ First(l) \in Openers
               /\ Top(s) \notin {"switch", "router", "inner_txn", "struct"}
Middle(l, s) == Top(s) = "if" /\ First(l) \in {"else", "elif"}
\* the stack after a line, and the depth at which the line is written
After(l, s) == IF Ends(l) /\ s # <<>> THEN SubSeq(s, 1, Len(s) - 1)
               ELSE IF Opens(l, s) THEN Append(s, First(l))
               ELSE s
Depth(l, s) == IF (Ends(l) \/ Middle(l, s)) /\ s # <<>> THEN Len(s) - 1 ELSE Len(s)

Unary == {"!", "~", "b~"}
Keywords == {"if", "elif", "while", "not", "switch", "return"}
\* the canonical gap before the k-th token (k > 1)
Gap(l, k) ==
    LET a == l.t[k - 1].x
        b == l.t[k].x
        p == IF k > 2 THEN l.t[k - 2].x ELSE ""
        word == l.t[k - 1].c = "w"
        str == l.t[k].c = "s" IN
    IF l.t[k - 1].c = "s" THEN (IF ~str /\ b \in {",", ")", "]", ":"} THEN 0 ELSE 1)
    ELSE IF First(l) = "@" THEN 0
    ELSE IF ~str /\ b \in {",", ")", "]", ":", "."} THEN 0
    ELSE IF a \in {"(", "[", "."} THEN 0
    ELSE IF l.t[k - 1].c = "o" /\ a \in Unary THEN 0
    ELSE IF a \in {"+", "-"} /\ p = "[" THEN 0
    ELSE IF ~str /\ b = "[" THEN 0
    ELSE IF ~str /\ b = "(" THEN (IF word /\ ~(a \in Keywords /\ (k = 2 \/ (k = 3 /\ a = "not"))) THEN 0 ELSE 1)
    ELSE IF a = ":" THEN (IF First(l) = "for" THEN 0 ELSE 1)
    ELSE 1

Value(t) == IF t.c = "s" THEN <<"s", t.v>> ELSE <<t.c, t.x>>
SameTokens(a, b) == Len(a.t) = Len(b.t) /\ \A k \in 1..Len(a.t) : Value(a.t[k]) = Value(b.t[k])

\* why line b is not line a in the canonical style
Fault(a, b, s) ==
    IF b.odd THEN "blanks at the end of the line or tabs"
    ELSE IF a.com # b.com THEN "comment"
    ELSE IF Raw(s) /\ ~Ends(a) THEN
         (IF a.code # b.code THEN "inline TEAL" ELSE IF b.ind # 4 * Len(s) THEN "indentation" ELSE "")
    ELSE IF ~SameTokens(a, b) THEN "tokens"
    ELSE IF b.ind # 4 * Depth(b, s) THEN "indentation"
    ELSE IF b.t # <<>> /\ b.com # "" /\ b.cgap # 1 THEN "gap before the comment"
    ELSE IF \E k \in 2..Len(b.t) : b.g[k] # Gap(b, k) THEN "spacing"
    ELSE ""

C == Cases[c]
Init == c \in 1..Len(Cases) /\ i = 0 /\ stack = <<>> /\ verdict = <<"", "">>
Report(k, w) == PrintT("VERDICT " \o ToJson(<<C.id, k, ToString(w), 0, 0>>))
Line == /\ verdict[1] = "" /\ i < Len(C.src) /\ i < Len(C.out)
        /\ LET a == C.src[i + 1]
               b == C.out[i + 1]
               f == Fault(a, b, stack) IN
           IF f = "" THEN /\ i' = i + 1 /\ stack' = After(b, stack) /\ UNCHANGED verdict
           ELSE /\ verdict' = <<"layout", <<f, i + 1, b.code>>>> /\ UNCHANGED <<i, stack>>
                /\ Report("layout", <<f, i + 1, b.code>>)
        /\ UNCHANGED c
End == /\ verdict[1] = "" /\ (i = Len(C.src) \/ i = Len(C.out))
       /\ verdict' = IF Len(C.src) # Len(C.out) THEN <<"lines", <<Len(C.src), Len(C.out)>>>>
                     ELSE IF stack # <<>> THEN <<"open", stack>>
                     ELSE IF C.again # C.text THEN <<"idempotent", "formatting the formatted text changes it">>
                     ELSE IF \E k \in 1..Len(C.others) : C.others[k] # C.text THEN <<"independent", "another layout of the same program is formatted differently">>
                     ELSE <<"ok", "">>
       /\ Report(verdict'[1], verdict'[2])
       /\ UNCHANGED <<c, i, stack>>
Next == Line \/ End
Spec == Init /\ [][Next]_vars
Canonical == verdict[1] \in {"", "ok"}
=============================================================================
