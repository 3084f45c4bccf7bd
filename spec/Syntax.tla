------------------------------- MODULE Syntax -------------------------------
(* The lines of the language: which texts are lines of which form, and how  *)
(* they are read.  A reader takes a text and a position and yields the      *)
(* position after what it read (0: nothing there) with the reading, which   *)
(* is written as an S-expression: (bin + (id x) (int 1)).                   *)
(*                                                                          *)
(* Blanks are allowed between the parts of an expression, but not inside    *)
(* Txn.Sender[0] before the brackets and dots that belong to a namespace,   *)
(* inside names, numbers, strings and types, nor in the fixed text of       *)
(* statements.  Binary operators do not chain without parentheses, and only *)
(* binary operations can be in parentheses.                                 *)
(*                                                                          *)
(* A case is a line in a context (a statement, a field of a struct, a field *)
(* of an inner transaction, an option of a switch, a route) with the        *)
(* program around it, whether the compiler accepted that program, and the   *)
(* reading of the other checks ("!" if they refuse the line).               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
VARIABLES c, verdict
vars == <<c, verdict>>

\* ------------------------------------------------------------- characters
Ch(s, i) == IF i >= 1 /\ i <= Len(s) THEN SubSeq(s, i, i) ELSE ""
Is(s, i, w) == i >= 1 /\ i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i, j) == IF j <= i THEN "" ELSE SubSeq(s, i, j - 1)      \* from i to before j
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Letter == Lower \cup Upper
Word == Letter \cup Digits \cup {"_"}
Hex == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
Blank == {" ", "\t"}
RECURSIVE Span(_, _, _)
Span(s, i, S) == IF i <= Len(s) /\ Ch(s, i) \in S THEN Span(s, i + 1, S) ELSE i
Ws(s, i) == Span(s, i, Blank)
All(s, S) == Span(s, 1, S) = Len(s) + 1

No == [j |-> 0, t |-> ""]
At(j, t) == [j |-> j, t |-> t]
Node(k, t) == "(" \o k \o (IF t = "" THEN "" ELSE " " \o t) \o ")"

RECURSIVE Number(_)
Number(d) == IF Len(d) > 1 /\ Ch(d, 1) = "0" THEN Number(From(d, 2)) ELSE d      \* without zeros in front
\* a number below 2^64, without zeros in front
Most == "18446744073709551615"
Value10(ch) == CHOOSE v \in 0..9 : SubSeq("0123456789", v + 1, v + 1) = ch
RECURSIVE NoMore(_, _)
NoMore(d, i) == \/ i > Len(d)
                \/ Value10(Ch(d, i)) < Value10(Ch(Most, i))
                \/ (Ch(d, i) = Ch(Most, i) /\ NoMore(d, i + 1))
Small(d) == Len(d) < 20 \/ (Len(d) = 20 /\ NoMore(d, 1))
RECURSIVE Only(_, _)
Only(t, S) == IF t = "" THEN "" ELSE (IF Ch(t, 1) \in S THEN Ch(t, 1) ELSE "") \o Only(From(t, 2), S)
Fits(t) == Small(Number(Only(t, Digits)))

\* ------------------------------------------------------- names and literals
\* the position after a name with the given first characters
NameEnd(s, i, F) == IF Ch(s, i) \in F THEN Span(s, i + 1, Word) ELSE 0
\* decimal digits in which single underscores may separate digits
NumEnd(s, i) ==
    LET j == Span(s, i, Digits \cup {"_"}) IN
    IF Ch(s, i) \in Digits /\ Ch(s, j - 1) # "_" /\ \A k \in i..(j - 2) : ~(Ch(s, k) = "_" /\ Ch(s, k + 1) = "_") THEN j ELSE 0
RECURSIVE StrTail(_, _, _)
\* the position after the closing quote; escapes: \n \r \t \\ \" \' \x and two digits
StrTail(s, i, q) ==
    LET ch == Ch(s, i)  e == Ch(s, i + 1) IN
    CASE ch = "" -> 0
      [] ch = q -> i + 1
      [] ch = "\\" -> IF e = "x" THEN (IF Ch(s, i + 2) \in Hex /\ Ch(s, i + 3) \in Hex THEN StrTail(s, i + 4, q) ELSE 0)
                      ELSE IF e \in {"n", "r", "t", "\\", "\"", "'"} THEN StrTail(s, i + 2, q) ELSE 0
      [] OTHER -> StrTail(s, i + 1, q)
StrEnd(s, i) == IF Ch(s, i) \in {"\"", "'"} THEN StrTail(s, i + 1, Ch(s, i)) ELSE 0
\* a type: a name, perhaps with a number in brackets
TypeEnd(s, i) ==
    LET j == NameEnd(s, i, Letter)
        k == Span(s, j + 1, Digits) IN
    IF Ch(s, i) \in Upper /\ j = i + 1 THEN 0
    ELSE IF j > 0 /\ Ch(s, j) = "[" /\ k > j + 1 /\ Ch(s, k) = "]" THEN k + 1 ELSE j
Sized(t, p) == Is(t, 1, p) /\ Len(t) > Len(p) + 1 /\ Ch(t, Len(t)) = "]" /\ All(SubSeq(t, Len(p) + 1, Len(t) - 1), Digits)
TypeName(t) == CASE t = "uint64" -> "int"
                 [] Sized(t, "bytes[") -> LET d == Number(SubSeq(t, 7, Len(t) - 1)) IN IF d = "0" THEN "bytes" ELSE "bytes[" \o d \o "]"
                 [] Sized(t, "uint8[") -> "uint8[" \o Number(SubSeq(t, 7, Len(t) - 1)) \o "]"
                 [] OTHER -> t
Known(t) ==
    \/ t \in {"int", "uint64", "uint8", "bytes", "bigint", "addr"}
    \/ Sized(t, "bytes[") \/ Sized(t, "uint8[")
    \/ Len(t) >= 2 /\ Ch(t, 1) \in Upper /\ All(t, Word)
BoxType(t) == Is(t, 1, "box<") /\ Ch(t, Len(t)) = ">" /\ Len(t) >= 7 /\ Ch(t, 5) \in Upper /\ All(SubSeq(t, 5, Len(t) - 1), Word)

\* -------------------------------------------------------------- expressions
Bin3 == {"b==", "b!=", "b>=", "b<="}
Bin2 == {"==", ">=", "<=", "!=", "&&", "||", "b+", "b-", "b/", "b*", "b%", "b>", "b<", "b|", "b&", "b^"}
Bin1 == {"+", "-", "*", "/", "%", ">", "<", "|", "&", "^"}
BinOp(s, i) == LET o3 == Upto(s, i, IF i + 2 <= Len(s) THEN i + 3 ELSE i)
                   o2 == Upto(s, i, IF i + 1 <= Len(s) THEN i + 2 ELSE i) IN
               IF o3 \in Bin3 THEN o3 ELSE IF o2 \in Bin2 THEN o2 ELSE IF Ch(s, i) \in Bin1 THEN Ch(s, i) ELSE ""
TypeArgs == {"Cast", "Convert", "FromBytes", "EnsureType", "UncheckedCast", "SizeOf"}
Namespaces == {"Txn", "Itxn", "Global", "Gtxn"}

RECURSIVE Value(_, _), Rest(_, _), Expr(_, _), Args(_, _, _, _), Types(_, _, _)
\* arguments up to the closing parenthesis
Args(s, i0, first, acc) ==
    LET i == Ws(s, i0) IN
    IF Ch(s, i) = ")" THEN At(i + 1, acc)
    ELSE IF ~first /\ Ch(s, i) # "," THEN No
    ELSE LET e == Expr(s, IF first THEN i ELSE i + 1) IN
         IF e.j = 0 THEN No ELSE Args(s, e.j, FALSE, acc \o " " \o e.t)
\* types up to the closing parenthesis
Types(s, i0, acc) ==
    LET i == Ws(s, i0) IN
    IF Ch(s, i) = ")" THEN At(i + 1, acc)
    ELSE IF Ch(s, i) # "," THEN No
    ELSE LET a == Ws(s, i + 1)  b == TypeEnd(s, a) IN
         IF b = 0 THEN No ELSE Types(s, b, acc \o " " \o TypeName(Upto(s, a, b)))
\* functions whose first argument has to be a literal
LitArgs == {"Address", "ARC28Event"}
Call(s, i, nm) ==            \* i: after the parenthesis
    LET r == IF nm = "SizeOf"
             THEN LET a == Ws(s, i)  b == TypeEnd(s, a) IN
                  IF b = 0 THEN No ELSE Types(s, b, " " \o TypeName(Upto(s, a, b)))
             ELSE IF nm \in TypeArgs
             THEN LET e == Expr(s, i) IN IF e.j = 0 THEN No ELSE Types(s, e.j, " " \o e.t)
             ELSE Args(s, i, TRUE, "") IN
    IF r.j = 0 \/ (nm \in LitArgs /\ ~Is(r.t, 1, " (bytes ")) THEN No ELSE At(r.j, "(call " \o nm \o r.t \o ")")
\* the field of a namespace and perhaps an index; i: after the dot
Field(s, i0, k, g) ==
    LET i == Ws(s, i0)
        j == IF Ch(s, i) \in Upper THEN Span(s, i + 1, Letter \cup {"_"}) ELSE 0
        f == Upto(s, i, j)
        b == Ws(s, j)
        e == Expr(s, b + 1)
        z == Ws(s, e.j)
        gg == IF g = "" THEN "" ELSE g \o " " IN
    IF j < i + 2 THEN No
    ELSE IF Ch(s, b) # "[" \/ k = "Global" THEN At(j, Node(k, gg \o f))
    ELSE IF e.j = 0 \/ Ch(s, z) # "]" THEN No
    ELSE At(z + 1, Node(k, gg \o f \o " " \o e.t))
\* Gtxn[index].Field; the index can be relative: -1, +1.  i: after the bracket
Group(s, i0) ==
    LET i == Ws(s, i0)
        rel == Ch(s, i) \in {"+", "-"}
        a == Ws(s, i + 1)
        b == Span(s, a, Digits)
        e == IF rel THEN (IF b = a \/ ~Fits(Upto(s, a, b)) THEN No ELSE At(b, Node("rel", Ch(s, i) \o Upto(s, a, b)))) ELSE Expr(s, i)
        z == Ws(s, e.j) IN
    IF e.j = 0 \/ ~Is(s, z, "].") THEN No ELSE Field(s, z + 2, "Gtxn", e.t)
Value(s, i0) ==
    LET i == Ws(s, i0)
        ch == Ch(s, i)
        j == NameEnd(s, i, Letter)
        nm == Upto(s, i, j)
        p == Ws(s, j)
        un(k) == LET e == Value(s, i + Len(k)) IN IF e.j = 0 THEN No ELSE At(e.j, Node("un", k \o " " \o e.t)) IN
    CASE ch = "(" -> LET e == Rest(s, Value(s, i + 1))  z == Ws(s, e.j) IN IF e.j > 0 /\ Ch(s, z) = ")" THEN At(z + 1, e.t) ELSE No
      [] ch \in {"!", "~"} -> un(ch)
      [] Is(s, i, "b~") -> un("b~")
      [] ch \in Digits -> LET z == NumEnd(s, i) IN IF z = 0 \/ ~Fits(Upto(s, i, z)) THEN No ELSE At(z, Node("int", Upto(s, i, z)))
      [] ch \in {"\"", "'"} -> LET z == StrEnd(s, i) IN IF z = 0 THEN No ELSE At(z, Node("bytes", Upto(s, i, z)))
      [] ch \in Letter /\ Ch(s, p) = "(" /\ (ch \in Lower \/ Len(nm) >= 2) -> Call(s, p + 1, nm)
      [] ch \in Upper /\ Len(nm) < 2 -> No
      [] nm \in {"Txn", "Itxn", "Global"} /\ Ch(s, j) = "." -> Field(s, j + 1, nm, "")
      [] nm = "Gtxn" /\ Ch(s, j) = "[" -> Group(s, j + 1)
      [] ch \in Upper -> At(j, Node(IF All(nm, Upper \cup Digits \cup {"_"}) THEN "const" ELSE "enum", nm))
      [] ch \in Lower /\ Ch(s, p) = "." ->
            LET a == Ws(s, p + 1)  b == NameEnd(s, a, Lower) IN
            IF b = 0 THEN No ELSE At(b, Node("field", nm \o " " \o Upto(s, a, b)))
      [] ch \in Lower -> At(j, Node("id", nm))
      [] OTHER -> No
\* a binary operator and its second operand, after a value
Rest(s, a) ==
    LET o == Ws(s, a.j)
        op == IF a.j = 0 THEN "" ELSE BinOp(s, o)
        b == Value(s, o + Len(op)) IN
    IF op = "" \/ b.j = 0 THEN No ELSE At(b.j, Node("bin", op \o " " \o a.t \o " " \o b.t))
Expr(s, i) ==
    LET a == Value(s, i) IN
    IF a.j = 0 \/ BinOp(s, Ws(s, a.j)) = "" THEN a ELSE Rest(s, a)

\* ------------------------------------------------------------------ lines
\* ("!": not a line of this form)
Bad == "!"
\* a whole text that is an expression
Whole(t) == LET e == Expr(t, 1) IN IF e.j > 0 /\ Ws(t, e.j) = Len(t) + 1 THEN e.t ELSE Bad
Form(k, ts) == IF \E i \in 1..Len(ts) : ts[i] = Bad THEN Bad
               ELSE LET RECURSIVE J(_)
                        J(i) == IF i > Len(ts) THEN "" ELSE (IF ts[i] = "" THEN "" ELSE (" " \o ts[i])) \o J(i + 1) IN
                    "(" \o k \o J(1) \o ")"
RECURSIVE List(_, _, _)
\* expressions separated by commas, to the end
List(s, i, acc) ==
    LET e == Expr(s, i)  z == Ws(s, e.j) IN
    IF e.j = 0 THEN <<Bad>>
    ELSE IF z = Len(s) + 1 THEN Append(acc, e.t)
    ELSE IF Ch(s, z) = "," THEN List(s, z + 1, Append(acc, e.t)) ELSE <<Bad>>
RECURSIVE Names(_, _, _)
\* the names before " = ": <<position after it, names>>
Names(s, i, acc) ==
    LET j == NameEnd(s, i, Lower \cup {"_"})
        z == Ws(s, j)
        ns == acc \o " " \o Upto(s, i, j) IN
    IF j = 0 THEN <<0, "">>
    ELSE IF Ch(s, z) = "," THEN Names(s, Ws(s, z + 1), ns)
    ELSE IF z > j /\ Ch(s, z - 1) = " " /\ Is(s, z, "= ") THEN <<z + 2, ns>> ELSE <<0, "">>
Cond(k, t) ==       \* t: the text between the keyword and the colon
    LET neg == Is(t, 1, "not ") IN
    Form(k, <<IF neg THEN "not" ELSE "", Whole(IF neg THEN From(t, 5) ELSE t)>>)
Between(s, a, z) == SubSeq(s, a, Len(s) - z)    \* without z characters at the end
Ends(s, w) == Len(s) >= Len(w) /\ SubSeq(s, Len(s) - Len(w) + 1, Len(s)) = w
NameIs(t, F) == t # "" /\ NameEnd(t, 1, F) = Len(t) + 1
AllWord(t) == t # "" /\ All(t, Word)
Type(t) == IF Known(t) THEN TypeName(t) ELSE Bad
ParamType(t) == IF BoxType(t) THEN t ELSE Type(t)
RECURSIVE CommaAt(_, _), Params(_)
CommaAt(s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = "," THEN i ELSE CommaAt(s, i + 1)
RTrim(s) == LET RECURSIVE R(_)
                R(n) == IF n > 0 /\ Ch(s, n) \in Blank THEN R(n - 1) ELSE SubSeq(s, 1, n) IN R(Len(s))
Trim(s) == RTrim(From(s, Ws(s, 1)))
Param(p) ==
    LET j == NameEnd(p, 1, Lower)
        z == Ws(p, j + 1)
        t == ParamType(From(p, z)) IN
    IF j = 0 \/ Ch(p, j) # ":" \/ t = Bad THEN Bad ELSE Upto(p, 1, j) \o ":" \o t
Params(s) == LET k == CommaAt(s, 1) IN
             IF k = 0 THEN <<Param(Trim(s))>> ELSE <<Param(Trim(SubSeq(s, 1, k - 1)))>> \o Params(From(s, k + 1))
RECURSIVE Returns(_)
Returns(s) == LET k == CommaAt(s, 1) IN
              IF k = 0 THEN <<ParamType(Trim(s))>> ELSE <<ParamType(Trim(SubSeq(s, 1, k - 1)))>> \o Returns(From(s, k + 1))
RECURSIVE ParenAt(_, _)
ParenAt(s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = ")" THEN i ELSE ParenAt(s, i + 1)
Func(s) ==          \* s: after "func "
    LET j == Span(s, 1, Word)
        k == ParenAt(s, j)
        ps == IF k = 0 THEN "" ELSE Upto(s, j + 1, k)
        rs == IF k = 0 THEN "" ELSE SubSeq(s, k + 1, Len(s) - 1) IN
    IF j = 1 \/ Ch(s, j) # "(" \/ k = 0 \/ ~Ends(s, ":") THEN Bad
    ELSE Form("func", <<Upto(s, 1, j), "[">> \o (IF Trim(ps) = "" THEN <<>> ELSE Params(ps)) \o <<"]">>
                      \o (IF Trim(rs) = "" THEN <<>> ELSE Returns(rs)))
Literal(t) == IF t # "" /\ All(t, Digits) /\ Fits(t) THEN t
              ELSE IF Ch(t, 1) = "\"" /\ Len(t) > 2 /\ StrEnd(t, 1) = Len(t) + 1 THEN t
              ELSE IF Is(t, 1, "0x") /\ Len(t) > 2 /\ Len(t) % 2 = 0 /\ All(From(t, 3), Hex) THEN t ELSE Bad
Const(s) ==         \* s: after "const "
    LET j == Span(s, 1, Letter)
        n == NameEnd(s, j + 1, Upper) IN
    IF Upto(s, 1, j) \in {"int", "bytes", "bigint", "addr"} /\ Ch(s, j) = " " /\ n > 0 /\ Is(s, n, " = ")
    THEN Form("const", <<Upto(s, 1, j), Upto(s, j + 1, n), Literal(From(s, n + 3))>>) ELSE Bad
For(s) ==           \* s: after "for "
    LET n == NameEnd(s, 1, Lower \cup {"_"})
        a == Span(s, n + 4, Word)
        b == Span(s, a + 1, Word) IN
    IF n > 0 /\ Is(s, n, " in ") /\ a > n + 4 /\ Ch(s, a) = ":" /\ b > a + 1 /\ b = Len(s) /\ Ch(s, b) = ":"
    THEN Form("for", <<Upto(s, 1, n), Whole(Upto(s, n + 4, a)), Whole(Upto(s, a + 1, b))>>) ELSE Bad
Box(s) ==           \* s: after "box<"
    LET j == NameEnd(s, 1, Upper)
        n == NameEnd(s, j + 2, Lower)
        m == IF Is(s, n + 3, "Open") THEN "Open" ELSE IF Is(s, n + 3, "Create") THEN "Create" ELSE ""
        k == n + 3 + Len(m) IN
    IF j > 2 /\ Is(s, j, "> ") /\ n > 0 /\ Is(s, n, " = ") /\ Is(s, k, "Box(") /\ Ends(s, ")")
    THEN Form("box", <<Upto(s, 1, j), Upto(s, j + 2, n), m, Whole(Between(s, k + 4, 1))>>) ELSE Bad
RECURSIVE MessageEnd(_, _)
MessageEnd(s, i) == CASE Ch(s, i) = "" -> 0
                      [] Ch(s, i) = "\"" -> i
                      [] Ch(s, i) = "\\" -> IF Ch(s, i + 1) = "" THEN 0 ELSE MessageEnd(s, i + 2)
                      [] OTHER -> MessageEnd(s, i + 1)
Asserted(s) ==      \* s: after "assert("
    LET e == Expr(s, 1)
        z == Ws(s, e.j)
        m == MessageEnd(s, z + 3) IN
    IF e.j = 0 THEN Bad
    ELSE IF z = Len(s) /\ Ch(s, z) = ")" THEN Form("assert", <<e.t>>)
    ELSE IF Is(s, z, ", \"") /\ m > 0 /\ m = Len(s) - 1 /\ Ends(s, ")") THEN Form("assert", <<e.t, IF m = z + 3 THEN "" ELSE SubSeq(s, z + 2, m)>>) ELSE Bad
Var(s) ==           \* a declaration; <<>>: not of that form
    LET t == TypeEnd(s, 1)
        n == NameEnd(s, t + 1, Lower) IN
    IF t = 0 \/ Ch(s, t) # " " \/ n = 0 THEN ""
    ELSE IF n = Len(s) + 1 THEN Form("var", <<Type(Upto(s, 1, t)), Upto(s, t + 1, n)>>)
    ELSE IF Is(s, n, " = ") THEN Form("var", <<Type(Upto(s, 1, t)), Upto(s, t + 1, n), Whole(From(s, n + 3))>>) ELSE Bad
FieldAsg(s) ==
    LET n == NameEnd(s, 1, Lower)
        f == NameEnd(s, n + 1, Lower) IN
    IF n > 0 /\ Ch(s, n) = "." /\ f > 0 /\ Is(s, f, " = ")
    THEN Form("set", <<Upto(s, 1, n), Upto(s, n + 1, f), Whole(From(s, f + 3))>>) ELSE ""
Stmt(s) ==
    CASE s = "" -> "()"
      [] Is(s, 1, "#pragma") -> Bad        \* (only as the first line of a program)
      [] Ch(s, 1) = "#" -> "()"
      [] Is(s, 1, "if ") -> IF Ends(s, ":") THEN Cond("if", Between(s, 4, 1)) ELSE Bad
      [] Is(s, 1, "while ") -> IF Ends(s, ":") THEN Cond("while", Between(s, 7, 1)) ELSE Bad
      [] Is(s, 1, "for ") -> For(From(s, 5))
      [] Is(s, 1, "block ") -> IF Ends(s, ":") /\ AllWord(Between(s, 7, 1)) THEN Form("block", <<Between(s, 7, 1)>>) ELSE Bad
      [] Is(s, 1, "switch ") -> IF Ends(s, ":") THEN Form("switch", <<Whole(Between(s, 8, 1))>>) ELSE Bad
      [] Is(s, 1, "func ") -> Func(From(s, 6))
      [] Is(s, 1, "struct ") -> IF Ends(s, ":") /\ NameIs(Between(s, 8, 1), Upper) THEN Form("struct", <<Between(s, 8, 1)>>) ELSE Bad
      [] s \in {"teal:", "inner_group:", "inner_txn:", "router:"} -> Form(Between(s, 1, 1), <<>>)
      [] Is(s, 1, "const ") -> Const(From(s, 7))
      [] Is(s, 1, "jump ") -> IF AllWord(From(s, 6)) THEN Form("jump", <<From(s, 6)>>) ELSE Bad
      [] Is(s, 1, "return") /\ Ch(s, 7) \notin Word ->
            IF s = "return" THEN "(return)" ELSE Form("return", List(s, 7, <<>>))
      [] Is(s, 1, "break") /\ Ch(s, 6) \notin Word -> IF s = "break" THEN "(break)" ELSE Bad
      [] Is(s, 1, "box<") -> Box(From(s, 5))
      [] Var(s) # "" -> Var(s)
      [] FieldAsg(s) # "" -> FieldAsg(s)
      [] Is(s, 1, "exit(") -> IF Ends(s, ")") THEN Form("exit", <<Whole(Between(s, 6, 1))>>) ELSE Bad
      [] Is(s, 1, "assert(") -> Asserted(From(s, 8))
      [] Span(s, 1, Word) > 1 /\ Ch(s, Span(s, 1, Word)) = "(" -> IF Ends(s, ")") THEN Form("do", <<Whole(s)>>) ELSE Bad
      [] OTHER -> LET ns == Names(s, 1, "") IN
                  IF ns[1] = 0 THEN Bad
                  ELSE Form("assign", <<SubSeq(ns[2], 2, Len(ns[2])), Whole(From(s, ns[1]))>>)
StructField(s) ==
    LET n == NameEnd(s, 1, Lower) IN
    IF n > 0 /\ Is(s, n, ": ") THEN Form("f", <<Upto(s, 1, n), Type(From(s, n + 2))>>) ELSE Bad
Setter(s) ==
    LET f == IF Ch(s, 1) \in Upper THEN Span(s, 2, Word) ELSE 0
        d == Span(s, f + 1, Digits)
        ix == f > 0 /\ Ch(s, f) = "[" IN
    IF f = 0 THEN Bad
    ELSE IF ix THEN (IF d - f \in 2..3 /\ Is(s, d, "]: ")
                     THEN Form("s", <<Upto(s, 1, f), Number(Upto(s, f + 1, d)), Whole(From(s, d + 3))>>) ELSE Bad)
    ELSE IF Is(s, f, ": ") THEN Form("s", <<Upto(s, 1, f), Whole(From(s, f + 2))>>) ELSE Bad
RECURSIVE LastPair(_, _)
LastPair(s, i) == IF i = 0 THEN 0 ELSE IF Is(s, i, ": ") THEN i ELSE LastPair(s, i - 1)
Option(s) ==
    LET k == LastPair(s, Len(s))
        b == From(s, k + 2) IN
    IF k = 0 \/ ~AllWord(b) THEN Bad
    ELSE IF SubSeq(s, 1, k - 1) = "else" THEN Form("else", <<b>>)
    ELSE Form("o", <<Whole(SubSeq(s, 1, k - 1)), b>>)
\* blanks around a line and a comment at its end do not count
RECURSIVE CommentAt(_, _, _)
CommentAt(s, i, q) ==
    LET ch == Ch(s, i) IN
    IF ch = "" THEN Len(s) + 1
    ELSE IF q # "" THEN (IF ch = "\\" THEN CommentAt(s, i + 2, q) ELSE CommentAt(s, i + 1, IF ch = q THEN "" ELSE q))
    ELSE IF ch = "#" THEN i
    ELSE CommentAt(s, i + 1, IF ch \in {"\"", "'"} THEN ch ELSE "")
Bare(s) == LET t == Trim(s) IN IF Ch(t, 1) = "#" THEN t ELSE RTrim(SubSeq(t, 1, CommentAt(t, 1, "") - 1))
Read(ctx, s0) ==
    LET s == Bare(s0) IN
    IF ctx \notin {"stmt", "first"} /\ (s = "" \/ Ch(s, 1) = "#") THEN "()"
    ELSE CASE ctx = "stmt" -> Stmt(s)
           [] ctx = "first" -> LET v == From(s, 17) IN
                               IF Is(s, 1, "#pragma version ") /\ v # "" /\ All(v, Digits) THEN Form("pragma", <<v>>) ELSE Stmt(s)
           [] ctx = "struct" -> StructField(s)
           [] ctx = "itxn" -> Setter(s)
           [] ctx = "switch" -> Option(s)
           [] ctx = "elif" -> IF Is(s, 1, "elif ") /\ Ends(s, ":") THEN Cond("elif", Between(s, 6, 1)) ELSE Stmt(s)
           [] OTHER -> IF AllWord(s) THEN Form("route", <<s>>) ELSE Bad

\* ---------------------------------------------------------------- verdicts
Judge(k) ==
    LET x == Cases[k]
        r == Read(x.ctx, x.line) IN
    IF r # x.sx THEN <<"reading", "specification: " \o r \o "; harness: " \o x.sx>>
    ELSE IF r = Bad /\ x.acc THEN <<"syntax", "accepted: " \o x.line>>
    ELSE <<IF r = Bad THEN "bad" ELSE "line", r>>
Init == c \in 1..Len(Cases) /\ verdict = <<>>
Next == /\ verdict = <<>>
        /\ verdict' = Judge(c)
        /\ PrintT("VERDICT " \o ToJson(<<Cases[c].id, verdict'[1], verdict'[2], 0, 0>>))
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
