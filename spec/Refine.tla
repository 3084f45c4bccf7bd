------------------------------- MODULE Refine -------------------------------
(* Refinement: the TEAL produced for a program behaves as its source.       *)
(*                                                                          *)
(* Each case has an abstract syntax tree P, the verdict of the compiler and *)
(* the TEAL it produced (tokenised).  The source machine runs until it      *)
(* reads a constant of the environment, makes an observable effect, or      *)
(* ends; the environment chooses results; then the AVM must do the same.    *)
(* Every choice is explored, so a run covers all paths within the bounds.   *)
EXTENDS Tealish, IOUtils

Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
N == Len(Cases)

(* What is computed once for each case is kept in registers of TLC: definitions *)
(* that use recursive operators are evaluated again at every use.               *)
NoStatic == [ok |-> TRUE, ln |-> 0, why |-> "", ty |-> <<>>, rs |-> <<>>, dt |-> <<>>, structs |-> <<>>]
StaticOf(i) == IF Cases[i].P.n = <<>> THEN NoStatic ELSE Static(Cases[i].P)
AsmOf(i) == IF Cases[i].acc THEN Assemble(Cases[i].T) ELSE [code |-> <<>>, err |-> <<>>, slots |-> 1]

VARIABLES
    c,        \* the case
    ph,       \* "src", "avm", "cmp" or "end"
    src, avm, \* the two machines
    memo,     \* constants of the environment: request -> [v: results, ln: source lines, seen: by the AVM]
    nd,       \* free choices left
    cnt,      \* number of results chosen
    fs, fa,   \* steps made by the machines
    verdict   \* <<kind, detail>>, kind is "" until the end
vars == <<c, ph, src, avm, memo, nd, cnt, fs, fa, verdict>>

Chunk == 48
C == Cases[c]
SetUp == TLCSet(10 + 2 * c, TLCEval(StaticOf(c))) /\ TLCSet(11 + 2 * c, TLCEval(AsmOf(c)))
TheStatic == TLCGet(10 + 2 * c)
TheAsm == TLCGet(11 + 2 * c)

----------------------------------------------------------------------------
(* The environment *)

Pick(s, k) == s[(k % Len(s)) + 1]
Range(s) == {s[i] : i \in 1..Len(s)}
Fit(s, n) == IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE s \o [i \in 1..(n - Len(s)) |-> (7 * i + Len(s)) % 256]

\* candidates for one result of kind k
Cands(k, req) ==
    CASE k = "U" -> C.ci
      [] k = "B" -> C.cb
      [] k = "S" -> C.c32
      [] k = "1" -> <<NatV(1), NatV(0)>>
      [] k = "E" -> LET n == Min2(Off(req[4][3][2]), MaxBytes)
                    IN [i \in 1..Len(C.cb) |-> BytV(Fit(C.cb[i][2], n))]
      [] OTHER -> C.ci \o C.cb

\* candidates given for specific requests: [q: request name, f: field, w: words (prefix), v: result tuples]
EnvMatch(e, req) == /\ e.q = req[1] /\ e.f = req[2]
                    /\ Len(e.w) <= Len(req[3]) /\ \A i \in 1..Len(e.w) : e.w[i] = req[3][i]
EnvFor(req) == SelectSeq(C.env, LAMBDA e : EnvMatch(e, req))

RECURSIVE Tuples(_, _, _)
Tuples(kinds, req, i) ==
    IF i > Len(kinds) THEN {<<>>}
    ELSE {<<v>> \o t : v \in Range(Cands(kinds[i], req)), t \in Tuples(kinds, req, i + 1)}

\* the result tuples the environment may choose
Results(req, kinds, free, k) ==
    IF kinds = <<>> THEN {<<>>}
    ELSE LET e == EnvFor(req) IN
         IF e # <<>> THEN (IF free THEN Range(e[1].v) ELSE {Pick(e[1].v, k)})
         ELSE IF free THEN Tuples(kinds, req, 1)
         ELSE {[i \in 1..Len(kinds) |-> Pick(Cands(kinds[i], req), k + i)]}

----------------------------------------------------------------------------
\* the macros for groups of inner transactions belong to no source line
GroupMacros == {"_itxn_group_begin", "_itxn_begin", "_itxn_submit", "_itxn_group_submit"}
InMacro(l) == \E k \in 1..Len(C.T) :
    /\ C.T[k].t[1].lb /\ C.T[k].t[1].s \in GroupMacros /\ C.T[k].l <= l
    /\ \A j \in C.T[k].l..l : C.map[j] = 0
\* every statement of the TEAL has a source line
MapOk == \A k \in 1..Len(C.T) :
    \/ C.T[k].t[1].s = "#pragma"
    \/ C.T[k].l <= Len(C.map) /\ (C.map[C.T[k].l] > 0 \/ (C.map[C.T[k].l] = 0 /\ InMacro(C.T[k].l)))
LineOK(l, lns) == l = 0 \/ l > Len(C.map) \/ C.map[l] = 0 \/ \E i \in 1..Len(lns) : lns[i] = C.map[l] \/ lns[i] = 0
Want(kind) == \E i \in 1..Len(C.chk) : C.chk[i] = kind
ALine == AvmLine(TheAsm, avm)
MapAt(l) == IF l > 0 /\ l <= Len(C.map) THEN C.map[l] ELSE 0

\* assert messages: emsg[l] is the message recorded for TEAL line l
MsgAt(l) == IF l > 0 /\ l <= Len(C.emsg) THEN C.emsg[l] ELSE ""
Asserts(ln, m) == \E i \in 1..Len(C.P.n) : C.P.n[i].k = "assert" /\ C.P.n[i].ln = ln /\ C.P.n[i].msg = m
MsgsOk == \A l \in 1..Len(C.emsg) : C.emsg[l] # "" => Asserts(C.map[l], C.emsg[l])

\* the programs for which C10 promises safety: no value without a known type, no unchecked escape
StackOps == {"dup", "dup2", "dupn", "dig", "bury", "cover", "uncover", "swap", "pop", "popn", "load", "store", "loads",
             "stores", "frame_dig", "frame_bury", "proto", "intc", "bytec", "itxn_field"}
Unchecked(P, S, i) ==
    LET x == P.n[i]  t == S.ty[i] IN
    \/ t.k = "any" \/ (t.k = "list" /\ \E j \in 1..Len(t.l) : t.l[j].k = "any")
    \/ x.k = "teal"
    \/ x.k = "std" /\ x.nm \in {"push", "pop", "UncheckedCast"}
    \/ x.k = "op" /\ x.nm \in StackOps
Safe == /\ C.strict
        /\ \A j \in 1..Len(C.P.n) : ~Unchecked(C.P, TheStatic, j)
        /\ \A j \in 1..Len(TheStatic.dt) : TheStatic.dt[j].k # "any"

\* the lines of each teal block are in the code, together and in order
Has(T, ins) == \E k \in 0..(Len(T) - Len(ins)) : \A j \in 1..Len(ins) : T[k + j].t = ins[j].t
Verbatim == \A i \in 1..Len(C.P.n) : C.P.n[i].k = "teal" => Has(C.T, C.P.n[i].ins)

\* reasons for refusal that concern the types of values
TypeWhys == {"index must be int", "operand type", "compared kinds", "argument type", "immediate",
             "condition must be int", "assigned type", "field type", "option type", "field value", "bounds must be int",
             "return type", "switch type", "box key", "constant type", "unconsumed values", "number of values",
             "number of arguments", "number of returns", "no return", "bzero", "Cast", "Convert", "ToBytes",
             "FromBytes", "EnsureType", "Rpad", "Lpad", "Concat", "ARC28Event"}

\* lines that may be named for an error: that of its clause, or of the statement which has the clause
Clauses(x) == IF x.k = "switch" THEN Range(x.opts) ELSE IF x.k = "itxn" THEN Range(x.fs) ELSE {}
ErrLines(S) == {S.ln} \cup
    {C.P.n[i].ln : i \in {j \in 1..Len(C.P.n) : LET x == C.P.n[j] IN
        \/ \E o \in Clauses(x) : C.P.n[o].ln = S.ln
        \/ x.k = "router" /\ \E r \in 1..Len(x.rts) : x.rts[r].ln = S.ln
        \/ x.k = "struct" /\ \E f \in 1..Len(x.fs) : x.fs[f].ln = S.ln}}
NoLine == {"no return", "block structure", "program structure"}        \* not errors of one line

End(kind, detail) ==
    /\ ph' = "end"
    /\ verdict' = <<kind, detail>>
    /\ PrintT("VERDICT " \o ToJson(<<C.id, kind, ToString(detail), cnt, fs>>))

Init ==
    /\ c \in 1..N
    /\ ph = "start"
    /\ src = <<>> /\ avm = <<>>
    /\ memo = <<>> /\ nd = Cases[c].nd /\ cnt = 0 /\ fs = 0 /\ fa = 0
    /\ verdict = <<"", "">>

Start ==
    /\ ph = "start"
    /\ SetUp
    /\ LET S == TheStatic IN
       IF C.acc /\ Want("asm") /\ TheAsm.err # <<>>
       THEN /\ End("asm", <<TheAsm.err[1].why, TheAsm.err[1].l>>)
            /\ UNCHANGED <<src, avm, nd>>
       ELSE IF S.ok # C.acc
       THEN /\ IF Want("accept") \/ (Want("types") /\ C.acc /\ S.why \in TypeWhys) THEN End("accept", IF S.ok THEN C.msg ELSE <<S.why, S.ln>>)
               ELSE End("skip", "accept")
            /\ UNCHANGED <<src, avm, nd>>
       ELSE IF ~S.ok
       THEN /\ IF Want("errline") /\ C.eln # 0 /\ S.ln # 0 /\ S.why \notin NoLine /\ C.eln \notin ErrLines(S)
               THEN End("errline", <<S.why, S.ln, C.eln>>) ELSE End("refused", S.why)
            /\ UNCHANGED <<src, avm, nd>>
       ELSE IF TheAsm.err # <<>>
       THEN /\ End("asm", <<TheAsm.err[1].why, TheAsm.err[1].l>>)
            /\ UNCHANGED <<src, avm, nd>>
       ELSE IF Want("line") /\ ~MapOk
       THEN /\ End("line", "TEAL without a source line") /\ UNCHANGED <<src, avm, nd>>
       ELSE IF Want("msg") /\ ~MsgsOk
       THEN /\ End("msg", "recorded messages") /\ UNCHANGED <<src, avm, nd>>
       ELSE IF Want("verbatim") /\ ~Verbatim
       THEN /\ End("verbatim", "a teal block") /\ UNCHANGED <<src, avm, nd>>
       ELSE IF C.run = 0
       THEN /\ End("ok", "accepted") /\ UNCHANGED <<src, avm, nd>>
       ELSE /\ ph' = "src"
            /\ src' = SrcInit(C.P, S) /\ avm' = AvmInit(TheAsm)
            /\ UNCHANGED <<verdict, nd>>
    /\ UNCHANGED <<c, memo, cnt, fs, fa>>

\* results for a read of the source machine
ReadSrc(s) ==
    IF s.req \in DOMAIN memo
    THEN /\ src' = SrcGive(s, memo[s.req].v)
         /\ UNCHANGED <<memo, nd, cnt>>
    ELSE \E vs \in Results(s.req, s.kinds, nd > 0, cnt) :
         /\ src' = SrcGive(s, vs)
         /\ memo' = (s.req :> [v |-> vs, ln |-> s.ln, seen |-> FALSE]) @@ memo
         /\ nd' = IF nd > 0 THEN nd - 1 ELSE 0
         /\ cnt' = cnt + 1

RunSrc ==
    /\ ph = "src"
    /\ LET r == SrcRun(C.P, TheStatic, src, Chunk)
           s == r.s
       IN /\ fs' = fs + (Chunk - r.f)
          /\ CASE fs > C.fuel ->
                    End("diverge", "") /\ UNCHANGED <<src, memo, nd, cnt>>
               [] s.status = "run" -> src' = s /\ UNCHANGED <<ph, verdict, memo, nd, cnt>>
               [] s.status = "read" -> ReadSrc(s) /\ UNCHANGED <<ph, verdict>>
               [] s.status = "cut" -> End("cut", s.why) /\ UNCHANGED <<src, memo, nd, cnt>>
               [] OTHER -> src' = s /\ ph' = "avm" /\ UNCHANGED <<verdict, memo, nd, cnt>>
    /\ UNCHANGED <<c, avm, fa>>

RunAvm ==
    /\ ph = "avm"
    /\ LET r == AvmRun(TheAsm, avm, Chunk)
           m == r.m
           l == AvmLine(TheAsm, m)
       IN \* (a request counts as many steps)
          /\ fa' = fa + (Chunk - r.f) + (IF m.status = "read" THEN 20 ELSE 0)
          /\ CASE m.status \in {"run", "read"} /\ fa > 1000 + 50 * fs ->
                    End("diverges", <<"line", AvmLine(TheAsm, m)>>) /\ UNCHANGED <<avm, memo>>
               [] m.status = "run" -> avm' = m /\ UNCHANGED <<ph, verdict, memo>>
               [] m.status = "read" ->
                    IF m.req \notin DOMAIN memo
                    THEN End("read", <<"line", l, m.req, "source lines", src.ln, src.status>>)
                         /\ UNCHANGED <<avm, memo>>
                    ELSE IF ~memo[m.req].seen /\ Want("line") /\ ~LineOK(l, memo[m.req].ln)
                    THEN End("line", <<"line", l, MapAt(l), m.req, "source lines", memo[m.req].ln>>)
                         /\ UNCHANGED <<avm, memo>>
                    ELSE /\ avm' = AvmGive(m, memo[m.req].v)
                         /\ memo' = [memo EXCEPT ![m.req].seen = TRUE]
                         /\ UNCHANGED <<ph, verdict>>
               [] OTHER -> avm' = m /\ ph' = "cmp" /\ UNCHANGED <<verdict, memo>>
    /\ UNCHANGED <<c, src, nd, cnt, fs>>

\* what each machine does, for messages
Doing(m) == IF m.status = "ev" THEN <<"does", m.req>>
            ELSE IF m.status = "exit" THEN <<"exits", m.val>> ELSE <<"fails", m.why>>
Both == <<"line", ALine, MapAt(ALine), Doing(avm), "source lines", src.ln, Doing(src)>>

Compare ==
    /\ ph = "cmp"
    /\ IF avm.status = "stuck" THEN End("stuck", avm.why) /\ UNCHANGED <<src, avm, nd, cnt>>
       ELSE IF avm.status # src.status
       THEN End(IF avm.status = "fail" /\ avm.why \in {"type", "stack"} THEN "kind" ELSE "behaviour", Both)
            /\ UNCHANGED <<src, avm, nd, cnt>>
       ELSE IF Want("line") /\ ~LineOK(ALine, src.ln) THEN End("line", Both) /\ UNCHANGED <<src, avm, nd, cnt>>
       ELSE CASE src.status = "fail" ->
                    /\ IF Want("msg") /\ src.msg # <<>> /\ src.msg[1] # MsgAt(ALine)
                       THEN End("msg", <<Both, src.msg[1], MsgAt(ALine)>>)
                       ELSE IF Safe /\ (avm.why \in {"type", "stack"} \/ src.why \in {"type", "stack"}) /\ Want("kind")
                       THEN End("kind", Both)
                       ELSE IF Safe /\ src.size /\ Want("size") THEN End("size", Both)
                       ELSE End("ok", <<"fail", src.why>>)
                    /\ UNCHANGED <<src, avm, nd, cnt>>
              [] src.status = "exit" ->
                    /\ IF avm.val # src.val THEN End("behaviour", Both)
                       ELSE IF Want("stack") /\ avm.st # src.vs THEN End("stack", <<Both, avm.st, src.vs>>)
                       ELSE IF Safe /\ src.size /\ Want("size") THEN End("size", Both)
                       ELSE End("ok", "exit")
                    /\ UNCHANGED <<src, avm, nd, cnt>>
              [] OTHER ->
                    IF avm.req # src.req THEN End("behaviour", Both) /\ UNCHANGED <<src, avm, nd, cnt>>
                    ELSE \E vs \in Results(src.req, src.kinds, nd > 0, cnt) :
                         /\ src' = SrcGive(src, vs)
                         /\ avm' = AvmGive(avm, vs)
                         /\ nd' = IF nd > 0 /\ src.kinds # <<>> THEN nd - 1 ELSE nd
                         /\ cnt' = cnt + 1
                         /\ ph' = "src"
                         /\ UNCHANGED verdict
    /\ UNCHANGED <<c, memo, fs, fa>>

Next == Start \/ RunSrc \/ RunAvm \/ Compare
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Quiet == {"", "ok", "refused", "skip", "cut", "diverge", "stuck"}
\* every explored behaviour of the TEAL is a behaviour of the source, and conversely
Refinement == verdict[1] \in Quiet
=============================================================================
