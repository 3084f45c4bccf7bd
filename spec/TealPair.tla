------------------------------ MODULE TealPair ------------------------------
(* Two TEAL programs with the same behaviour: B is A minified or stripped   *)
(* of comments.  map[n] is the line of A from which line n of B came (empty *)
(* if there is no map).  If B is not instruction by instruction the code of *)
(* A, both are run side by side under every choice of the environment.      *)
EXTENDS Avm, IOUtils

Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
VARIABLES c, ph, a, b, memo, nd, fuel, verdict
vars == <<c, ph, a, b, memo, nd, fuel, verdict>>

C == Cases[c]
Chunk == 40
SetUp == TLCSet(10 + 2 * c, TLCEval(Assemble(C.A))) /\ TLCSet(11 + 2 * c, TLCEval(Assemble(C.B)))
AsmA == TLCGet(10 + 2 * c)
AsmB == TLCGet(11 + 2 * c)
Mapped == C.map # <<>>
LineOf(l) == IF l >= 1 /\ l <= Len(C.map) THEN C.map[l] ELSE -1

----------------------------------------------------------------------------
(* Lines: each line of B has the statements of the line of A it came from.  *)
Branches == {"b", "bz", "bnz", "callsub", "switch", "match"}
RECURSIVE SameTokens(_, _, _, _)
\* br: are these tokens branch targets?
SameTokens(s, t, i, br) ==
    IF i > Len(s) THEN TRUE
    ELSE LET x == s[i]  y == t[i] IN
         /\ \/ x = y
            \/ br /\ ~x.q /\ ~y.q
            \/ i = 1 /\ x.lb /\ y.lb
         /\ SameTokens(s, t, i + 1, br \/ (~x.q /\ x.s \in Branches))
SameStatement(s, t) == Len(s) = Len(t) /\ SameTokens(s, t, 1, FALSE)
\* ia[l], ib[l]: <<first, last>> statement of line l
OnLine(T, at) == SubSeq(T, at[1], at[2])
LineMatches(n) ==
    /\ LineOf(n) >= 1 /\ LineOf(n) <= Len(C.ia)
    /\ LET x == OnLine(C.B, C.ib[n])  y == OnLine(C.A, C.ia[LineOf(n)]) IN
       Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameStatement(x[i].t, y[i].t)
BadLines == {n \in 1..C.n : ~LineMatches(n)}
Increasing == \A n \in 1..(C.n - 1) : C.map[n] < C.map[n + 1]

SameCode == LET x == AsmA.code  y == AsmB.code IN
            /\ Len(x) = Len(y)
            /\ \A i \in 1..Len(x) :
                 /\ [x[i] EXCEPT !.l = 0] = [y[i] EXCEPT !.l = 0]
                 /\ Mapped => LineOf(y[i].l) = x[i].l

----------------------------------------------------------------------------
End(kind, detail) ==
    /\ ph' = "end"
    /\ verdict' = <<kind, detail>>
    /\ PrintT("VERDICT " \o ToJson(<<C.id, kind, ToString(detail), 0, 0>>))

Init == /\ c \in 1..Len(Cases) /\ ph = "start" /\ a = <<>> /\ b = <<>> /\ memo = <<>> /\ nd = 3 /\ fuel = 0
        /\ verdict = <<"", "">>

Start ==
    /\ ph = "start"
    /\ SetUp
    /\ IF AsmA.err # <<>>
       THEN End("skip", <<AsmA.err[1].why, AsmA.err[1].l>>) /\ UNCHANGED <<a, b>>
       ELSE IF AsmB.err # <<>> THEN End("asm", <<AsmB.err[1].why, AsmB.err[1].l>>) /\ UNCHANGED <<a, b>>
       ELSE IF Mapped /\ BadLines # {} THEN End("map", <<"line", CHOOSE n \in BadLines : TRUE, LineOf(CHOOSE n \in BadLines : TRUE)>>) /\ UNCHANGED <<a, b>>
       ELSE IF Mapped /\ ~Increasing THEN End("map", "order") /\ UNCHANGED <<a, b>>
       ELSE IF SameCode /\ ~C.run THEN End("ok", "same code") /\ UNCHANGED <<a, b>>
       ELSE ph' = "run" /\ a' = AvmInit(AsmA) /\ b' = AvmInit(AsmB) /\ UNCHANGED verdict
    /\ UNCHANGED <<c, memo, nd, fuel>>

Results(kinds) ==
    IF kinds = <<>> THEN {<<>>}
    ELSE LET one(k) == IF k = "B" THEN {BytV(<<>>), BytV(<<1, 2>>)} ELSE IF k = "S" THEN {BytV(Rep(7, 32))}
                       ELSE IF k = "E" THEN {BytV(<<1>>)} ELSE {NatV(0), NatV(1), NatV(2)}
             all == {f \in [1..Len(kinds) -> UNION {one(kinds[i]) : i \in 1..Len(kinds)}] : \A i \in 1..Len(kinds) : f[i] \in one(kinds[i])}
         IN IF nd > 0 THEN all ELSE {CHOOSE f \in all : TRUE}

Same(m, n) == m.status = n.status /\ m.req = n.req /\ m.val = n.val /\ m.why = n.why /\ m.st = n.st
Doing(m, s) == <<"line", AvmLine(s, m), m.status, m.req, m.val, m.why>>
Step ==
    /\ ph = "run"
    /\ LET x == AvmRun(AsmA, a, Chunk)  y == AvmRun(AsmB, b, Chunk) IN
       IF x.m.status = "run" /\ y.m.status = "run" /\ fuel < 12
       THEN a' = x.m /\ b' = y.m /\ fuel' = fuel + 1 /\ UNCHANGED <<ph, memo, nd, verdict>>
       ELSE IF fuel >= 40 \/ (x.m.status = "run" /\ y.m.status = "run") THEN End("diverge", "") /\ UNCHANGED <<a, b, memo, nd, fuel>>
       ELSE IF ~Same(x.m, y.m) THEN End("behaviour", <<Doing(x.m, AsmA), Doing(y.m, AsmB)>>) /\ UNCHANGED <<a, b, memo, nd, fuel>>
       ELSE IF Mapped /\ AvmLine(AsmB, y.m) > 0 /\ LineOf(AvmLine(AsmB, y.m)) # AvmLine(AsmA, x.m)
       THEN End("line", <<Doing(x.m, AsmA), Doing(y.m, AsmB)>>) /\ UNCHANGED <<a, b, memo, nd, fuel>>
       ELSE IF x.m.status \in {"exit", "fail", "stuck"}
       THEN End("ok", x.m.status) /\ UNCHANGED <<a, b, memo, nd, fuel>>
       ELSE \E vs \in (IF x.m.status = "read" /\ x.m.req \in DOMAIN memo THEN {memo[x.m.req]} ELSE Results(x.m.kinds)) :
            /\ a' = AvmGive(x.m, vs) /\ b' = AvmGive(y.m, vs)
            /\ memo' = IF x.m.status = "read" THEN (x.m.req :> vs) @@ memo ELSE memo
            /\ nd' = IF nd > 0 /\ x.m.kinds # <<>> THEN nd - 1 ELSE nd
            /\ fuel' = fuel + 1
            /\ UNCHANGED <<ph, verdict>>
    /\ UNCHANGED c

Next == Start \/ Step
Spec == Init /\ [][Next]_vars
Equivalent == verdict[1] \in {"", "ok", "skip", "diverge"}
=============================================================================
