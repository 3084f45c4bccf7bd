------------------------------ MODULE Project ------------------------------
(* The language specification of a project as a machine.                    *)
(* State: the langspec.json of every project (0: none, n: specification n)  *)
(* and what every remote place answers (0: a failure, n: specification n).  *)
(* Specification 1 is the packaged one.  Commands: fetching from a place,   *)
(* updating (fetching from the first place), the differences of the own     *)
(* specification and of a place's, and compiling a program which calls an   *)
(* opcode; edits of the project and of the places.                          *)
(*                                                                          *)
(* Gen: histories of edits and commands are generated.                      *)
(* Trace: states and answers recorded while the code ran such histories     *)
(* must be steps of this machine.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == TLCEval(JsonDeserialize(IOEnv.CASES))
VARIABLES local, remote, n, hist, c, verdict
vars == <<local, remote, n, hist, c, verdict>>

\* specs: sequence of sequences of opcodes <<name, parameters, results>>
Names(sp) == {sp[i][1] : i \in 1..Len(sp)}
\* the opcodes of b which a does not have
New(b, a) == {b[i] : i \in {j \in 1..Len(b) : b[j][1] \notin Names(a)}}
Active(l) == IF l = 0 THEN 1 ELSE l
Ans(e, out) == [e |-> e, out |-> out]
Fail == Ans(TRUE, {})

\* the only result <<local, remote, answer>> of command x; specifications sp, opcode of each program pr
Result(L, R, x, sp, pr) ==
    CASE x.k = "publish" -> <<L, [R EXCEPT ![x.r] = x.t], Ans(FALSE, {})>>
      [] x.k = "write" -> <<[L EXCEPT ![x.d] = x.t], R, Ans(FALSE, {})>>
      [] x.k \in {"fetch", "update"} ->
           LET r == IF x.k = "update" THEN 1 ELSE x.r IN
           IF R[r] = 0 THEN <<L, R, Fail>>
           ELSE <<[L EXCEPT ![x.d] = R[r]], R, Ans(FALSE, New(sp[R[r]], sp[1]))>>
      [] x.k = "diff" -> <<L, R, Ans(FALSE, New(sp[Active(L[x.d])], sp[1]))>>
      [] x.k = "compare" ->
           IF R[x.r] = 0 THEN <<L, R, Fail>> ELSE <<L, R, Ans(FALSE, New(sp[R[x.r]], sp[Active(L[x.d])]))>>
      [] x.k = "compile" ->
           IF pr[x.t] \in Names(sp[Active(L[x.d])]) THEN <<L, R, Ans(FALSE, {})>> ELSE <<L, R, Fail>>

----------------------------------------------------------------------------
(* Generation, with specifications 1..K, places 1..M and programs 1..Q *)
K == 4   M == 5   Q == 5
GS == <<<<<<"a">>, <<"b">>, <<"z">>>>, <<<<"a">>, <<"b">>, <<"z">>, <<"n1">>>>, <<<<"a">>, <<"b">>, <<"n1">>, <<"n2">>>>, <<<<"a">>, <<"n3">>>>>>
GP == <<"a", "b", "n1", "n2", "n3">>
D == IF "D" \in DOMAIN IOEnv THEN atoi(IOEnv.D) ELSE 4
Dirs == 1..2
Blank == [k |-> "", d |-> 1, r |-> 1, t |-> 0]
Commands ==
    {[Blank EXCEPT !.k = "publish", !.r = r, !.t = t] : r \in 1..M, t \in 0..K}
    \cup {[Blank EXCEPT !.k = "write", !.d = d, !.t = t] : d \in Dirs, t \in {0, 2, 3}}
    \cup {[Blank EXCEPT !.k = k, !.d = d, !.r = r] : k \in {"fetch", "compare"}, d \in Dirs, r \in 1..M}
    \cup {[Blank EXCEPT !.k = k, !.d = d] : k \in {"update", "diff"}, d \in Dirs}
    \cup {[Blank EXCEPT !.k = "compile", !.d = d, !.t = t] : d \in Dirs, t \in 1..Q}
GenInit == /\ local = [d \in Dirs |-> 0] /\ remote \in {[r \in 1..M |-> 1 + ((r + i) % K)] : i \in 1..2}
           /\ n = 0 /\ hist = <<>> /\ c = 0 /\ verdict = <<"", "">>
GenNext ==
    /\ UNCHANGED <<c, verdict>>
    /\ IF n < D THEN \E x \in Commands : LET r == Result(local, remote, x, GS, GP) IN
                        local' = r[1] /\ remote' = r[2] /\ n' = n + 1 /\ hist' = Append(hist, <<x, remote>>)
       ELSE n = D /\ n' = n + 1 /\ PrintT("VERDICT " \o ToJson(hist)) /\ UNCHANGED <<local, remote, hist>>
GenSpec == GenInit /\ [][GenNext]_vars

\* properties of the machine itself
ModelNext == n < D /\ \E x \in Commands : LET r == Result(local, remote, x, GS, GP) IN
                 local' = r[1] /\ remote' = r[2] /\ n' = n + 1 /\ hist' = <<x, r[3]>> /\ UNCHANGED <<c, verdict>>
ModelSpec == GenInit /\ [][ModelNext]_vars
X == hist'[1]
\* a project changes by fetching, updating and edits only, and only the project concerned
OwnOnly == [][\A d \in Dirs : local'[d] # local[d] => X.k \in {"write", "fetch", "update"} /\ X.d = d]_vars
FailedSafe == [][hist'[2].e => local' = local /\ remote' = remote]_vars
Places == [][X.k # "publish" => remote' = remote]_vars
\* what fetching lists is what is listed afterwards as the difference, and comparing with the place then lists nothing
Listed == [][X.k \in {"fetch", "update"} /\ ~hist'[2].e =>
               LET r == IF X.k = "update" THEN 1 ELSE X.r
                   y == [Blank EXCEPT !.d = X.d, !.r = r] IN
               /\ Result(local', remote', [y EXCEPT !.k = "diff"], GS, GP)[3] = hist'[2]
               /\ Result(local', remote', [y EXCEPT !.k = "compare"], GS, GP)[3] = Ans(FALSE, {})]_vars
\* every listed opcode compiles after fetching
Usable == [][X.k = "fetch" /\ ~hist'[2].e =>
               \A t \in 1..Q : <<GP[t]>> \in hist'[2].out => ~Result(local', remote', [Blank EXCEPT !.k = "compile", !.d = X.d, !.t = t], GS, GP)[3].e]_vars

----------------------------------------------------------------------------
(* Recorded histories: specs, progs, h: [x |-> command, local |-> after it, e, out] *)
C == Data[c]
ToSet(s) == {s[i] : i \in 1..Len(s)}
Done(kind, detail) == verdict' = <<kind, detail>> /\ PrintT("VERDICT " \o ToJson(<<C.id, kind, ToString(detail), n, 0>>))
TraceInit == c \in 1..Len(Data) /\ local = Data[c].local /\ remote = Data[c].remote /\ n = 0 /\ hist = <<>> /\ verdict = <<"", "">>
TraceNext ==
    /\ verdict[1] = ""
    /\ UNCHANGED <<c, hist>>
    /\ IF n = Len(C.h) THEN Done("ok", "") /\ UNCHANGED <<local, remote, n>>
       ELSE LET y == C.h[n + 1]
                r == Result(local, remote, y.x, C.specs, C.progs) IN
            /\ n' = n + 1 /\ local' = y.local /\ remote' = r[2]
            /\ IF r[1] = y.local /\ r[3].e = y.e /\ (y.e \/ r[3].out = ToSet(y.out)) /\ Len(y.out) = Cardinality(ToSet(y.out)) THEN UNCHANGED verdict
               ELSE Done("step", <<n + 1, y.x, "from", local, remote, "got", y.local, y.e, y.out, "expected", r[1], r[3]>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
AsSpecified == verdict[1] \in {"", "ok"}
=============================================================================
