-------------------------------- MODULE Cli --------------------------------
(* The command line as a machine on a file system.                          *)
(* State: a function from paths to contents.  Contents are <<kind, text>>:  *)
(* the source with that number, its TEAL, bytecode, source map, an own      *)
(* langspec.json, a directory or some other data.  A command takes a state  *)
(* to one of several states (the files of a directory are compiled in any   *)
(* order, up to the first that fails), with an exit code and an output.     *)
(*                                                                          *)
(* Gen: histories of edits and commands are generated.                      *)
(* Trace: the states and answers recorded while the code ran such histories *)
(* must be steps of this machine.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == TLCEval(JsonDeserialize(IOEnv.CASES))
\* files: [p |-> path, d |-> directory, o |-> path without extension under build/, tl |-> is it a .tl file?]
\* texts: [ok |-> does it compile?, f |-> the formatted text (0: an error), a |-> does it assemble?, n |-> lines of code (-1: not specified),
\*         teal, map |-> the first text with the same TEAL or map]
VARIABLES fs, n, hist, c, verdict
vars == <<fs, n, hist, c, verdict>>

Paths(S) == {x[1] : x \in S}
Content(S, p) == (CHOOSE x \in S : x[1] = p)[2]
Put(S, p, v) == {x \in S : x[1] # p} \cup {<<p, v>>}
Del(S, p) == {x \in S : x[1] # p}
IsFile(S, p) == p \in Paths(S) /\ Content(S, p)[1] # "dir"
\* (a build directory may be made)
Mk(S, d) == IF d \in Paths(S) THEN S ELSE Put(S, d, <<"dir", 0>>)

\* what compiling or building one file does: the new state, and is it the end (an error)?
Text(S, T, p) == LET v == Content(S, p) IN IF v[1] = "src" THEN T[v[2]] ELSE [ok |-> FALSE, f |-> 0, a |-> FALSE, n |-> 0, teal |-> 0, map |-> 0]
Blocked(S, f) == f.d \o "/build" \in Paths(S) /\ Content(S, f.d \o "/build")[1] # "dir"
Teal(S, T, f) == Put(Mk(S, f.d \o "/build"), f.o \o ".teal", <<"teal", Text(S, T, f.p).teal>>)
Built(S, T, f) == Put(Put(Teal(S, T, f), f.o \o ".teal.tok", <<"tok", Text(S, T, f.p).teal>>), f.o \o ".map.json", <<"map", Text(S, T, f.p).map>>)
One(S, T, f, asm) ==
    LET t == Text(S, T, f.p) IN
    IF ~t.ok \/ Blocked(S, f) THEN [s |-> S, e |-> TRUE]
    ELSE IF asm = "" THEN [s |-> Teal(S, T, f), e |-> FALSE]
    ELSE IF asm = "up" /\ t.a THEN [s |-> Built(S, T, f), e |-> FALSE]
    ELSE [s |-> Teal(S, T, f), e |-> TRUE]
\* all results of doing so for a set of files, in any order
RECURSIVE All(_, _, _, _)
All(S, T, F, asm) ==
    IF F = {} THEN {<<S, FALSE>>}
    ELSE UNION {LET r == One(S, T, f, asm) IN IF r.e THEN {<<r.s, TRUE>>} ELSE All(r.s, T, F \ {f}, asm) : f \in F}

\* an answer: [e |-> exit code # 0, out |-> what is written to the output, as far as it is specified]
Ans(e, out) == [e |-> e, out |-> out]
\* the results <<state, answer>> of a command x on state S
Targets(S, x, F) == IF x.p \in Paths(S) /\ Content(S, x.p)[1] = "dir"
                    THEN {f \in F : f.d = x.p /\ f.tl /\ IsFile(S, f.p)} ELSE {f \in F : f.p = x.p}
Results(S, x, F, T) ==
    CASE x.k = "write" -> {<<Put(S, x.p, <<"src", x.t>>), Ans(FALSE, <<>>)>>}
      [] x.k = "delete" -> {<<Del(S, x.p), Ans(FALSE, <<>>)>>}
      [] x.k \in {"compile", "build"} ->
           IF x.p \notin Paths(S) THEN {<<S, Ans(TRUE, <<>>)>>}
           ELSE {<<r[1], Ans(r[2], IF x.q /\ ~r[2] THEN <<"silent", 0>> ELSE <<>>)>> : r \in All(S, T, Targets(S, x, F), IF x.k = "compile" THEN "" ELSE x.asm)}
      [] x.k = "format" ->
           IF ~IsFile(S, x.p) \/ Text(S, T, x.p).f = 0 THEN {<<S, Ans(TRUE, <<>>)>>}
           ELSE {<<Put(S, x.p, <<"src", Text(S, T, x.p).f>>), Ans(FALSE, <<>>)>>}
      [] x.k = "inspect" ->
           IF ~IsFile(S, x.p) \/ ~Text(S, T, x.p).ok THEN {<<S, Ans(TRUE, <<>>)>>}
           ELSE {<<S, Ans(FALSE, <<"inspection", Content(S, x.p)[2]>>)>>}
      [] x.k = "stats" ->
           IF x.p \notin Paths(S) THEN {<<S, Ans(TRUE, <<>>)>>}
           ELSE {<<S, Ans(FALSE, IF IsFile(S, x.p) /\ Content(S, x.p)[1] = "src" /\ Text(S, T, x.p).n >= 0 THEN <<"lines", Text(S, T, x.p).n>> ELSE <<>>)>>}
      [] x.k = "diff" -> {<<S, Ans(FALSE, <<>>)>>}
      [] x.k = "fetch" -> IF x.t = 0 THEN {<<S, Ans(TRUE, <<>>)>>} ELSE {<<Put(S, "langspec.json", <<"spec", x.t>>), Ans(FALSE, <<>>)>>}

----------------------------------------------------------------------------
(* Generation *)
GF == {[p |-> "p/a.tl", d |-> "p", o |-> "p/build/a", tl |-> TRUE], [p |-> "p/b.v2.tl", d |-> "p", o |-> "p/build/b.v2", tl |-> TRUE],
       [p |-> "p/src", d |-> "p", o |-> "p/build/src", tl |-> FALSE], [p |-> "p/sub/c.tl d.tl", d |-> "p/sub", o |-> "p/sub/build/c.tl d", tl |-> TRUE]}
GDirs == {"p", "p/sub", "q"}
GT == LET X(ok, f, a, teal) == [ok |-> ok, f |-> f, a |-> a, n |-> 0, teal |-> teal, map |-> teal] IN
      <<X(TRUE, 5, TRUE, 1), X(TRUE, 6, TRUE, 2), X(FALSE, 0, FALSE, 0), X(TRUE, 4, FALSE, 4), X(TRUE, 5, TRUE, 1), X(TRUE, 6, TRUE, 2)>>
GEdits == {1, 2, 3, 4}
D == IF "D" \in DOMAIN IOEnv THEN atoi(IOEnv.D) ELSE 4
Blank == [k |-> "", p |-> "", t |-> 0, asm |-> "", q |-> FALSE]
Commands(S) ==
    {[Blank EXCEPT !.k = "write", !.p = f.p, !.t = t] : f \in GF, t \in GEdits}
    \cup {[Blank EXCEPT !.k = "delete", !.p = f.p] : f \in {g \in GF : IsFile(S, g.p)}}
    \cup {[Blank EXCEPT !.k = k, !.p = f.p] : k \in {"compile", "format", "inspect", "stats"}, f \in GF}
    \cup {[Blank EXCEPT !.k = k, !.p = d] : k \in {"compile", "stats"}, d \in GDirs}
    \cup {[Blank EXCEPT !.k = "build", !.p = p, !.asm = a] : p \in GDirs \cup {f.p : f \in GF}, a \in {"up", "down", "unsupported"}}
    \cup {[Blank EXCEPT !.k = "diff"]} \cup {[Blank EXCEPT !.k = "fetch", !.t = t] : t \in 0..1}
GenInit == /\ fs = {<<d, <<"dir", 0>>>> : d \in {"p", "p/sub"}} \cup {<<"p/a.tl", <<"src", 1>>>>, <<"p/b.v2.tl", <<"src", 2>>>>, <<"p/sub/c.tl d.tl", <<"src", 1>>>>}
           /\ n = 0 /\ hist = <<>> /\ c = 0 /\ verdict = <<"", "">>
GenNext ==
    /\ UNCHANGED <<c, verdict>>
    /\ IF n < D THEN \E x \in Commands(fs) : \E r \in Results(fs, x, GF, GT) : fs' = r[1] /\ n' = n + 1 /\ hist' = Append(hist, x)
       ELSE n = D /\ n' = n + 1 /\ PrintT("VERDICT " \o ToJson(hist)) /\ UNCHANGED <<fs, hist>>
GenSpec == GenInit /\ [][GenNext]_vars
\* properties of the machine itself (checked with StateOnly, where histories are not kept)
ModelNext == n < D /\ \E x \in Commands(fs) : \E r \in Results(fs, x, GF, GT) :
                 fs' = r[1] /\ n' = n + 1 /\ hist' = <<x, r[2].e>> /\ UNCHANGED <<c, verdict>>
ModelSpec == GenInit /\ [][ModelNext]_vars
Sources(S) == {x \in S : x[1] \in {f.p : f \in GF}}
Writers == {"compile", "build"}
\* only edits and format change sources, and format only its file; compiling and building only add or replace outputs
SourcesSafe == [][hist'[1].k \notin {"write", "delete", "format"} => Sources(fs') = Sources(fs)]_vars
FormatOnly == [][hist'[1].k = "format" => \A x \in fs' : x[1] # hist'[1].p => x \in fs]_vars
NothingLost == [][hist'[1].k # "delete" => Paths(fs) \subseteq Paths(fs')]_vars
ReadOnly == [][hist'[1].k \in {"inspect", "stats", "diff"} => fs' = fs]_vars
FailedFormatSafe == [][hist'[1].k = "format" /\ hist'[2] => fs' = fs]_vars
OutputsOnly == [][hist'[1].k \in Writers => \A x \in fs' \ fs : x[2][1] \in {"teal", "tok", "map"} \/ (x[2][1] = "dir" /\ x[1] \in {d \o "/build" : d \in GDirs})]_vars
NoBytecode == [][hist'[1].k = "compile" => {x \in fs' : x[2][1] \in {"tok", "map"}} = {x \in fs : x[2][1] \in {"tok", "map"}}]_vars

----------------------------------------------------------------------------
(* Recorded histories: files, texts, start (a state), h: [x |-> command, fs |-> state after it, e, out] *)
C == Data[c]
Files == {C.files[i] : i \in 1..Len(C.files)}
State(s) == {<<s[i][1], <<s[i][2], s[i][3]>>>> : i \in 1..Len(s)}
Done(kind, detail) == verdict' = <<kind, detail>> /\ PrintT("VERDICT " \o ToJson(<<C.id, kind, ToString(detail), n, 0>>))
TraceInit == c \in 1..Len(Data) /\ fs = State(Data[c].start) /\ n = 0 /\ hist = <<>> /\ verdict = <<"", "">>
TraceNext ==
    /\ verdict[1] = ""
    /\ UNCHANGED <<c, hist>>
    /\ IF n = Len(C.h) THEN Done("ok", "") /\ UNCHANGED <<fs, n>>
       ELSE LET y == C.h[n + 1]
                R == Results(fs, y.x, Files, C.texts)
                S == State(y.fs) IN
            /\ n' = n + 1 /\ fs' = S
            /\ IF \E r \in R : r[1] = S /\ r[2].e = y.e /\ (r[2].out = <<>> \/ r[2].out = y.out) THEN UNCHANGED verdict
               ELSE Done("step", <<n + 1, y.x, "exit", y.e, y.out, "changed", S \ fs, "gone", fs \ S, "expected", {<<r[1] \ fs, r[2]>> : r \in R}>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Documented == verdict[1] \in {"", "ok"}
=============================================================================
