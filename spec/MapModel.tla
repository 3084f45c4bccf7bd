------------------------------ MODULE MapModel ------------------------------
(* Source maps.  A map has three tables: program counter -> TEAL line, TEAL *)
(* line -> source line, source line -> assert message.  Every query is a    *)
(* function of the tables; updating replaces the first; copies through      *)
(* dictionaries or JSON have the same tables and share no state.            *)
(* Histories recorded from the code are checked step by step.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
VARIABLES c, i, maps, verdict
vars == <<c, i, maps, verdict>>

\* tables as functions
Table(ps) == [k \in {ps[j][1] : j \in 1..Len(ps)} |-> (CHOOSE p \in {ps[j] : j \in 1..Len(ps)} : p[1] = k)[2]]
SameTable(ps, t) == /\ Len(ps) = Cardinality(DOMAIN t)
                    /\ \A j \in 1..Len(ps) : ps[j][1] \in DOMAIN t /\ t[ps[j][1]] = ps[j][2]
Empty == [pc |-> <<>>, tl |-> <<>>, er |-> <<>>]

\* the assembler's map: for each pc nothing or how much the (0-based) line grows; lines here are 1-based
RECURSIVE LineOfPc(_, _)
LineOfPc(ds, n) == IF n = 0 THEN 0 ELSE LineOfPc(ds, n - 1) + (IF ds[n] = <<>> THEN 0 ELSE ds[n][1])
PcTable(ds) == [p \in 0..(Len(ds) - 1) |-> LineOfPc(ds, p + 1) + 1]

Get(t, k) == IF k \in DOMAIN t THEN <<t[k]>> ELSE <<>>
Then(r, t) == IF r = <<>> THEN <<>> ELSE Get(t, r[1])
TealOfPc(m, p) == Get(m.pc, p)
SourceOfPc(m, p) == Then(TealOfPc(m, p), m.tl)
ErrorOfPc(m, p) == Then(SourceOfPc(m, p), m.er)
TealLines(m, l) == {k \in DOMAIN m.tl : m.tl[k] = l}

Range(s) == {s[j] : j \in 1..Len(s)}
O == Cases[c].ops[i]
M == maps[O.m]
TablesOk(a, m) == SameTable(a[1], m.pc) /\ SameTable(a[2], m.tl) /\ SameTable(a[3], m.er)

\* is the answer of the operation right?
Right == O.r = "" /\      \* (O.r: what was raised, or an answer of another type)
    CASE O.k = "dict" -> Len(O.a) = 3 /\ TablesOk(O.a, M)
      [] O.k = "teal_pc" -> O.a = TealOfPc(M, O.x)
      [] O.k = "tl_pc" -> O.a = SourceOfPc(M, O.x)
      [] O.k = "err_pc" -> O.a = ErrorOfPc(M, O.x)
      [] O.k = "tl_teal" -> O.a = Get(M.tl, O.x)
      [] O.k = "lines" -> Range(O.a) = TealLines(M, O.x) /\ Len(O.a) = Cardinality(TealLines(M, O.x))
      [] O.k = "compile" -> Len(O.a) = 3
      [] OTHER -> O.a = <<>>

After ==
    CASE O.k = "new" -> [maps EXCEPT ![O.m] = [pc |-> Table(O.t[1]), tl |-> Table(O.t[2]), er |-> Table(O.t[3])]]
      [] O.k = "compile" -> [maps EXCEPT ![O.m] = [pc |-> Table(O.a[1]), tl |-> Table(O.a[2]), er |-> Table(O.a[3])]]
      [] O.k = "update" -> [maps EXCEPT ![O.m].pc = PcTable(O.d)]
      [] O.k \in {"copy", "json"} -> [maps EXCEPT ![O.x] = M]
      [] OTHER -> maps

Done(kind, detail) ==
    /\ verdict' = <<kind, detail>>
    /\ PrintT("VERDICT " \o ToJson(<<Cases[c].id, kind, ToString(detail), i, 0>>))

Init == c \in 1..Len(Cases) /\ i = 1 /\ maps = [k \in 1..3 |-> Empty] /\ verdict = <<"", "">>
Next ==
    /\ verdict[1] = ""
    /\ IF i > Len(Cases[c].ops) THEN Done("ok", "") /\ UNCHANGED <<i, maps>>
       ELSE IF ~Right THEN Done("answer", <<"operation", i, O.k, O.m, O.x, "answer", O.a, O.r, "tables", M>>) /\ UNCHANGED <<i, maps>>
       ELSE maps' = After /\ i' = i + 1 /\ UNCHANGED verdict
    /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Answers == verdict[1] \in {"", "ok"}
=============================================================================
