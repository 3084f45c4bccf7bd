------------------------------ MODULE Tealish ------------------------------
(* The meaning of Tealish programs: a machine that executes the abstract    *)
(* syntax tree directly.                                                    *)
(*                                                                          *)
(* ctl   what remains to be done (the next item is the last one)            *)
(* vs    values of pending operands, and values pushed by the program       *)
(* store the value of each declared variable: <<>> (never assigned) or <<v>>*)
(* dcl   has the declaration of each variable been executed?                *)
(* grp   inner group: 0 none, 1 begun, 2 it has a transaction               *)
(* itx   transactions of the inner group under construction                 *)
(* ln    the source line(s) of the statement being executed                 *)
(* msg   the message of the assert that failed: <<>> or <<message>>          *)
(* status "run", "read"/"ev" (waiting for the results of req), "exit",      *)
(*       "fail", "cut" (the language does not say what happens)             *)
EXTENDS Statics

SrcInit(P, S) ==
    [ctl |-> << <<"B", P.root, 1>> >>, vs |-> <<>>, store |-> [i \in 1..Len(S.dt) |-> <<>>],
     dcl |-> [i \in 1..Len(S.dt) |-> FALSE],
     grp |-> 0, itx |-> 0, ln |-> <<0>>, status |-> "run", req |-> <<>>, kinds |-> <<>>,
     val |-> <<>>, why |-> "", msg |-> <<>>, size |-> FALSE]

FailS(s, why) == [s EXCEPT !.status = "fail", !.why = why]
Cut(s, why) == [s EXCEPT !.status = "cut", !.why = why]

\* do these items next, in this order
Do(s, items) == [s EXCEPT !.ctl = @ \o RevSeq(items)]
Es(es) == [i \in 1..Len(es) |-> <<"E", es[i]>>]
O(op) == <<"op", op, <<>>>>
Oi(op, im) == <<"op", op, im>>
V(v) == <<"v", v>>
PushV(s, v) == [s EXCEPT !.vs = Append(@, v)]
Body(b) == <<"B", b, 1>>

\* does a value belong to a type?
Conforms(t, v) ==
    CASE IsInt(t) -> v[1] = "i" /\ BitLen(v[2]) <= 8 * t.s
      [] t.k = "any" -> TRUE
      [] t.k = "box" -> v[1] = "b"
      [] OTHER -> v[1] = "b" /\ (t.s = 0 \/ Len(v[2]) = t.s)

InFn(s) == \E i \in 1..Len(s.ctl) : s.ctl[i][1] = "fn"
Dcl(s, d) == [s EXCEPT !.dcl[d] = TRUE]
Store(S, s, d, v) == [s EXCEPT !.store[d] = <<v>>, !.size = @ \/ ~Conforms(S.dt[d], v)]

\* the size checks of EnsureType: <<result>> ; known: the type claimed for the value
Ensure(t, known, v) ==
    IF IsInt(t)
    THEN IF t.k = "int" THEN "ok" ELSE IF v[1] # "i" THEN "type"
         ELSE IF BitLen(v[2]) <= 8 * t.s THEN "ok" ELSE IF known.s = t.s THEN "cut" ELSE "logic"
    ELSE IF t.s = 0 THEN "ok"
         ELSE IF v[1] # "b" THEN "type"
         ELSE IF Len(v[2]) = t.s THEN "ok" ELSE IF known.s = t.s THEN "cut" ELSE "logic"

Ensures(ts, ks, vs) ==        \* vs: first value last
    LET n == Len(ts)
        rs == {Ensure(ts[i], ks[i], vs[n + 1 - i]) : i \in 1..n}
    IN IF rs = {"ok"} THEN "ok" ELSE IF "cut" \in rs THEN "cut" ELSE IF "type" \in rs THEN "type" ELSE "logic"

RECURSIVE Join(_, _, _)
Join(vs, i, acc) == IF i > Len(vs) THEN acc ELSE Join(vs, i + 1, acc \o vs[i][2])
AllB(vs) == \A i \in 1..Len(vs) : vs[i][1] = "b"

\* the result of a standard function: argument values av, result types ts,
\* at: the type of the first argument, v0: constant data
StdApply(nm, av, ts, at, n, v0) ==
    LET a == av[1][2]
        isb == av[1][1] = "b"
        T == ts[1]
    IN
    CASE nm \in {"ToBytes", "Lpad", "Rpad"} /\ n > MaxBytes -> IF isb \/ nm = "ToBytes" THEN Logic ELSE TypeErr
      [] nm = "Convert" /\ IsByt(T) /\ T.s > MaxBytes -> IF isb THEN TypeErr ELSE Logic
      [] nm = "Cast" ->
            IF IsInt(T) THEN (IF isb THEN TypeErr ELSE IF BitLen(a) <= 8 * T.s THEN OK(av) ELSE Logic)
            ELSE IF T.s = 0 THEN OK(av)
            ELSE IF ~isb THEN TypeErr ELSE IF Len(a) = T.s THEN OK(av) ELSE Logic
      [] nm = "Convert" /\ IsInt(T) ->
            IF ~isb THEN TypeErr
            ELSE IF Len(a) > 8 \/ BitLen(a) > 8 * T.s THEN Logic ELSE OK(<<IntV(PadL(a, 8))>>)
      [] nm = "Convert" ->
            IF isb THEN TypeErr
            ELSE IF T.s = 0 THEN OK(<<BytV(a)>>)
            ELSE IF BitLen(a) > 8 * T.s THEN Logic
            ELSE OK(<<BytV(Low(a, T.s))>>)
      [] nm = "ToBytes" /\ IsInt(at) -> IF isb THEN TypeErr ELSE OK(<<BytV(IF n = 0 THEN a ELSE Low(a, n))>>)
      [] nm = "ToBytes" ->
            IF ~isb THEN TypeErr ELSE IF n = 0 THEN OK(av)
            ELSE IF Len(a) > n THEN Logic ELSE OK(<<BytV(PadL(a, n))>>)
      [] nm = "FromBytes" ->
            IF ~isb THEN TypeErr
            ELSE IF IsInt(T) THEN (IF Len(a) > 8 THEN Logic ELSE OK(<<IntV(PadL(a, 8))>>))
            ELSE IF T.s = 0 \/ Len(a) = T.s THEN OK(av)
            ELSE IF at.s = T.s THEN [r |-> "cut"] ELSE Logic
      [] nm = "Rpad" -> IF ~isb THEN TypeErr ELSE IF Len(a) > n THEN Logic ELSE OK(<<BytV(a \o Zeros(n - Len(a)))>>)
      [] nm = "Lpad" -> IF ~isb THEN TypeErr ELSE IF Len(a) > n THEN Logic ELSE OK(<<BytV(Zeros(n - Len(a)) \o a)>>)
      [] nm = "Concat" -> IF Len(av) > 1 /\ ~AllB(av) THEN TypeErr
                          ELSE IF Len(av) = 1 THEN OK(av) ELSE Bytes_(Join(av, 1, <<>>))
      [] nm = "ARC28Event" -> IF ~AllB(av) THEN TypeErr ELSE Bytes_(v0 \o Join(av, 1, <<>>))
      [] OTHER -> [r |-> "cut"]

----------------------------------------------------------------------------
(* Expressions *)

EvalE(P, S, s, e) ==
    LET x == P.n[e]  r == S.rs[e] IN
    CASE x.k \in {"int", "byt"} -> PushV(s, x.v)
      [] x.k \in {"cst", "enum"} -> PushV(s, r)
      [] x.k = "id" -> IF s.store[r] = <<>> THEN Cut(s, "unassigned") ELSE PushV(s, s.store[r][1])
      [] x.k = "un" -> Do(s, << <<"E", x.a>>, O(x.op)>>)
      [] x.k = "bin" -> Do(s, << <<"E", x.a>>, <<"E", x.b>>, O(x.op)>>)
      [] x.k = "ucall" -> Do(s, Append(Es(x.args), <<"call", r>>))
      [] x.k = "op" -> Do(s, Append(Es(x.args), Oi(x.nm, r)))
      [] x.k = "std" /\ x.nm \in {"push", "UncheckedCast"} -> Do(s, Es(x.args))
      [] x.k = "std" /\ x.nm = "pop" -> s
      [] x.k = "std" /\ x.nm = "Error" -> FailS(s, "logic")
      [] x.k = "std" /\ x.nm = "SizeOf" -> PushV(s, r)
      [] x.k = "std" /\ x.nm = "Address" -> PushV(s, x.v)
      [] x.k = "std" /\ x.nm = "bzero" -> Do(s, Append(Es(x.args), O("bzero")))
      [] x.k = "std" /\ x.nm \in {"ToBytes", "Rpad", "Lpad"} -> Do(s, << <<"E", x.args[1]>>, <<"std", e>> >>)
      [] x.k = "std" -> Do(s, Append(Es(x.args), <<"std", e>>))
      [] x.k = "txn" -> Do(s, <<Oi("txn", <<x.f>>)>>)
      [] x.k = "glob" -> Do(s, <<Oi("global", <<x.f>>)>>)
      [] x.k = "itx" -> Do(s, <<Oi("itxn", <<x.f>>)>>)
      [] x.k = "txna" -> Do(s, << <<"E", x.ix>>, Oi("txnas", <<x.f>>)>>)
      [] x.k = "itxa" -> Do(s, << <<"E", x.ix>>, Oi("itxnas", <<x.f>>)>>)
      [] x.k = "gtxn" -> Do(s, << <<"E", x.gi>>, Oi("gtxns", <<x.f>>)>>)
      [] x.k = "gtxna" -> Do(s, << <<"E", x.gi>>, <<"E", x.ix>>, Oi("gtxnsas", <<x.f>>)>>)
      [] x.k = "grel" -> Do(s, <<Oi("txn", <<"GroupIndex">>), V(x.v), O(x.op)>>)
      [] x.k = "fld" ->
            \* r = <<declaration, offset, size, type, is it a box?>>
            IF s.store[r[1]] = <<>> THEN Cut(s, "unassigned")
            ELSE Do(s, <<V(s.store[r[1]][1]), V(NatV(r[2])), V(NatV(r[3])),
                         O(IF r[5] THEN "box_extract" ELSE "extract3")>>
                       \o (IF IsInt(r[4]) THEN <<O("btoi")>> ELSE <<>>))

\* apply the standard function e to its arguments on vs
ApplyStd(P, S, s, e) ==
    LET x == P.n[e]
        k == IF x.nm \in {"ToBytes", "Rpad", "Lpad"} THEN 1
             ELSE IF x.nm = "EnsureType" THEN Len(TypesOf(S.ty[x.args[1]])) ELSE Len(x.args)
        N == Len(s.vs)
    IN
    IF N < k THEN FailS(s, "stack")
    ELSE
    LET av == SubSeq(s.vs, N - k + 1, N)
        ts == [i \in 1..Len(x.tys) |-> TypeOf(S, x.tys[i])[1]]
        n == IF x.nm \in {"ToBytes", "Rpad", "Lpad"} THEN S.ty[e].s ELSE 0
        r == IF x.nm = "EnsureType"
             THEN [r |-> Ensures(ts, TypesOf(S.ty[x.args[1]]), av), v |-> av]
             ELSE StdApply(x.nm, av, ts, IF k > 0 THEN S.ty[x.args[1]] ELSE TNone, n,
                           IF x.nm = "ARC28Event" THEN x.v[2] ELSE <<>>)
    IN CASE r.r = "ok" -> [s EXCEPT !.vs = Drop(@, k) \o r.v]
         [] r.r = "cut" -> Cut(s, "unchecked")
         [] OTHER -> FailS(s, r.r)

\* apply an opcode to its arguments on vs
ApplyOp(s, op, im) ==
    LET k == Len(Ops[op].a)
        n == Len(s.vs)
    IN
    IF n < k THEN FailS(s, "stack")
    ELSE LET av == SubSeq(s.vs, n - k + 1, n)
             e == Ev(op, im, av)
             rest == Drop(s.vs, k)
         IN CASE e.r = "ok" -> [s EXCEPT !.vs = rest \o e.v]
              [] e.r = "type" -> FailS(s, "type")
              [] e.r = "logic" -> FailS(s, "logic")
              [] e.r = "read" -> [s EXCEPT !.vs = rest, !.status = "read", !.req = Request(op, im, av),
                                           !.kinds = Kinds(op, im)]
              [] e.r = "ev" -> IF ItxnFault(op, s.itx) THEN FailS(s, "logic")
                               ELSE [s EXCEPT !.vs = rest, !.status = "ev", !.itx = ItxnNext(op, @),
                                              !.req = Request(op, im, av), !.kinds = Kinds(op, im)]
              [] OTHER -> Cut(s, op)

----------------------------------------------------------------------------
(* Statements *)

Goto(P, s, b) == [s EXCEPT !.ctl = <<Body(P.n[b].body)>>]

RECURSIVE Unwind(_, _)
\* drop items up to and including the last one of kind k
Unwind(ctl, k) == IF Top(ctl)[1] = k THEN ctl ELSE Unwind(Drop(ctl, 1), k)

\* call the function node f: its arguments are on vs
Call(P, S, s, f) ==
    LET ds == S.rs[f]
        n == Len(ds)
        N == Len(s.vs)
        RECURSIVE bind(_, _)
        bind(t, i) == IF i = 0 THEN t ELSE bind(Store(S, Dcl(t, ds[i]), ds[i], s.vs[N - n + i]), i - 1)
    IN IF N < n THEN FailS(s, "stack")
       ELSE Do([bind(s, n) EXCEPT !.vs = Drop(s.vs, n)], << Body(P.n[f].body), <<"fn", s.ln>> >>)

BoxChecks(x, size) ==
    CASE x.meth = "Open" -> <<O("dup"), O("box_len"), O("assert"), V(NatV(size)), O("=="), O("assert")>>
      [] x.meth = "Create" -> <<O("dup"), V(NatV(size)), O("box_create"), O("assert")>>
      [] OTHER -> <<>>

\* begin, fields and submission of an inner transaction
InnerTxn(P, s, x) ==
    LET begin == IF s.grp = 2 THEN "itxn_next" ELSE "itxn_begin"
        fields == [i \in 1..Len(x.fs) |-> <<"fs", x.fs[i]>>]
    IN Do([s EXCEPT !.grp = IF @ = 1 THEN 2 ELSE @], <<O(begin)>> \o fields \o << <<"submit", x.ln>> >>)

\* ABI decoding of an argument of type t
Decode(t) ==
    IF IsInt(t) THEN (IF t.s = 8 THEN <<O("btoi")>> ELSE <<O("btoi"), <<"bits", t.s>> >>)
    ELSE IF t.s = 0 THEN <<>> ELSE << <<"size", t.s>> >>

Route(P, S, s, x, i, f) ==
    LET
        fn == P.n[f]
        check == IF fn.oc = "CreateApplication"
                 THEN <<Oi("txn", <<"ApplicationID">>), V(NatV(0)), O("=="), O("assert")>>
                 ELSE <<Oi("txn", <<"OnCompletion">>), V(NatV(Builtins[fn.oc])), O("=="), O("assert")>>
        RECURSIVE args(_)
        args(j) == IF j > Len(fn.ps) THEN <<>>
                   ELSE <<Oi("txna", <<"ApplicationArgs", j>>)>> \o Decode(TypeOf(S, fn.ps[j].ty)[1]) \o args(j + 1)
    IN Do([s EXCEPT !.ln = <<x.ln, x.rts[i].ln>>],
          check \o args(1) \o << <<"call", f>>, <<"rlog", f>>, V(NatV(1)), <<"exit">> >>)

Exec(P, S, s0, id) ==
    LET x == P.n[id]
        r == S.rs[id]
        s == IF x.k \in {"func", "block", "struct", "const"} THEN s0 ELSE [s0 EXCEPT !.ln = <<x.ln>>]
    IN
    CASE x.k \in {"func", "block", "struct", "const"} -> s
      [] x.k = "var" -> IF x.e = 0 THEN Dcl(s, r) ELSE Do(Dcl(s, r), << <<"E", x.e>>, <<"st", r>> >>)
      [] x.k = "asg" -> Do(s, << <<"E", x.e>> >>
                              \o [i \in 1..Len(r) |-> IF r[i] = 0 THEN <<"drop">> ELSE <<"st", r[i]>>])
      [] x.k = "box" -> Do(Dcl(s, r), << <<"E", x.e>> >> \o BoxChecks(x, S.structs[x.sn].size) \o << <<"st", r>> >>)
      [] x.k = "fasg" -> Do(s, << <<"E", x.e>>, <<"fset", id>> >>)
      [] x.k = "exit" -> Do(s, << <<"E", x.e>>, <<"exit">> >>)
      [] x.k = "assert" -> Do(s, << <<"E", x.e>>, <<"assert", id>> >>)
      [] x.k = "call" -> Do(s, << <<"E", x.e>> >>)
      [] x.k = "if" -> Do(s, << <<"E", x.e>>, <<"if", id, 0>> >>)
      [] x.k = "while" -> Do(s, << <<"loop", id>> >>)
      [] x.k = "for" -> Do(Dcl(s, r), << <<"E", x.a>>, <<"st", r>>, <<"for", id>> >>)
      [] x.k = "for_" -> Do(s, << <<"E", x.a>>, <<"fu", id>> >>)
      [] x.k = "switch" -> Do(s, << <<"E", x.e>>, <<"sw", id>> >>)
      [] x.k = "router" -> Do(s, <<Oi("txna", <<"ApplicationArgs", 0>>), <<"route", id>> >>)
      [] x.k = "jump" -> Goto(P, s, r)
      [] x.k = "ret" -> Do(s, Es(RevSeq(x.es)) \o << <<"ret">> >>)
      [] x.k = "break" -> [s EXCEPT !.ctl = Drop(Unwind(@, "loop"), 1)]
      [] x.k = "teal" -> Do(s, << <<"teal", id, 1>> >>)
      [] x.k = "itxn" -> InnerTxn(P, s, x)
      [] x.k = "group" -> IF s.grp # 0 THEN FailS(s, "logic")
                          ELSE Do([s EXCEPT !.grp = 1],
                                  <<Body(x.body), O("itxn_submit"), <<"endgroup">> >>)
      [] OTHER -> Cut(s, x.k)

\* the i-th clause of an if: its condition is false, go on with the next one
NextClause(P, s, id, x, i) ==
    IF i < Len(x.elifs)
    THEN LET y == P.n[x.elifs[i + 1]]
         IN Do([s EXCEPT !.ln = <<y.ln>>], << <<"E", y.e>>, <<"if", id, i + 1>> >>)
    ELSE Do(s, <<Body(x.els)>>)

\* options of a switch: the value v is compared with each option in turn
Options(P, S, s, id, i, v) ==
    LET x == P.n[id] IN
    IF i > Len(x.opts) THEN (IF x.els = "" THEN FailS([s EXCEPT !.ln = <<x.ln>>], "logic") ELSE Goto(P, s, S.rs[id]))
    ELSE LET o == P.n[x.opts[i]]
         IN Do([s EXCEPT !.ln = <<x.ln, o.ln>>], <<V(v), <<"E", o.e>>, O("=="), <<"case", id, i, v>> >>)

RECURSIVE FindRoute(_, _, _)
FindRoute(rts, v, i) == IF i > Len(rts) THEN 0 ELSE IF <<"b", rts[i].b>> = v THEN i ELSE FindRoute(rts, v, i + 1)

\* inline TEAL that touches what the compiler's own code lives in: no promise
Machine == {"load", "store", "loads", "stores", "callsub", "retsub", "proto", "frame_dig", "frame_bury"}

SrcStep(P, S, s0) ==
    IF s0.ctl = <<>>
    THEN IF Len(s0.vs) = 1 /\ s0.vs[1][1] = "i"
         THEN [s0 EXCEPT !.status = "exit", !.val = s0.vs[1], !.vs = <<>>, !.ln = <<0>>]
         ELSE FailS([s0 EXCEPT !.ln = <<0>>], IF Len(s0.vs) # 1 THEN "end" ELSE "type")
    ELSE
    LET it == Top(s0.ctl)
        s == [s0 EXCEPT !.ctl = Drop(@, 1)]
        k == it[1]
        n == Len(s.vs)
        v == Top(s.vs)
        p == [s EXCEPT !.vs = Drop(@, 1)]                  \* after taking v
        need(t) == IF n = 0 THEN FailS(s, "stack") ELSE t
        int(t) == IF n = 0 THEN FailS(s, "stack") ELSE IF v[1] # "i" THEN FailS(s, "type") ELSE t
    IN
    CASE k = "E" -> EvalE(P, S, s, it[2])
      [] k = "B" -> IF it[3] > Len(it[2]) THEN s
                    ELSE Exec(P, S, [s EXCEPT !.ctl = Append(@, <<"B", it[2], it[3] + 1>>)], it[2][it[3]])
      [] k = "v" -> PushV(s, it[2])
      [] k = "op" -> ApplyOp(s, it[2], it[3])
      [] k = "std" -> ApplyStd(P, S, s, it[2])
      \* a function called before the declaration of an outer variable is executed can't use that variable
      [] k = "st" -> need(IF ~s.dcl[it[2]] /\ InFn(s) THEN Cut(s, "undeclared") ELSE Store(S, p, it[2], v))
      [] k = "drop" -> need(p)
      [] k = "size" -> need(IF v[1] # "b" THEN FailS(s, "type") ELSE IF Len(v[2]) = it[2] THEN s ELSE FailS(s, "logic"))
      [] k = "bits" -> int(IF BitLen(v[2]) <= 8 * it[2] THEN s ELSE FailS(s, "logic"))
      [] k = "exit" -> int([p EXCEPT !.status = "exit", !.val = v])
      [] k = "assert" -> int(IF Truthy(v) THEN p ELSE [FailS(p, "logic") EXCEPT !.msg = <<P.n[it[2]].msg>>])
      [] k = "call" -> Call(P, S, s, it[2])
      [] k = "fn" -> Cut(s, "fn")
      [] k = "ret" -> LET c == Unwind(s.ctl, "fn") IN [s EXCEPT !.ctl = Drop(c, 1), !.ln = Top(c)[2]]
      [] k = "if" ->
            LET x == P.n[it[2]]
                y == IF it[3] = 0 THEN x ELSE P.n[x.elifs[it[3]]]
            IN int(IF Truthy(v) # y.neg THEN Do(p, <<Body(y.body)>>) ELSE NextClause(P, p, it[2], x, it[3]))
      [] k = "loop" ->
            LET x == P.n[it[2]] IN Do([s EXCEPT !.ln = <<x.ln>>], << <<"E", x.e>>, <<"loopc", it[2]>> >>)
      [] k = "loopc" ->
            LET x == P.n[it[2]] IN
            int(IF Truthy(v) # x.neg THEN Do(p, <<Body(x.body), <<"loop", it[2]>> >>) ELSE p)
      [] k = "for" ->
            LET x == P.n[it[2]]  i == s.store[S.rs[it[2]]][1]
            IN Do([s EXCEPT !.ln = <<x.ln>>], <<V(i), <<"E", x.b>>, O("=="), <<"forc", it[2]>> >>)
      [] k = "forc" ->
            LET x == P.n[it[2]] IN
            int(IF Truthy(v) THEN p ELSE Do(p, <<Body(x.body), <<"inc", it[2]>>, <<"for", it[2]>> >>))
      [] k = "inc" ->
            LET x == P.n[it[2]]  d == S.rs[it[2]]
            IN Do([s EXCEPT !.ln = <<x.ln>>], <<V(s.store[d][1]), V(NatV(1)), O("+"), <<"st", d>> >>)
      \* for _: the counter has no name
      [] k = "fu" ->
            LET x == P.n[it[2]]
            IN need(Do([p EXCEPT !.ln = <<x.ln>>], <<V(v), <<"E", x.b>>, O("=="), <<"fuc", it[2], v>> >>))
      [] k = "fuc" ->
            LET x == P.n[it[2]] IN
            int(IF Truthy(v) THEN p ELSE Do(p, <<Body(x.body), <<"fui", it[2], it[3]>> >>))
      [] k = "fui" ->
            LET x == P.n[it[2]]
            IN Do([s EXCEPT !.ln = <<x.ln>>], <<V(it[3]), V(NatV(1)), O("+"), <<"fu", it[2]>> >>)
      [] k = "sw" -> need(Options(P, S, p, it[2], 1, v))
      [] k = "case" -> LET x == P.n[it[2]] IN
            int(IF Truthy(v) THEN Goto(P, p, S.rs[x.opts[it[3]]]) ELSE Options(P, S, p, it[2], it[3] + 1, it[4]))
      [] k = "route" ->
            LET x == P.n[it[2]]  i == FindRoute(x.rts, v, 1)
            IN need(IF i = 0 THEN FailS(p, "logic") ELSE Route(P, S, p, x, i, S.rs[it[2]][i]))
      [] k = "rlog" ->
            LET m == Len(P.n[it[2]].rt) IN
            IF m = 0 THEN s ELSE IF n < m THEN FailS(s, "stack")
            ELSE LET rs == RevSeq(SubSeq(s.vs, n - m + 1, n))
                     ts == [i \in 1..m |-> TypeOf(S, P.n[it[2]].rt[i])[1]]
                 IN IF \E i \in 1..m : IsInt(ts[i]) # (rs[i][1] = "i") THEN FailS(s, "type")
                    ELSE Do([s EXCEPT !.vs = Drop(@, m)],
                            <<V(BytV(<<21, 31, 124, 117>> \o Join(rs, 1, <<>>))), O("log")>>)
      [] k = "fset" ->
            LET x == P.n[it[2]]
                f == S.rs[it[2]]                 \* <<declaration, offset, size, type, is it a box?>>
                b == IF IsInt(f[4]) THEN BytV(Low(v[2], f[3])) ELSE v
                cur == s.store[f[1]]
            IN need(IF IsInt(f[4]) # (v[1] = "i") THEN FailS(s, "type")
                    ELSE IF cur = <<>> THEN Cut(s, "unassigned")
                    ELSE IF f[5] THEN Do(p, <<V(cur[1]), V(NatV(f[2])), V(b), O("box_replace")>>)
                    ELSE LET new == Splice(cur[1][2], f[2], b[2])
                         IN IF new.r # "ok" THEN FailS(s, "logic")
                            ELSE [p EXCEPT !.store[f[1]] = new.v])
      [] k = "fs" -> LET x == P.n[it[2]]
                     IN Do([s EXCEPT !.ln = <<x.ln>>], << <<"E", x.e>>, Oi("itxn_field", <<x.f>>)>>)
      [] k = "submit" -> IF s.grp = 0 THEN Do([s EXCEPT !.ln = <<it[2]>>], <<O("itxn_submit")>>) ELSE s
      [] k = "endgroup" -> [s EXCEPT !.grp = 0]
      [] k = "teal" ->
            LET code == Assemble(P.n[it[2]].ins).code IN
            IF it[3] > Len(code) THEN s
            ELSE IF code[it[3]].op \in Machine THEN Cut(s, "teal")
            ELSE LET a == [code |-> code, slots |-> 1]
                     m == AvmStep(a, [AvmInit(a) EXCEPT !.pc = it[3], !.st = s.vs, !.itx = s.itx])
                     c == IF m.status \in {"run", "read", "ev"} THEN Append(s.ctl, <<"teal", it[2], m.pc>>) ELSE s.ctl
                     st == IF m.status = "stuck" THEN "cut" ELSE m.status
                 IN [s EXCEPT !.ctl = c, !.vs = m.st, !.itx = m.itx, !.status = st, !.req = m.req,
                              !.kinds = m.kinds, !.val = m.val, !.why = m.why, !.ln = <<code[it[3]].l>>]
      [] OTHER -> Cut(s, k)

RECURSIVE SrcRun(_, _, _, _)
SrcRun(P, S, s, fuel) ==
    IF fuel = 0 \/ s.status # "run" THEN [s |-> s, f |-> fuel]
    ELSE SrcRun(P, S, SrcStep(P, S, s), fuel - 1)

SrcGive(s, vs) == [s EXCEPT !.vs = @ \o vs, !.status = "run", !.req = <<>>, !.kinds = <<>>]
=============================================================================
