------------------------------ MODULE Statics ------------------------------
(* The static rules of Tealish: which programs are valid, what each name    *)
(* denotes and what type each expression has.                               *)
(*                                                                          *)
(* A program is an abstract syntax tree whose nodes are numbered:           *)
(* P.n[i] is a record with the kind .k, children are node numbers.          *)
(* Static(P) gives [ok, ln, why, ty, rs, dt]: is the program valid (if not, *)
(* on which line and why), the type of each expression node, the resolution *)
(* of each node and the type of each declared variable.                     *)
EXTENDS Avm

----------------------------------------------------------------------------
(* Types: k is the class, s the size in bytes (0: not fixed), n a name.     *)

Ty(k, s) == [k |-> k, s |-> s, n |-> ""]
TInt == Ty("int", 8)
TUint(s) == Ty("uint", s)
TBytes(s) == Ty("bytes", s)
TAny == Ty("any", 0)
TNone == Ty("none", 0)
TList(l) == [k |-> "list", s |-> Len(l), n |-> "", l |-> l]
IsInt(t) == t.k \in {"int", "uint"}
IsByt(t) == t.k \in {"bytes", "bigint", "addr", "array", "struct", "box"}
Single(t) == t.k \notin {"none", "list"}

\* may a value of type u be stored where t is declared?
CanHold(t, u) ==
    CASE IsInt(t) -> (IsInt(u) /\ u.s <= t.s) \/ (u.k = "any" /\ t.s = 8)
      [] t.k \in {"bytes", "bigint", "addr", "array"} ->
            IF t.s = 0 THEN IsByt(u) \/ u.k = "any"
            ELSE IsByt(u) /\ u.k # "box" /\ u.s = t.s
      [] t.k = "struct" -> IsByt(u) /\ u.k # "box" /\ u.s # 0 /\ u.s = t.s
      [] t.k = "box" -> u.k = "box" /\ u.n = t.n
      [] t.k = "any" -> Single(u)
      [] OTHER -> FALSE
\* may be used as an int (conditions, indexes, exit codes)
IntLike(t) == IsInt(t) \/ t.k = "any"
BytLike(t) == IsByt(t) \/ t.k = "any"

KindTy(c) == CASE c = "U" -> TInt [] c = "B" -> TBytes(0) [] OTHER -> TAny
FieldTy(f) == IF f = "Sender" THEN TBytes(32)
              ELSE IF f \in DOMAIN FieldKinds THEN KindTy(FieldKinds[f]) ELSE TAny
RECURSIVE RevSeq(_)
RevSeq(s) == IF s = <<>> THEN <<>> ELSE Append(RevSeq(Tail(s)), Head(s))
\* result type of an opcode: several results are in Tealish order (top of stack first)
OpTy(o) == LET r == Ops[o].r IN
           IF Len(r) = 1 THEN KindTy(r[1]) ELSE TList([i \in 1..Len(r) |-> KindTy(r[Len(r) + 1 - i])])

Builtins == [NoOp |-> 0, OptIn |-> 1, CloseOut |-> 2, ClearState |-> 3, UpdateApplication |-> 4,
             DeleteApplication |-> 5, Pay |-> 1, Acfg |-> 3, Axfer |-> 4, Afrz |-> 5, Appl |-> 6]

----------------------------------------------------------------------------
(* Scopes: functions from names to declarations, innermost scope last.      *)
EmptyScope == [v |-> <<>>, c |-> <<>>, f |-> <<>>, b |-> <<>>]
RECURSIVE Find(_, _, _, _)
Find(sc, i, what, nm) ==
    IF i = 0 THEN <<>>
    ELSE LET m == sc[i][what] IN
         IF nm \in DOMAIN m THEN <<m[nm]>> ELSE Find(sc, i - 1, what, nm)
Lookup(st, what, nm) == Find(st.sc, Len(st.sc), what, nm)      \* <<>> or <<declaration>>

No(st, ln, why) == IF st.ok THEN [st EXCEPT !.ok = FALSE, !.ln = ln, !.why = why] ELSE st
SetTy(st, e, t) == [st EXCEPT !.ty[e] = t]
SetRs(st, e, r) == [st EXCEPT !.rs[e] = r]
Bind(st, what, nm, d) == LET k == Len(st.sc) IN [st EXCEPT !.sc[k][what] = (nm :> d) @@ @]
Push(st) == [st EXCEPT !.sc = Append(@, EmptyScope)]
Pop(st) == [st EXCEPT !.sc = SubSeq(@, 1, Len(@) - 1)]

\* the type written in a declaration; <<>> if it does not exist
TypeOf(st, t) ==
    IF t.k = "unknown" THEN <<>>
    ELSE IF t.k \in {"struct", "box"}
    THEN IF t.n \in DOMAIN st.structs THEN <<[k |-> t.k, s |-> st.structs[t.n].size, n |-> t.n]>> ELSE <<>>
    ELSE <<[k |-> t.k, s |-> t.s, n |-> ""]>>

\* declare a variable in the current scope; visible names can't be redeclared
Declare(st, node, nm, t, ln) ==
    IF Lookup(st, "v", nm) # <<>> THEN No(st, ln, "redeclared variable")
    ELSE LET d == Len(st.dt) + 1 IN
         SetRs([Bind(st, "v", nm, d) EXCEPT !.dt = Append(@, t)], node, d)

----------------------------------------------------------------------------
(* Expressions.  ln is the line of the statement.                           *)

\* is the value known at compile time?  <<>> or <<value>>
Known(P, st, e) ==
    LET x == P.n[e] IN
    CASE x.k = "int" -> <<x.v>>
      [] x.k = "cst" -> <<st.rs[e]>>
      [] x.k = "enum" -> <<st.rs[e]>>
      [] x.k = "std" /\ x.nm = "SizeOf" -> <<st.rs[e]>>
      [] OTHER -> <<>>
KnownNat(P, st, e) == LET v == Known(P, st, e) IN
    IF v = <<>> THEN -1 ELSE IF v[1][1] # "i" \/ ~IsSmall(v[1][2]) THEN -1 ELSE Nat_(v[1][2])

KnownInt(P, st, e) == LET v == Known(P, st, e) IN IF v = <<>> THEN FALSE ELSE v[1][1] = "i"

\* a size argument (more than any value can have, if it is not small)
SizeArg(P, st, e) == LET k == KnownNat(P, st, e) IN IF k >= 0 THEN k ELSE 1000000000

\* size of an integer literal: bytes needed, at least 1
IntSize(w) == Max2(1, Len(Norm(w)))

RECURSIVE PE(_, _, _, _), PEs(_, _, _, _)
PEs(P, st, es, ln) == IF es = <<>> \/ ~st.ok THEN st ELSE PEs(P, PE(P, st, Head(es), ln), Tail(es), ln)

\* arguments of an opcode with the given kinds
ArgsOk(P, st, ks, as) == \A i \in 1..Len(ks) : CanHold(KindTy(ks[i]), st.ty[as[i]])
SameKind(t, u) == t.k = "any" \/ u.k = "any" \/ (IsInt(t) <=> IsInt(u))

\* all types of a list or of a single value
TypesOf(t) == IF t.k = "list" THEN t.l ELSE <<t>>

Field(P, st, x, op, ln) ==
    IF \E i \in 1..Len(Ops[op].f) : Ops[op].f[i] = x.f THEN st ELSE No(st, ln, "unknown field")
Index(P, st0, e, limit, ln) ==
    LET st == PE(P, st0, e, ln) IN
    IF ~st.ok THEN st
    ELSE IF ~IntLike(st.ty[e]) THEN No(st, ln, "index must be int")
    ELSE IF P.n[e].k = "int" /\ Cmp(P.n[e].v[2], W8(limit)) >= 0 THEN No(st, ln, "index too large")
    ELSE st

Std(P, st0, e, x, ln) ==
    LET nm == x.nm
        as == x.args
        st == PEs(P, st0, as, ln)
        t(i) == st.ty[as[i]]
        tys == [i \in 1..Len(x.tys) |-> TypeOf(st0, x.tys[i])]
        ts == [i \in 1..Len(tys) |-> tys[i][1]]
        cnt(n) == Len(as) = n
        res(b, ty) == IF b THEN SetTy(st, e, ty) ELSE No(st, ln, nm)
        \* the checks made by a size assertion
        into(k) == TypesOf(t(1))
    IN
    IF \E i \in 1..Len(tys) : tys[i] = <<>> THEN No(st, ln, "unknown type")
    ELSE IF ~st.ok THEN st
    ELSE CASE nm = "push" -> res(\A i \in 1..Len(as) : Single(t(i)), TNone)
      [] nm = "pop" -> res(cnt(0), TAny)
      [] nm = "Error" -> res(TRUE, TNone)
      [] nm = "bzero" -> res(cnt(1) /\ IntLike(t(1)),
                             LET k == IF cnt(1) THEN KnownNat(P, st, as[1]) ELSE -1
                             IN TBytes(IF k >= 0 THEN k ELSE 0))
      [] nm = "Cast" ->
            LET T == ts[1] IN
            res(cnt(1) /\ Len(ts) = 1 /\ Single(t(1)) /\
                  (\/ IsInt(T) /\ IsInt(t(1))
                   \/ IsByt(T) /\ IsByt(t(1))
                   \/ IsByt(T) /\ T.s > 0 /\ t(1).k = "any"), T)
      [] nm = "Convert" ->
            res(cnt(1) /\ Len(ts) = 1 /\
                  ((IsInt(ts[1]) /\ IsByt(t(1))) \/ (IsByt(ts[1]) /\ IsInt(t(1)))), ts[1])
      [] nm = "ToBytes" ->
            res(cnt(2) /\ KnownInt(P, st, as[2]) /\ (IsInt(t(1)) \/ t(1).k = "bigint"),
                TBytes(IF cnt(2) THEN SizeArg(P, st, as[2]) ELSE 0))
      [] nm = "FromBytes" -> res(cnt(1) /\ Len(ts) = 1 /\ IsByt(t(1)), IF IsInt(ts[1]) THEN TInt ELSE ts[1])
      [] nm = "EnsureType" ->
            res(cnt(1) /\ Len(ts) >= 1 /\ t(1).k # "none" /\ Len(ts) = Len(TypesOf(t(1)))
                /\ \A i \in 1..Len(ts) : LET u == TypesOf(t(1))[i] IN u.k = "any" \/ (IsByt(ts[i]) <=> IsByt(u)),
                IF Len(ts) = 1 THEN ts[1] ELSE TList(ts))
      [] nm = "UncheckedCast" ->
            res(cnt(1) /\ Len(ts) >= 1 /\ t(1).k # "none" /\ Len(ts) = Len(TypesOf(t(1))),
                IF Len(ts) = 1 THEN ts[1] ELSE TList(ts))
      [] nm = "SizeOf" -> IF cnt(0) /\ Len(ts) = 1
                          THEN SetRs(SetTy(st, e, TInt), e, NatV(ts[1].s)) ELSE No(st, ln, nm)
      [] nm \in {"Rpad", "Lpad"} ->
            res(cnt(2) /\ KnownInt(P, st, as[2]) /\ IsByt(t(1)),
                TBytes(IF cnt(2) THEN SizeArg(P, st, as[2]) ELSE 0))
      [] nm = "Concat" -> res(Len(as) >= 1 /\ \A i \in 1..Len(as) : BytLike(t(i)), TBytes(0))
      [] nm = "Address" -> res(cnt(0) /\ Len(x.v[2]) = 32, TBytes(0))
      [] nm = "ARC28Event" -> res(\A i \in 1..Len(as) : BytLike(t(i)), TBytes(0))
      [] OTHER -> No(st, ln, "unknown function")

\* the immediates of an opcode call: field names and small numbers
ImmValid(P, st, o, ims, i) ==
    LET m == ims[i] IN
    CASE m.t = "f" -> Ops[o].fi = i /\ \E k \in 1..Len(Ops[o].f) : Ops[o].f[k] = m.s
      [] m.t = "m" -> o = "method"
      [] OTHER -> LET v == KnownNat(P, st, m.e) IN o # "method" /\ Ops[o].fi # i /\ v >= 0 /\ v <= 255
Imms(P, st, ims) == [i \in 1..Len(ims) |-> IF ims[i].t = "e" THEN KnownNat(P, st, ims[i].e) ELSE ims[i].s]
ImmNodes(ims) == LET s == SelectSeq(ims, LAMBDA m : m.t = "e") IN [i \in 1..Len(s) |-> s[i].e]

\* a field of a struct variable or of a box: <<decl, offset, size, type, is it a box?>>
FieldOf(st, nm, f) ==
    LET d == Lookup(st, "v", nm) IN
    IF d = <<>> THEN <<>>
    ELSE LET t == st.dt[d[1]] IN
         IF t.k \notin {"struct", "box"} THEN <<>>
         ELSE LET s == st.structs[t.n] IN
              IF f \notin DOMAIN s.fields THEN <<>>
              ELSE <<d[1], s.fields[f].off, s.fields[f].t.s, s.fields[f].t, t.k = "box">>

PE(P, st, e, ln) ==
    IF ~st.ok THEN st ELSE
    LET x == P.n[e] IN
    CASE x.k = "int" -> SetTy(st, e, TUint(IntSize(x.v[2])))
      [] x.k = "byt" -> SetTy(st, e, TBytes(Len(x.v[2])))
      [] x.k = "cst" -> LET c == Lookup(st, "c", x.nm) IN
            IF c = <<>> THEN No(st, ln, "undeclared constant")
            ELSE SetRs(SetTy(st, e, c[1].t), e, c[1].v)
      [] x.k = "enum" -> IF x.nm \in DOMAIN Builtins
            THEN SetRs(SetTy(st, e, TInt), e, NatV(Builtins[x.nm])) ELSE No(st, ln, "unknown builtin")
      [] x.k = "id" -> LET d == Lookup(st, "v", x.nm) IN
            IF d = <<>> THEN No(st, ln, "undeclared variable")
            ELSE SetRs(SetTy(st, e, st.dt[d[1]]), e, d[1])
      [] x.k = "un" -> LET s == PE(P, st, x.a, ln) IN
            IF ~s.ok THEN s
            ELSE IF ~ArgsOk(P, s, Ops[x.op].a, <<x.a>>) THEN No(s, ln, "operand type")
            ELSE SetTy(s, e, OpTy(x.op))
      [] x.k = "bin" -> LET s == PE(P, PE(P, st, x.a, ln), x.b, ln) IN
            IF ~s.ok THEN s
            ELSE IF ~ArgsOk(P, s, Ops[x.op].a, <<x.a, x.b>>) THEN No(s, ln, "operand type")
            ELSE IF x.op \in {"==", "!="} /\ ~SameKind(s.ty[x.a], s.ty[x.b]) THEN No(s, ln, "compared kinds")
            ELSE SetTy(s, e, OpTy(x.op))
      [] x.k = "ucall" ->
            LET f == Lookup(st, "f", x.nm) IN
            IF f = <<>> THEN No(st, ln, "undeclared function")
            ELSE LET fn == P.n[f[1]]
                     s == PEs(P, st, x.args, ln)
                     rt == [i \in 1..Len(fn.rt) |-> TypeOf(st, fn.rt[i])[1]]
                 IN IF Len(x.args) # Len(fn.ps) THEN No(st, ln, "number of arguments")
                    ELSE IF ~s.ok THEN s
                    ELSE IF \E i \in 1..Len(fn.ps) : ~CanHold(TypeOf(st, fn.ps[i].ty)[1], s.ty[x.args[i]])
                         THEN No(s, ln, "argument type")
                    ELSE SetRs(SetTy(s, e, IF Len(rt) = 1 THEN rt[1]
                                           ELSE IF rt = <<>> THEN TNone ELSE TList(rt)), e, f[1])
      [] x.k = "op" ->
            IF x.nm \notin OpNames THEN No(st, ln, "unknown opcode")
            ELSE LET o == Ops[x.nm]
                     s == PEs(P, PEs(P, st, x.args, ln), ImmNodes(x.im), ln)
                 IN IF o.n < 0 \/ o.br THEN No(st, ln, "not callable")
                    ELSE IF Len(x.im) # o.n \/ Len(x.args) # Len(o.a) THEN No(st, ln, "number of arguments")
                    ELSE IF ~s.ok THEN s
                    ELSE IF ~ArgsOk(P, s, o.a, x.args) THEN No(s, ln, "argument type")
                    ELSE IF \E i \in 1..Len(x.im) : ~ImmValid(P, s, x.nm, x.im, i) THEN No(s, ln, "immediate")
                    ELSE SetRs(SetTy(s, e, IF o.r = <<>> THEN TNone ELSE OpTy(x.nm)), e, Imms(P, s, x.im))
      [] x.k = "std" -> Std(P, st, e, x, ln)
      [] x.k = "txn" -> SetTy(Field(P, st, x, "txn", ln), e, FieldTy(x.f))
      [] x.k = "itx" -> SetTy(Field(P, st, x, "itxn", ln), e, FieldTy(x.f))
      [] x.k = "glob" -> SetTy(Field(P, st, x, "global", ln), e, FieldTy(x.f))
      [] x.k = "txna" -> Index(P, SetTy(Field(P, st, x, "txna", ln), e, FieldTy(x.f)), x.ix, 256, ln)
      [] x.k = "itxa" -> Index(P, SetTy(Field(P, st, x, "itxna", ln), e, FieldTy(x.f)), x.ix, 256, ln)
      [] x.k = "gtxn" -> Index(P, SetTy(Field(P, st, x, "gtxn", ln), e, FieldTy(x.f)), x.gi, 16, ln)
      [] x.k = "gtxna" -> Index(P, Index(P, SetTy(Field(P, st, x, "gtxna", ln), e, FieldTy(x.f)),
                                         x.gi, 16, ln), x.ix, 256, ln)
      [] x.k = "grel" -> SetTy(st, e, TInt)          \* Gtxn[+n] and Gtxn[-n]
      [] x.k = "fld" -> LET f == FieldOf(st, x.nm, x.f) IN
            IF f = <<>> THEN No(st, ln, "unknown struct field")
            ELSE SetRs(SetTy(st, e, f[4]), e, f)
      [] OTHER -> No(st, ln, "unknown expression")

----------------------------------------------------------------------------
(* Statements                                                               *)

IsExit(x) == x.k \in {"exit", "switch", "jump", "router"}
IsDef(x) == x.k \in {"func", "block"}

\* definitions come after an exit statement and nothing else does
RECURSIVE OrderOk(_, _, _, _)
OrderOk(P, body, i, seen) ==
    IF i > Len(body) THEN TRUE
    ELSE LET x == P.n[body[i]] IN
         IF seen THEN IsDef(x) /\ OrderOk(P, body, i + 1, TRUE)
         ELSE ~IsDef(x) /\ OrderOk(P, body, i + 1, IsExit(x))

SigTypes(x) == [i \in 1..Len(x.ps) |-> x.ps[i].ty] \o x.rt

\* register the functions and blocks of a body in the current scope
RECURSIVE Register(_, _, _, _)
Register(P, st, body, i) ==
    IF i > Len(body) \/ ~st.ok THEN st
    ELSE LET x == P.n[body[i]]
             w == IF x.k = "func" THEN "f" ELSE "b"
         IN IF x.k \notin {"func", "block"} THEN Register(P, st, body, i + 1)
            ELSE IF x.nm \in DOMAIN st.sc[Len(st.sc)][w] THEN No(st, x.ln, "redefinition")
            ELSE IF x.k = "func" /\ \E j \in 1..Len(SigTypes(x)) : TypeOf(st, SigTypes(x)[j]) = <<>>
                 THEN No(st, x.ln, "unknown type")
            ELSE Register(P, Bind(st, w, x.nm, body[i]), body, i + 1)

BlockRef(st, node, nm, ln) ==
    LET b == Lookup(st, "b", nm) IN
    IF b = <<>> THEN No(st, ln, "undeclared block") ELSE SetRs(st, node, b[1])

Cond(P, st, e, ln) == LET s == PE(P, st, e, ln) IN
    IF s.ok /\ ~IntLike(s.ty[e]) THEN No(s, ln, "condition must be int") ELSE s

\* assignment of the values of an expression to names ("_" discards)
RECURSIVE AsgNames(_, _, _, _, _, _, _)
AsgNames(P, st, nms, ts, i, acc, ln) ==
    IF i > Len(nms) THEN [st |-> st, acc |-> acc]
    ELSE IF nms[i] = "_" THEN AsgNames(P, st, nms, ts, i + 1, Append(acc, 0), ln)
    ELSE LET d == Lookup(st, "v", nms[i]) IN
         IF d = <<>> THEN [st |-> No(st, ln, "undeclared variable"), acc |-> acc]
         ELSE IF ~CanHold(st.dt[d[1]], ts[i]) THEN [st |-> No(st, ln, "assigned type"), acc |-> acc]
         ELSE AsgNames(P, st, nms, ts, i + 1, Append(acc, d[1]), ln)

\* array fields of an inner transaction are set in order 0, 1, ...
FldIdxBad(P, fs) == {i \in 1..Len(fs) :
    /\ P.n[fs[i]].ix >= 0
    /\ P.n[fs[i]].ix # Len(SelectSeq(SubSeq(fs, 1, i - 1),
                            LAMBDA j : P.n[j].f = P.n[fs[i]].f /\ P.n[j].ix >= 0))}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j

RECURSIVE Params(_, _, _, _, _, _)
Params(P, st, node, x, i, acc) ==
    IF i = 0 \/ ~st.ok THEN SetRs(st, node, acc)
    ELSE LET s == Declare(st, node, x.ps[i].nm, TypeOf(st, x.ps[i].ty)[1], x.ln)
         IN Params(P, s, node, x, i - 1, <<IF s.ok THEN s.rs[node] ELSE 0>> \o acc)

RECURSIVE PS(_, _, _, _), PB(_, _, _, _), POpts(_, _, _, _, _), PFlds(_, _, _, _, _),
          PElifs(_, _, _, _), PRoutes(_, _, _, _)

\* cx: context [fn: enclosing function node or 0, lp: inside a while?, top: kind of the body]
PB(P, st, body, cx) == IF body = <<>> \/ ~st.ok THEN st ELSE PB(P, PS(P, st, Head(body), cx), Tail(body), cx)

POpts(P, st, opts, t, cx) ==
    IF opts = <<>> \/ ~st.ok THEN st
    ELSE LET o == P.n[Head(opts)]
             s == PE(P, st, o.e, o.ln)
             s2 == IF s.ok /\ (~Single(s.ty[o.e]) \/ ~SameKind(t, s.ty[o.e])) THEN No(s, o.ln, "option type") ELSE s
         IN POpts(P, BlockRef(s2, Head(opts), o.nm, o.ln), Tail(opts), t, cx)
PFlds(P, st, fs, cx, z) ==
    IF fs = <<>> \/ ~st.ok THEN st
    ELSE LET x == P.n[Head(fs)]
             s == PE(P, st, x.e, x.ln)
         IN IF ~s.ok THEN s
            ELSE IF ~\E i \in 1..Len(Ops["itxn_field"].f) : Ops["itxn_field"].f[i] = x.f
                 THEN No(s, x.ln, "unknown field")
            ELSE IF ~Single(s.ty[x.e]) THEN No(s, x.ln, "field value")
            ELSE PFlds(P, s, Tail(fs), cx, z)
PElifs(P, st, es, cx) ==
    IF es = <<>> \/ ~st.ok THEN st
    ELSE LET x == P.n[Head(es)]
         IN PElifs(P, PB(P, Cond(P, st, x.e, x.ln), x.body, cx), Tail(es), cx)
PRoutes(P, st, rs, acc) ==
    IF rs = <<>> \/ ~st.ok THEN [st |-> st, acc |-> acc]
    ELSE LET r == Head(rs)
             f == Lookup(st, "f", r.nm)
         IN IF f = <<>> THEN [st |-> No(st, r.ln, "undeclared function"), acc |-> acc]
            ELSE IF ~P.n[f[1]].pub THEN [st |-> No(st, r.ln, "not public"), acc |-> acc]
            ELSE PRoutes(P, st, Tail(rs), Append(acc, f[1]))

StructDef(P, st, x) ==
    LET RECURSIVE go(_, _, _)
        go(s, i, acc) ==
            IF ~s.ok THEN s
            ELSE IF i > Len(x.fs) THEN [s EXCEPT !.structs = (x.nm :> acc) @@ @]
            ELSE LET f == x.fs[i]
                     t == TypeOf(s, f.ty)
                 IN IF t = <<>> THEN No(s, f.ln, "unknown type")
                    ELSE IF t[1].s = 0 THEN No(s, f.ln, "field without a size")
                    ELSE IF f.nm \in DOMAIN acc.fields THEN No(s, f.ln, "redefined field")
                    ELSE go(s, i + 1, [size |-> acc.size + t[1].s,
                                       fields |-> (f.nm :> [off |-> acc.size, t |-> t[1]]) @@ acc.fields])
    IN IF x.nm \in DOMAIN st.structs THEN No(st, x.ln, "redefined struct")
       ELSE go(st, 1, [size |-> 0, fields |-> <<>>])

PS(P, st, id, cx) ==
    IF ~st.ok THEN st ELSE
    LET x == P.n[id]  ln == x.ln IN
    CASE x.k = "var" ->
            LET t == TypeOf(st, x.ty) IN
            IF t = <<>> THEN No(st, ln, "unknown type")
            ELSE LET s == Declare(st, id, x.nm, t[1], ln) IN
                 IF x.e = 0 THEN s
                 ELSE LET s2 == PE(P, s, x.e, ln) IN
                      IF s2.ok /\ ~CanHold(t[1], s2.ty[x.e]) THEN No(s2, ln, "assigned type") ELSE s2
      [] x.k = "asg" ->
            LET s == PE(P, st, x.e, ln) IN
            IF ~s.ok THEN s
            ELSE LET t == s.ty[x.e]
                     ts == TypesOf(t)
                 IN IF t.k = "none" \/ Len(ts) # Len(x.nms) THEN No(s, ln, "number of values")
                    ELSE LET r == AsgNames(P, s, x.nms, ts, 1, <<>>, ln) IN SetRs(r.st, id, r.acc)
      [] x.k = "box" ->
            LET t == TypeOf(st, [k |-> "box", s |-> 0, n |-> x.sn]) IN
            IF t = <<>> THEN No(st, ln, "unknown struct")
            ELSE LET s == PE(P, Declare(st, id, x.nm, t[1], ln), x.e, ln) IN
                 IF s.ok /\ ~BytLike(s.ty[x.e]) THEN No(s, ln, "box key") ELSE s
      [] x.k = "fasg" ->
            LET f == FieldOf(st, x.nm, x.f) IN
            IF f = <<>> THEN No(st, ln, "unknown struct field")
            ELSE LET s == PE(P, st, x.e, ln) IN
                 IF s.ok /\ ~CanHold(f[4], s.ty[x.e]) THEN No(s, ln, "field type") ELSE SetRs(s, id, f)
      [] x.k \in {"exit", "assert"} -> Cond(P, st, x.e, ln)
      [] x.k = "call" -> LET s == PE(P, st, x.e, ln) IN
            IF s.ok /\ s.ty[x.e].k # "none" THEN No(s, ln, "unconsumed values") ELSE s
      [] x.k = "if" ->
            LET s == PElifs(P, PB(P, Cond(P, st, x.e, ln), x.body, cx), x.elifs, cx)
            IN PB(P, s, x.els, cx)
      [] x.k = "while" -> Pop(PB(P, Push(Cond(P, st, x.e, ln)), x.body, [cx EXCEPT !.lp = TRUE]))
      [] x.k = "for" ->
            LET s1 == Declare(Push(st), id, x.nm, TInt, ln)
                s2 == PE(P, PE(P, s1, x.a, ln), x.b, ln)
                s3 == PB(P, s2, x.body, cx)
            IN IF s3.ok /\ ~(IntLike(s3.ty[x.a]) /\ IntLike(s3.ty[x.b])) THEN No(s3, ln, "bounds must be int")
               ELSE Pop(s3)
      [] x.k = "for_" ->
            LET s2 == PE(P, PE(P, Push(st), x.a, ln), x.b, ln)
                s3 == PB(P, s2, x.body, cx)
            IN IF s3.ok /\ ~(IntLike(s3.ty[x.a]) /\ IntLike(s3.ty[x.b])) THEN No(s3, ln, "bounds must be int")
               ELSE Pop(s3)
      [] x.k = "switch" ->
            LET s == PE(P, st, x.e, ln) IN
            IF s.ok /\ ~Single(s.ty[x.e]) THEN No(s, ln, "switch type")
            ELSE LET s2 == IF s.ok THEN POpts(P, s, x.opts, s.ty[x.e], cx) ELSE s
                 IN IF x.els = "" THEN s2 ELSE BlockRef(s2, id, x.els, ln)
      [] x.k = "router" -> LET r == PRoutes(P, st, x.rts, <<>>) IN SetRs(r.st, id, r.acc)
      [] x.k = "jump" -> BlockRef(st, id, x.nm, ln)
      [] x.k = "ret" ->
            IF cx.fn = 0 THEN No(st, ln, "return outside of a function")
            ELSE LET f == P.n[cx.fn]
                     s == PEs(P, st, RevSeq(x.es), ln)
                 IN IF Len(f.rt) # Len(x.es) THEN No(st, ln, "number of returns")
                    ELSE IF s.ok /\ \E i \in 1..Len(x.es) : ~CanHold(TypeOf(st, f.rt[i])[1], s.ty[x.es[i]])
                         THEN No(s, ln, "return type") ELSE s
      [] x.k = "break" -> IF cx.lp THEN st ELSE No(st, ln, "break outside of a while")
      [] x.k = "teal" -> st
      [] x.k = "itxn" -> LET s == PFlds(P, st, x.fs, cx, 0) IN
            LET bad == FldIdxBad(P, x.fs) IN
            IF s.ok /\ bad # {} THEN No(s, P.n[x.fs[Least(bad)]].ln, "array index") ELSE s
      [] x.k = "group" -> PB(P, st, x.body, cx)
      [] x.k = "const" ->
            LET t == Ty(x.ct, IF x.ct = "int" THEN 8 ELSE 0)
                lt == IF x.v[1] = "i" THEN TUint(8) ELSE TBytes(Len(x.v[2]))
            IN IF ~CanHold(t, lt) THEN No(st, ln, "constant type")
               ELSE Bind(st, "c", x.nm, [t |-> lt, v |-> x.v])
      [] x.k = "struct" -> StructDef(P, st, x)
      [] x.k = "func" ->
            IF x.body = <<>> THEN No(st, ln, "no return")
            ELSE IF P.n[x.body[Len(x.body)]].k # "ret" THEN No(st, ln, "no return")
            ELSE Pop(PB(P, Params(P, Push(st), id, x, Len(x.ps), <<>>), x.body, [fn |-> id, lp |-> FALSE]))
      [] x.k = "block" ->
            IF ~OrderOk(P, x.body, 1, FALSE) \/ ~\E i \in 1..Len(x.body) : IsExit(P.n[x.body[i]])
            THEN No(st, ln, "block structure")
            ELSE Pop(PB(P, Register(P, Push(st), x.body, 1), x.body, [fn |-> 0, lp |-> FALSE]))
      [] OTHER -> No(st, ln, "unknown statement")

\* structs come first
StructsFirst(P) == \A i \in 2..Len(P.root) :
    P.n[P.root[i]].k = "struct" => P.n[P.root[i - 1]].k = "struct"

Static(P) ==
    LET N == Len(P.n)
        init == [ok |-> TRUE, ln |-> 0, why |-> "", sc |-> <<EmptyScope>>, dt |-> <<>>,
                 ty |-> TLCEval([i \in 1..N |-> TNone]), rs |-> TLCEval([i \in 1..N |-> 0]), structs |-> <<>>]
    IN IF ~OrderOk(P, P.root, 1, FALSE) \/ ~StructsFirst(P) THEN No(init, 0, "program structure")
       ELSE LET ks == {i \in 1..Len(P.root) : P.n[P.root[i]].k = "struct"}     \* a prefix
                k == Cardinality(ks)
                cx == [fn |-> 0, lp |-> FALSE]
                s == PB(P, init, SubSeq(P.root, 1, k), cx)
            IN IF ~s.ok THEN s
               ELSE PB(P, Register(P, s, P.root, 1), SubSeq(P.root, k + 1, Len(P.root)), cx)
=============================================================================
