-------------------------------- MODULE Avm --------------------------------
(* The AVM as a state machine: assembling TEAL (labels, macros, immediates) *)
(* and executing it (program counter, value stack, call stack, scratch      *)
(* slots, inner transaction under construction).                            *)
(*                                                                          *)
(* TEAL statements come tokenised: [l: line, t: tokens]; a token is         *)
(*   [s: its text, w: its value as an 8-byte word or <<>>,                  *)
(*    n: that value if it is below 2^31 or -1, b: <<1, bytes>> or <<0>>,    *)
(*    q: is it a string literal?]                                           *)
EXTENDS AvmOps

FieldKinds == TLCEval(JsonDeserialize(TableFile("FIELDS", "avm_fields.json")))

----------------------------------------------------------------------------
(* Assembly *)

IsLabelTok(t) == ~t.q /\ t.lb                     \* NAME: at the start of a statement
RECURSIVE Expand(_, _, _)
\* replace macro names by their tokens (macros may use earlier macros)
Expand(ts, mac, i) ==
    IF i > Len(ts) THEN <<>>
    ELSE (IF ~ts[i].q /\ ts[i].s \in DOMAIN mac THEN mac[ts[i].s] ELSE <<ts[i]>>)
         \o Expand(ts, mac, i + 1)

Bad(l, why) == [op |-> "bad", why |-> why, l |-> l]
Instr(op, im, l) == [op |-> op, im |-> im, l |-> l]
\* small immediates: 0..255 as naturals, fields as names
ImmOk(o, i, t) == IF Ops[o].fi = i THEN \E k \in 1..Len(Ops[o].f) : Ops[o].f[k] = t.s
                  ELSE t.n >= 0 /\ t.n <= 255
ImmVal(o, i, t) == IF Ops[o].fi = i THEN t.s ELSE t.n
\* signed immediates: -128..127
Signed == [i \in 1..128 |-> "-" \o ToString(i)]
SignedOk(t) == ~t.q /\ (t.n \in 0..127 \/ \E i \in 1..128 : t.s = Signed[i])
SignedVal(t) == IF t.n >= 0 THEN t.n ELSE -(CHOOSE i \in 1..128 : t.s = Signed[i])

Fixed(o, as, l) ==
    IF Len(as) # Ops[o].n THEN Bad(l, "immediates")
    ELSE IF \E i \in 1..Len(as) : ~ImmOk(o, i, as[i]) THEN Bad(l, "immediate")
    ELSE Instr(o, [i \in 1..Len(as) |-> ImmVal(o, i, as[i])], l)

\* one statement after macro expansion
AsmOne(ts, l) ==
    LET o == ts[1].s
        as == Tail(ts)
        n == Len(as)
        int1 == IF n # 1 \/ as[1].w = <<>> THEN Bad(l, "int")
                ELSE [op |-> "push", im |-> <<IntV(as[1].w)>>, l |-> l]
        byt1 == IF n # 1 \/ as[1].b[1] = 0 THEN Bad(l, "bytes")
                ELSE [op |-> "push", im |-> <<BytV(Tail(as[1].b))>>, l |-> l]
    IN
    IF ts[1].q THEN Bad(l, "opcode")
    ELSE CASE o \in {"pushint", "int"} -> int1
      [] o \in {"pushbytes", "byte", "addr"} -> byt1
      [] o = "method" -> IF n # 1 \/ ~as[1].q THEN Bad(l, "method") ELSE Instr("method", <<as[1].s>>, l)
      [] o \in {"b", "bz", "bnz", "callsub"} ->
            IF n # 1 THEN Bad(l, "target") ELSE [op |-> o, im |-> <<>>, l |-> l, tg |-> <<as[1].s>>]
      [] o \in {"switch", "match"} ->
            [op |-> o, im |-> <<>>, l |-> l, tg |-> [i \in 1..n |-> as[i].s]]
      [] o = "extract" /\ n = 0 -> Instr("extract3", <<>>, l)
      [] o = "replace" -> IF n = 0 THEN Instr("replace3", <<>>, l) ELSE Fixed("replace2", as, l)
      [] o = "txn" /\ n = 2 -> Fixed("txna", as, l)
      [] o = "itxn" /\ n = 2 -> Fixed("itxna", as, l)
      [] o = "gtxn" /\ n = 3 -> Fixed("gtxna", as, l)
      [] o = "gtxns" /\ n = 2 -> Fixed("gtxnsa", as, l)
      [] o = "gitxn" /\ n = 3 -> Fixed("gitxna", as, l)
      [] o \in {"frame_dig", "frame_bury"} ->
            IF n # 1 THEN Bad(l, "immediates") ELSE IF ~SignedOk(as[1]) THEN Bad(l, "immediate")
            ELSE Instr(o, <<SignedVal(as[1])>>, l)
      [] o \in OpNames /\ Ops[o].n >= 0 -> Fixed(o, as, l)
      [] OTHER -> Bad(l, "opcode")

\* Labels are recorded with the pc of the next instruction
RECURSIVE AsmAll(_, _, _, _, _, _)
AsmAll(T, i, mac, code, labs, err) ==
    IF i > Len(T) THEN [code |-> code, labs |-> labs, err |-> err]
    ELSE LET ts0 == T[i].t  l == T[i].l IN
    IF ts0[1].s = "#pragma" THEN AsmAll(T, i + 1, mac, code, labs, err)
    ELSE IF ts0[1].s = "#define"
    THEN IF Len(ts0) < 3 \/ ts0[2].q THEN AsmAll(T, i + 1, mac, code, labs, err \o <<Bad(l, "define")>>)
         ELSE LET nm == ts0[2].s
                  bad == nm \in OpNames \/ nm \in DOMAIN FieldKinds \/ nm \in DOMAIN labs
              IN AsmAll(T, i + 1, (nm :> Expand(SubSeq(ts0, 3, Len(ts0)), mac, 1)) @@ mac, code, labs,
                        IF bad THEN err \o <<Bad(l, "macro name")>> ELSE err)
    ELSE IF IsLabelTok(ts0[1])
    THEN LET nm == ts0[1].s
             e1 == IF nm \in DOMAIN labs THEN err \o <<Bad(l, "duplicate label")>>
                   ELSE IF nm \in DOMAIN mac THEN err \o <<Bad(l, "label is macro")>> ELSE err
             lb == nm :> (Len(code) + 1)
         IN IF Len(ts0) = 1 THEN AsmAll(T, i + 1, mac, code, labs @@ lb, e1)
            ELSE AsmAll([T EXCEPT ![i].t = Tail(ts0)], i, mac, code, labs @@ lb, e1)
    ELSE LET ins == AsmOne(Expand(ts0, mac, 1), l)
         IN IF ins.op = "bad" THEN AsmAll(T, i + 1, mac, code, labs, err \o <<ins>>)
            ELSE AsmAll(T, i + 1, mac, Append(code, ins), labs, err)

Resolve(ins, labs) ==
    IF "tg" \notin DOMAIN ins THEN ins
    ELSE IF \E k \in 1..Len(ins.tg) : ins.tg[k] \notin DOMAIN labs THEN Bad(ins.l, "undefined label")
    ELSE [ins EXCEPT !.tg = [k \in 1..Len(ins.tg) |-> labs[ins.tg[k]]]]

RECURSIVE MaxSlot(_, _, _)
MaxSlot(code, i, m) ==
    IF i > Len(code) THEN m
    ELSE MaxSlot(code, i + 1, CASE code[i].op \in {"load", "store"} -> Max2(m, code[i].im[1])
                                [] code[i].op \in {"loads", "stores"} -> 255
                                [] OTHER -> m)

\* [code, slots, err]: err is the sequence of assembly errors
Assemble(T) ==
    LET a == AsmAll(T, 1, <<>>, <<>>, <<>>, <<>>)
        c == [i \in 1..Len(a.code) |-> Resolve(a.code[i], a.labs)]
        bad == SelectSeq(c, LAMBDA x : x.op = "bad")
        err == a.err \o bad
    IN [code |-> IF err = <<>> THEN c ELSE <<>>, err |-> err,
        slots |-> IF err = <<>> THEN MaxSlot(c, 1, 0) + 1 ELSE 1]

----------------------------------------------------------------------------
(* Requests to the environment: reads of constants and observable effects.  *)
(* A request is <<name, field, words, args>>.                               *)

Request(op, im, av) ==
    LET w(n) == W8(n)  p(i) == av[i][2] IN
    CASE op = "txn" -> <<"txn", im[1], <<>>, <<>>>>
      [] op = "txna" -> <<"txn", im[1], <<w(im[2])>>, <<>>>>
      [] op = "txnas" -> <<"txn", im[1], <<p(1)>>, <<>>>>
      [] op = "gtxn" -> <<"gtxn", im[2], <<w(im[1])>>, <<>>>>
      [] op = "gtxns" -> <<"gtxn", im[1], <<p(1)>>, <<>>>>
      [] op = "gtxna" -> <<"gtxn", im[2], <<w(im[1]), w(im[3])>>, <<>>>>
      [] op = "gtxnas" -> <<"gtxn", im[2], <<w(im[1]), p(1)>>, <<>>>>
      [] op = "gtxnsa" -> <<"gtxn", im[1], <<p(1), w(im[2])>>, <<>>>>
      [] op = "gtxnsas" -> <<"gtxn", im[1], <<p(1), p(2)>>, <<>>>>
      [] op = "itxn" -> <<"itxn", im[1], <<>>, <<>>>>
      [] op = "itxna" -> <<"itxn", im[1], <<w(im[2])>>, <<>>>>
      [] op = "itxnas" -> <<"itxn", im[1], <<p(1)>>, <<>>>>
      [] op = "gitxn" -> <<"gitxn", im[2], <<w(im[1])>>, <<>>>>
      [] op = "gitxna" -> <<"gitxn", im[2], <<w(im[1]), w(im[3])>>, <<>>>>
      [] op = "gitxnas" -> <<"gitxn", im[2], <<w(im[1]), p(1)>>, <<>>>>
      [] op = "arg" -> <<"arg", "", <<w(im[1])>>, <<>>>>
      [] op \in ArgOps -> <<"arg", "", <<w(CHOOSE i \in 0..3 : op = "arg_" \o ToString(i))>>, <<>>>>
      [] op = "args" -> <<"arg", "", <<p(1)>>, <<>>>>
      [] op = "gaid" -> <<"gaid", "", <<w(im[1])>>, <<>>>>
      [] op = "gaids" -> <<"gaid", "", <<p(1)>>, <<>>>>
      [] op = "gload" -> <<"gload", "", <<w(im[1]), w(im[2])>>, <<>>>>
      [] op = "gloads" -> <<"gload", "", <<p(1), w(im[1])>>, <<>>>>
      [] op = "gloadss" -> <<"gload", "", <<p(1), p(2)>>, <<>>>>
      [] OTHER -> <<op, IF Len(im) > 0 THEN im[1] ELSE "", <<>>, av>>

\* kinds of the results of a request: letters as in Ops, "S" for 32 bytes
Kinds(op, im) ==
    LET o == Ops[op]
        f == IF o.fi > 0 THEN im[o.fi] ELSE ""
        k == IF f \in DOMAIN FieldKinds THEN FieldKinds[f] ELSE "."
        k2 == IF f = "Sender" THEN "S" ELSE k
    IN CASE op \in HashOps -> <<"S">>
         [] Len(o.r) = 1 /\ o.fi > 0 /\ o.r[1] = "." -> <<k2>>
         [] o.r = <<".", "U">> /\ o.fi > 0 -> <<k2, "1">>
         [] o.r = <<".", "U">> -> <<".", "1">>
         [] op \in {"box_len"} -> <<"U", "1">>
         [] op \in {"box_get"} -> <<"B", "1">>
         [] op \in {"box_create", "box_del", "app_opted_in", "ed25519verify",
                    "ed25519verify_bare", "ecdsa_verify"} -> <<"1">>
         [] op = "box_extract" -> <<"E">>
         [] OTHER -> o.r

\* inner transaction under construction: n = number of its transactions
ItxnFault(op, n) ==
    \/ op = "itxn_begin" /\ n > 0
    \/ op \in {"itxn_field", "itxn_next", "itxn_submit"} /\ n = 0
    \/ op = "itxn_next" /\ n >= 16
ItxnNext(op, n) == CASE op = "itxn_begin" -> 1 [] op = "itxn_next" -> n + 1
                     [] op = "itxn_submit" -> 0 [] OTHER -> n

----------------------------------------------------------------------------
(* Execution.  status: "run", "read"/"ev" (waiting for the results of req), *)
(* "exit" (val), "fail" (why: "logic", "type" or "stack"), "stuck".         *)
(* cs: the frames of the calls: ret, the pc to return to; at, the pc        *)
(* called; h, the height of the stack at the call; once proto has been      *)
(* executed, ar = <<arguments, results>>.                                   *)

AvmInit(a) ==
    [pc |-> 1, st |-> <<>>, cs |-> <<>>, sc |-> [i \in 1..a.slots |-> NatV(0)], itx |-> 0,
     status |-> "run", req |-> <<>>, kinds |-> <<>>, val |-> <<>>, why |-> ""]

FailA(m, why) == [m EXCEPT !.status = "fail", !.why = why]
Drop(s, n) == SubSeq(s, 1, Len(s) - n)
Top(s) == s[Len(s)]

RECURSIVE MatchAt(_, _, _)
MatchAt(vs, x, i) == IF i > Len(vs) THEN 0 ELSE IF vs[i] = x THEN i ELSE MatchAt(vs, x, i + 1)

AvmStep(a, m) ==
    IF m.pc > Len(a.code)
    THEN IF Len(m.st) = 1 /\ m.st[1][1] = "i"
         THEN [m EXCEPT !.status = "exit", !.val = m.st[1], !.st = <<>>]
         ELSE FailA(m, IF Len(m.st) # 1 THEN "end" ELSE "type")
    ELSE
    LET c == a.code[m.pc]
        op == c.op
        n == Len(m.st)
        im == c.im
        go(st) == [m EXCEPT !.st = st, !.pc = @ + 1]
        need(k, s) == IF n < k THEN FailA(m, "stack") ELSE s
        int(s) == IF n < 1 THEN FailA(m, "stack") ELSE IF Top(m.st)[1] # "i" THEN FailA(m, "type") ELSE s
    IN
    CASE op = "push" -> go(Append(m.st, im[1]))
      [] op = "load" -> go(Append(m.st, m.sc[im[1] + 1]))
      [] op = "store" -> need(1, [m EXCEPT !.sc[im[1] + 1] = Top(m.st), !.st = Drop(@, 1), !.pc = @ + 1])
      [] op = "b" -> [m EXCEPT !.pc = c.tg[1]]
      [] op = "bz" -> int([m EXCEPT !.st = Drop(@, 1), !.pc = IF Truthy(Top(m.st)) THEN @ + 1 ELSE c.tg[1]])
      [] op = "bnz" -> int([m EXCEPT !.st = Drop(@, 1), !.pc = IF Truthy(Top(m.st)) THEN c.tg[1] ELSE @ + 1])
      [] op = "callsub" -> [m EXCEPT !.cs = Append(@, [ret |-> m.pc + 1, at |-> c.tg[1], h |-> n, ar |-> <<>>]), !.pc = c.tg[1]]
      [] op = "retsub" ->
            IF m.cs = <<>> THEN FailA(m, "logic")
            ELSE LET f == Top(m.cs)
                     back(st) == [m EXCEPT !.cs = Drop(@, 1), !.pc = f.ret, !.st = st]
                 IN IF f.ar = <<>> THEN back(m.st)
                    ELSE need(f.h + f.ar[2], back(SubSeq(m.st, 1, f.h - f.ar[1]) \o SubSeq(m.st, n - f.ar[2] + 1, n)))
      [] op = "proto" ->
            IF m.cs = <<>> \/ Top(m.cs).at # m.pc \/ Top(m.cs).ar # <<>> THEN FailA(m, "logic")
            ELSE need(im[1], [m EXCEPT !.cs[Len(m.cs)].ar = im, !.pc = @ + 1])
      [] op \in {"frame_dig", "frame_bury"} ->
            IF m.cs = <<>> THEN FailA(m, "logic")
            ELSE LET f == Top(m.cs)
                     k == f.h + im[1] + 1
                     below == k < 1 \/ (f.ar # <<>> /\ im[1] < -f.ar[1])
                 IN IF op = "frame_dig"
                    THEN IF below \/ k > n THEN FailA(m, "stack") ELSE go(Append(m.st, m.st[k]))
                    ELSE IF below \/ k > n - 1 THEN FailA(m, "stack") ELSE go(Drop([m.st EXCEPT ![k] = Top(m.st)], 1))
      [] op = "loads" ->
            int(LET i == Off(Top(m.st)[2]) IN
                IF i > 255 THEN FailA(m, "logic") ELSE go(Append(Drop(m.st, 1), m.sc[i + 1])))
      [] op = "stores" ->
            need(2, IF m.st[n - 1][1] # "i" THEN FailA(m, "type")
                    ELSE LET i == Off(m.st[n - 1][2]) IN
                         IF i > 255 THEN FailA(m, "logic")
                         ELSE [m EXCEPT !.sc[i + 1] = m.st[n], !.st = Drop(@, 2), !.pc = @ + 1])
      [] op = "switch" -> int(LET k == Off(Top(m.st)[2]) IN
                              [m EXCEPT !.st = Drop(@, 1), !.pc = IF k < Len(c.tg) THEN c.tg[k + 1] ELSE @ + 1])
      [] op = "match" ->
            need(Len(c.tg) + 1,
                 LET k == Len(c.tg)
                     hit == MatchAt(SubSeq(m.st, n - k, n - 1), Top(m.st), 1)
                 IN [m EXCEPT !.st = Drop(@, k + 1), !.pc = IF hit > 0 THEN c.tg[hit] ELSE @ + 1])
      [] op = "return" -> int([m EXCEPT !.status = "exit", !.val = Top(m.st), !.st = Drop(@, 1)])
      [] op = "dig" -> need(im[1] + 1, go(Append(m.st, m.st[n - im[1]])))
      [] op = "bury" -> IF im[1] = 0 THEN FailA(m, "logic")
                        ELSE need(im[1] + 1, go(Drop([m.st EXCEPT ![n - im[1]] = Top(m.st)], 1)))
      [] op = "cover" -> need(im[1] + 1, go(SubSeq(m.st, 1, n - 1 - im[1]) \o <<Top(m.st)>>
                                            \o SubSeq(m.st, n - im[1], n - 1)))
      [] op = "uncover" -> need(im[1] + 1, go(SubSeq(m.st, 1, n - 1 - im[1])
                                              \o SubSeq(m.st, n - im[1] + 1, n) \o <<m.st[n - im[1]]>>))
      [] op = "popn" -> need(im[1], go(Drop(m.st, im[1])))
      [] op = "dupn" -> need(1, go(m.st \o [i \in 1..im[1] |-> Top(m.st)]))
      [] op \in {"intc", "intc_0", "intc_1", "intc_2", "intc_3", "bytec", "bytec_0", "bytec_1", "bytec_2", "bytec_3"} -> FailA(m, "logic")       \* no block of constants can be assembled
      [] OTHER ->
            LET k == Len(Ops[op].a) IN
            IF n < k THEN FailA(m, "stack")
            ELSE LET av == SubSeq(m.st, n - k + 1, n)
                     e == Ev(op, im, av)
                     rest == Drop(m.st, k)
                 IN CASE e.r = "ok" -> [m EXCEPT !.st = rest \o e.v, !.pc = @ + 1]
                      [] e.r = "type" -> FailA(m, "type")
                      [] e.r = "logic" -> FailA(m, "logic")
                      [] e.r = "read" -> [m EXCEPT !.st = rest, !.pc = @ + 1, !.status = "read",
                                                   !.req = Request(op, im, av), !.kinds = Kinds(op, im)]
                      [] e.r = "ev" ->
                            IF ItxnFault(op, m.itx) THEN FailA(m, "logic")
                            ELSE [m EXCEPT !.st = rest, !.pc = @ + 1, !.status = "ev",
                                           !.itx = ItxnNext(op, @),
                                           !.req = Request(op, im, av), !.kinds = Kinds(op, im)]
                      [] OTHER -> [m EXCEPT !.status = "stuck", !.why = op]

\* run until an observation, at most fuel steps; the steps left are in .f
RECURSIVE AvmRun(_, _, _)
AvmRun(a, m, fuel) ==
    IF fuel = 0 \/ m.status # "run" THEN [m |-> m, f |-> fuel]
    ELSE AvmRun(a, AvmStep(a, m), fuel - 1)

\* the results of a request arrive
AvmGive(m, vs) == [m EXCEPT !.st = @ \o vs, !.status = "run", !.req = <<>>, !.kinds = <<>>]
\* the line of TEAL that made the observation
AvmLine(a, m) ==
    LET p == IF m.status \in {"read", "ev"} THEN m.pc - 1 ELSE m.pc
    IN IF p >= 1 /\ p <= Len(a.code) THEN a.code[p].l ELSE 0
=============================================================================
