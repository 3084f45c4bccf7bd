------------------------------- MODULE AvmOps -------------------------------
(* The operations of the AVM on values: what an opcode computes.            *)
(* A value is <<"i", w>> with an 8-byte word w, or <<"b", s>> with bytes s. *)
(*                                                                          *)
(* Ops is the reference table of opcodes, frozen in avm_ops.json (argument  *)
(* kinds, result kinds, number of immediates).  Ev(op, imm, args) gives     *)
(*   [r |-> "ok", v |-> results]   a pure, fully interpreted operation      *)
(*   [r |-> "type"]                an operand has the wrong kind            *)
(*   [r |-> "logic"]               the operation fails (overflow, range...) *)
(*   [r |-> "read"]                a constant of the environment            *)
(*   [r |-> "ev"]                  an effect or a read of mutable state     *)
EXTENDS Words, Json, IOUtils

\* a check may give other tables (a project with its own langspec.json)
TableFile(v, f) == IF v \in DOMAIN IOEnv THEN IOEnv[v] ELSE f
Ops == TLCEval(JsonDeserialize(TableFile("OPS", "avm_ops.json")))
OpNames == TLCEval(DOMAIN Ops)

IntV(w) == <<"i", w>>
NatV(n) == <<"i", W8(n)>>
BytV(s) == <<"b", s>>
BoolV(b) == <<"i", IF b THEN <<0,0,0,0,0,0,0,1>> ELSE <<0,0,0,0,0,0,0,0>> >>
Truthy(v) == \E i \in 1..8 : v[2][i] # 0
MaxBytes == 4096

OK(vs) == [r |-> "ok", v |-> vs]
Logic == [r |-> "logic"]
TypeErr == [r |-> "type"]

KindOk(k, v) == k = "." \/ (k = "U" /\ v[1] = "i") \/ (k = "B" /\ v[1] = "b")

\* a normalised number as a word, failing if it does not fit
Word(n) == IF Len(n) > 8 THEN Logic ELSE OK(<<IntV(PadL(n, 8))>>)
Bytes_(s) == IF Len(s) > MaxBytes THEN Logic ELSE OK(<<BytV(s)>>)
Bool(b) == OK(<<BoolV(b)>>)

\* s[o .. o+l-1] with 0-based offset; o, l are natural numbers
Slice(s, o, l) == IF o + l > Len(s) THEN Logic ELSE OK(<<BytV(SubSeq(s, o + 1, o + l))>>)
Splice(s, o, t) == IF o + Len(t) > Len(s) THEN Logic
                   ELSE OK(<<BytV(SubSeq(s, 1, o) \o t \o SubSeq(s, o + Len(t) + 1, Len(s)))>>)
\* a word used as an offset: its value if it is small, otherwise beyond any byte string
Off(w) == IF IsSmall(w) THEN Min2(Nat_(w), 100000) ELSE 100000
BMath(a, b, r) == IF Len(a) > 64 \/ Len(b) > 64 THEN Logic ELSE r
GetBit(v, i) ==
    IF v[1] = "i"
    THEN IF i > 63 THEN Logic ELSE OK(<<NatV((v[2][8 - i \div 8] \div Pow2(i % 8)) % 2)>>)
    ELSE IF i >= 8 * Len(v[2]) THEN Logic
         ELSE OK(<<NatV((v[2][i \div 8 + 1] \div Pow2(7 - (i % 8))) % 2)>>)
SetBit(v, i, x) ==
    IF x > 1 THEN Logic
    ELSE LET set(b, k) == b + (x - ((b \div Pow2(k)) % 2)) * Pow2(k) IN
         IF v[1] = "i"
         THEN IF i > 63 THEN Logic ELSE OK(<<IntV([v[2] EXCEPT ![8 - i \div 8] = set(@, i % 8)])>>)
         ELSE IF i >= 8 * Len(v[2]) THEN Logic
              ELSE OK(<<BytV([v[2] EXCEPT ![i \div 8 + 1] = set(@, 7 - (i % 8))])>>)

ArgOps == {"arg_0", "arg_1", "arg_2", "arg_3"}
ReadOps == ArgOps \cup {"txn", "txna", "txnas", "gtxn", "gtxna", "gtxnas", "gtxns", "gtxnsa", "gtxnsas",
            "global", "arg", "args", "gload", "gloads", "gloadss", "gaid", "gaids", "block",
            "sha256", "keccak256", "sha512_256", "sha3_256", "ed25519verify",
            "ed25519verify_bare", "ecdsa_verify", "ecdsa_pk_decompress", "ecdsa_pk_recover",
            "vrf_verify", "base64_decode", "json_ref", "method"}
\* 32-byte results of the reads above
HashOps == {"sha256", "keccak256", "sha512_256", "sha3_256"}

EventOps == {"app_opted_in", "app_local_get", "app_local_get_ex", "app_global_get",
             "app_global_get_ex", "app_local_put", "app_global_put", "app_local_del",
             "app_global_del", "asset_holding_get", "asset_params_get", "app_params_get",
             "acct_params_get", "balance", "min_balance", "log", "itxn_begin", "itxn_field",
             "itxn_next", "itxn_submit", "itxn", "itxna", "itxnas", "gitxn", "gitxna", "gitxnas",
             "box_create", "box_extract", "box_replace", "box_del", "box_len", "box_get",
             "box_put"}

\* a, b, c: argument payloads (words or bytes); av: argument values
Pure(op, imm, av) ==
    LET a == IF Len(av) >= 1 THEN av[1][2] ELSE <<>>
        b == IF Len(av) >= 2 THEN av[2][2] ELSE <<>>
        c == IF Len(av) >= 3 THEN av[3][2] ELSE <<>>
        d == IF Len(av) >= 4 THEN av[4][2] ELSE <<>>
    IN
    CASE op = "+" -> Word(Add(a, b))
      [] op = "-" -> IF Cmp(a, b) < 0 THEN Logic ELSE Word(Sub(a, b))
      [] op = "*" -> Word(Mul(a, b))
      [] op = "/" -> IF IsZero(b) THEN Logic ELSE Word(DivMod(a, b)[1])
      [] op = "%" -> IF IsZero(b) THEN Logic ELSE Word(DivMod(a, b)[2])
      [] op = "<" -> Bool(Cmp(a, b) < 0)
      [] op = ">" -> Bool(Cmp(a, b) > 0)
      [] op = "<=" -> Bool(Cmp(a, b) <= 0)
      [] op = ">=" -> Bool(Cmp(a, b) >= 0)
      [] op = "&&" -> Bool(~IsZero(a) /\ ~IsZero(b))
      [] op = "||" -> Bool(~IsZero(a) \/ ~IsZero(b))
      [] op = "==" -> IF av[1][1] # av[2][1] THEN TypeErr ELSE Bool(a = b)
      [] op = "!=" -> IF av[1][1] # av[2][1] THEN TypeErr ELSE Bool(a # b)
      [] op = "!" -> Bool(IsZero(a))
      [] op = "~" -> OK(<<IntV(BNot(a))>>)
      [] op = "&" -> OK(<<IntV(BAnd(a, b))>>)
      [] op = "|" -> OK(<<IntV(BOr(a, b))>>)
      [] op = "^" -> OK(<<IntV(BXor(a, b))>>)
      [] op = "len" -> OK(<<NatV(Len(a))>>)
      [] op = "itob" -> OK(<<BytV(a)>>)
      [] op = "btoi" -> IF Len(a) > 8 THEN Logic ELSE OK(<<IntV(PadL(a, 8))>>)
      [] op = "mulw" -> LET p == PadL(Mul(a, b), 16)
                        IN OK(<<IntV(SubSeq(p, 1, 8)), IntV(SubSeq(p, 9, 16))>>)
      [] op = "addw" -> LET p == PadL(Add(a, b), 16)
                        IN OK(<<IntV(SubSeq(p, 1, 8)), IntV(SubSeq(p, 9, 16))>>)
      [] op = "divmodw" ->
            IF IsZero(c) /\ IsZero(d) THEN Logic
            ELSE LET qr == DivMod(a \o b, c \o d)  q == PadL(qr[1], 16)  r == PadL(qr[2], 16)
                 IN OK(<<IntV(SubSeq(q, 1, 8)), IntV(SubSeq(q, 9, 16)),
                         IntV(SubSeq(r, 1, 8)), IntV(SubSeq(r, 9, 16))>>)
      [] op = "divw" -> IF IsZero(c) THEN Logic ELSE Word(DivMod(a \o b, c)[1])
      [] op = "shl" -> IF Off(b) > 63 THEN Logic ELSE OK(<<IntV(Low(ShlBytes(a, Off(b)), 8))>>)
      [] op = "shr" -> IF Off(b) > 63 THEN Logic ELSE OK(<<IntV(PadL(ShrBytes(a, Off(b)), 8))>>)
      [] op = "sqrt" -> OK(<<IntV(PadL(Sqrt(a), 8))>>)
      [] op = "bitlen" -> OK(<<NatV(BitLen(a))>>)
      [] op = "exp" ->
            IF IsZero(b) THEN (IF IsZero(a) THEN Logic ELSE OK(<<NatV(1)>>))
            ELSE IF Norm(a) \in {<<>>, <<1>>} THEN OK(<<IntV(a)>>)
            ELSE IF Off(b) > 64 THEN Logic
            ELSE LET p == PowAt(Norm(a), Off(b), <<1>>, 8) IN IF p = <<-1>> THEN Logic ELSE Word(p)
      [] op = "expw" ->
            IF IsZero(b) THEN (IF IsZero(a) THEN Logic ELSE OK(<<NatV(0), NatV(1)>>))
            ELSE IF Norm(a) \in {<<>>, <<1>>} THEN OK(<<NatV(0), IntV(a)>>)
            ELSE IF Off(b) > 128 THEN Logic
            ELSE LET p == PowAt(Norm(a), Off(b), <<1>>, 16)
                     q == PadL(p, 16)
                 IN IF p = <<-1>> THEN Logic
                    ELSE OK(<<IntV(SubSeq(q, 1, 8)), IntV(SubSeq(q, 9, 16))>>)
      [] op = "concat" -> Bytes_(a \o b)
      [] op = "substring" -> IF imm[2] < imm[1] THEN Logic ELSE Slice(a, imm[1], imm[2] - imm[1])
      [] op = "substring3" -> IF Off(c) < Off(b) THEN Logic ELSE Slice(a, Off(b), Off(c) - Off(b))
      [] op = "extract" -> IF imm[2] = 0
                           THEN (IF imm[1] > Len(a) THEN Logic ELSE Slice(a, imm[1], Len(a) - imm[1]))
                           ELSE Slice(a, imm[1], imm[2])
      [] op = "extract3" -> Slice(a, Off(b), Off(c))
      [] op = "extract_uint16" -> LET s == Slice(a, Off(b), 2) IN IF s.r = "ok" THEN OK(<<IntV(PadL(s.v[1][2], 8))>>) ELSE s
      [] op = "extract_uint32" -> LET s == Slice(a, Off(b), 4) IN IF s.r = "ok" THEN OK(<<IntV(PadL(s.v[1][2], 8))>>) ELSE s
      [] op = "extract_uint64" -> LET s == Slice(a, Off(b), 8) IN IF s.r = "ok" THEN OK(<<IntV(PadL(s.v[1][2], 8))>>) ELSE s
      [] op = "getbit" -> GetBit(av[1], Off(b))
      [] op = "setbit" -> SetBit(av[1], Off(b), Off(c))
      [] op = "getbyte" -> IF Off(b) >= Len(a) THEN Logic ELSE OK(<<NatV(a[Off(b) + 1])>>)
      [] op = "setbyte" -> IF Off(b) >= Len(a) \/ Off(c) > 255 THEN Logic
                           ELSE OK(<<BytV([a EXCEPT ![Off(b) + 1] = Off(c)])>>)
      [] op = "replace2" -> Splice(a, imm[1], b)
      [] op = "replace3" -> Splice(a, Off(b), c)
      [] op = "bzero" -> IF Off(a) > MaxBytes THEN Logic ELSE OK(<<BytV(Zeros(Off(a)))>>)
      [] op = "b+" -> BMath(a, b, OK(<<BytV(Add(a, b))>>))
      [] op = "b-" -> BMath(a, b, IF Cmp(a, b) < 0 THEN Logic ELSE OK(<<BytV(Sub(a, b))>>))
      [] op = "b*" -> BMath(a, b, OK(<<BytV(Mul(a, b))>>))
      [] op = "b/" -> BMath(a, b, IF IsZero(b) THEN Logic ELSE OK(<<BytV(DivMod(a, b)[1])>>))
      [] op = "b%" -> BMath(a, b, IF IsZero(b) THEN Logic ELSE OK(<<BytV(DivMod(a, b)[2])>>))
      [] op = "b<" -> BMath(a, b, Bool(Cmp(a, b) < 0))
      [] op = "b>" -> BMath(a, b, Bool(Cmp(a, b) > 0))
      [] op = "b<=" -> BMath(a, b, Bool(Cmp(a, b) <= 0))
      [] op = "b>=" -> BMath(a, b, Bool(Cmp(a, b) >= 0))
      [] op = "b==" -> BMath(a, b, Bool(Cmp(a, b) = 0))
      [] op = "b!=" -> BMath(a, b, Bool(Cmp(a, b) # 0))
      [] op = "b|" -> OK(<<BytV(BOr(a, b))>>)
      [] op = "b&" -> OK(<<BytV(BAnd(a, b))>>)
      [] op = "b^" -> OK(<<BytV(BXor(a, b))>>)
      [] op = "b~" -> OK(<<BytV(BNot(a))>>)
      [] op = "bsqrt" -> IF Len(a) > 64 THEN Logic ELSE OK(<<BytV(Sqrt(a))>>)
      [] op = "select" -> OK(<<IF IsZero(c) THEN av[1] ELSE av[2]>>)
      [] op = "dup" -> OK(<<av[1], av[1]>>)
      [] op = "dup2" -> OK(<<av[1], av[2], av[1], av[2]>>)
      [] op = "swap" -> OK(<<av[2], av[1]>>)
      [] op = "pop" -> OK(<<>>)
      [] op = "assert" -> IF IsZero(a) THEN Logic ELSE OK(<<>>)
      [] op = "err" -> Logic
      [] OTHER -> [r |-> "unknown"]

Ev(op, imm, av) ==
    LET ks == Ops[op].a IN
    IF Len(av) # Len(ks) \/ \E i \in 1..Len(ks) : ~KindOk(ks[i], av[i]) THEN TypeErr
    ELSE IF op \in ReadOps THEN [r |-> "read"]
    ELSE IF op \in EventOps THEN [r |-> "ev"]
    ELSE Pure(op, imm, av)
=============================================================================
