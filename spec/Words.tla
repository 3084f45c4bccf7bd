------------------------------- MODULE Words -------------------------------
(* Unsigned integers as big-endian byte sequences.                          *)
(* TLC integers have 32 bits, so 64-bit words are 8-byte sequences and      *)
(* "b" arithmetic works on byte sequences of any length.                    *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC

Byte == 0..255
Rep(b, n) == [i \in 1..n |-> b]
Zeros(n) == [i \in 1..n |-> 0]
IsZero(s) == \A i \in 1..Len(s) : s[i] = 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE LeadZ(_, _)
LeadZ(s, i) == IF i > Len(s) \/ s[i] # 0 THEN i - 1 ELSE LeadZ(s, i + 1)
\* without leading zero bytes
Norm(s) == LET z == LeadZ(s, 1) IN IF z = 0 THEN s ELSE SubSeq(s, z + 1, Len(s))
\* left-padded with zeros to n bytes (n >= Len(s))
PadL(s, n) == IF Len(s) >= n THEN s ELSE Zeros(n - Len(s)) \o s
\* the n low-order bytes
Low(s, n) == IF Len(s) > n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE PadL(s, n)

\* does the value fit in a TLC integer (31 bits)?
IsSmall(s) == LET z == LeadZ(s, 1) IN
    \/ Len(s) - z <= 3
    \/ Len(s) - z = 4 /\ s[z + 1] < 128
RECURSIVE NatAcc(_, _, _)
NatAcc(s, i, acc) == IF i > Len(s) THEN acc ELSE NatAcc(s, i + 1, acc * 256 + s[i])
Nat_(s) == NatAcc(s, 1, 0)                        \* only if IsSmall(s)
\* big-endian bytes of a natural number, n bytes
W8(v) == <<0, 0, 0, 0, v \div 16777216, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>
RECURSIVE NatBytes(_)
NatBytes(v) == IF v = 0 THEN <<>> ELSE NatBytes(v \div 256) \o <<v % 256>>

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i > Len(a) THEN 0
                  ELSE IF a[i] < b[i] THEN -1
                  ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i + 1)
\* numeric comparison: -1, 0, 1
Cmp(a, b) ==
    LET x == Norm(a)  y == Norm(b) IN
    IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE CmpAt(x, y, 1)

RECURSIVE AddAt(_, _, _, _, _)
AddAt(a, b, i, c, out) ==
    IF i = 0 THEN (IF c = 0 THEN out ELSE <<c>> \o out)
    ELSE LET v == a[i] + b[i] + c IN AddAt(a, b, i - 1, v \div 256, <<v % 256>> \o out)
\* normalised sum
Add(a, b) == LET n == Max2(Len(a), Len(b))
             IN Norm(AddAt(PadL(a, n), PadL(b, n), n, 0, <<>>))
RECURSIVE SubAt(_, _, _, _, _)
SubAt(a, b, i, c, out) ==
    IF i = 0 THEN out
    ELSE LET v == a[i] - b[i] - c
         IN SubAt(a, b, i - 1, IF v < 0 THEN 1 ELSE 0, <<IF v < 0 THEN v + 256 ELSE v>> \o out)
\* normalised difference, a >= b
Sub(a, b) == LET n == Max2(Len(a), Len(b))
             IN Norm(SubAt(PadL(a, n), PadL(b, n), n, 0, <<>>))

\* a * digit
RECURSIVE MulDigAt(_, _, _, _, _)
MulDigAt(a, d, i, c, out) ==
    IF i = 0 THEN (IF c = 0 THEN out ELSE <<c>> \o out)
    ELSE LET v == a[i] * d + c IN MulDigAt(a, d, i - 1, v \div 256, <<v % 256>> \o out)
MulDig(a, d) == IF d = 0 THEN <<>> ELSE MulDigAt(a, d, Len(a), 0, <<>>)
RECURSIVE MulAt(_, _, _, _)
MulAt(a, b, j, acc) ==
    IF j > Len(b) THEN acc
    ELSE MulAt(a, b, j + 1,
               LET sh == IF acc = <<>> THEN <<>> ELSE acc \o <<0>>
               IN Add(sh, MulDig(a, b[j])))
\* normalised product
Mul(a, b) == LET x == Norm(a)  y == Norm(b) IN
    IF Len(x) >= Len(y) THEN MulAt(x, y, 1, <<>>) ELSE MulAt(y, x, 1, <<>>)

\* largest d in lo..hi with b * d <= r
RECURSIVE QDig(_, _, _, _)
QDig(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF Cmp(MulDig(b, m), r) <= 0 THEN QDig(r, b, m, hi) ELSE QDig(r, b, lo, m - 1)
RECURSIVE DivAt(_, _, _, _, _)
DivAt(a, b, i, q, r) ==
    IF i > Len(a) THEN <<Norm(q), r>>
    ELSE LET r1 == Norm(r \o <<a[i]>>)
             d == IF Cmp(r1, b) < 0 THEN 0 ELSE QDig(r1, b, 1, 255)
         IN DivAt(a, b, i + 1, q \o <<d>>, IF d = 0 THEN r1 ELSE Sub(r1, MulDig(b, d)))
\* <<quotient, remainder>>, normalised; b # 0
DivMod(a, b) ==
    LET x == Norm(a)  y == Norm(b) IN
    IF IsSmall(x) /\ IsSmall(y)
    THEN <<NatBytes(Nat_(x) \div Nat_(y)), NatBytes(Nat_(x) % Nat_(y))>>
    ELSE DivAt(x, y, 1, <<>>, <<>>)

\* number of bits
RECURSIVE BitsOf(_)
BitsOf(v) == IF v = 0 THEN 0 ELSE 1 + BitsOf(v \div 2)
BitLen(s) == LET x == Norm(s) IN IF x = <<>> THEN 0 ELSE (Len(x) - 1) * 8 + BitsOf(x[1])

Pow2(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 ELSE IF n = 2 THEN 4 ELSE IF n = 3 THEN 8
           ELSE IF n = 4 THEN 16 ELSE IF n = 5 THEN 32 ELSE IF n = 6 THEN 64 ELSE 128
\* value * 2^n (normalised)
ShlBytes(s, n) == Norm(MulDig(Norm(s), Pow2(n % 8))) \o Zeros(n \div 8)
\* value \div 2^n
ShrBytes(s, n) ==
    IF n \div 8 >= Len(s) THEN <<>>
    ELSE LET t == SubSeq(s, 1, Len(s) - n \div 8)
         IN IF n % 8 = 0 THEN Norm(t) ELSE DivMod(t, <<Pow2(n % 8)>>)[1]

\* integer square root by binary search on the bits of the result
RECURSIVE SqrtAt(_, _, _)
SqrtAt(s, r, bit) ==
    IF bit < 0 THEN r
    ELSE LET c == Add(r, ShlBytes(<<1>>, bit))
         IN SqrtAt(s, IF Cmp(Mul(c, c), s) <= 0 THEN c ELSE r, bit - 1)
Sqrt(s) == IF IsZero(s) THEN <<>> ELSE SqrtAt(s, <<>>, (BitLen(s) + 1) \div 2)

\* base^e, or <<-1>> if it has more than lim bytes
RECURSIVE PowAt(_, _, _, _)
PowAt(b, e, acc, lim) ==
    IF e = 0 THEN acc
    ELSE LET m == Mul(acc, b) IN IF Len(m) > lim THEN <<-1>> ELSE PowAt(b, e - 1, m, lim)

BAnd(a, b) == LET n == Max2(Len(a), Len(b)) x == PadL(a, n) y == PadL(b, n) IN [i \in 1..n |-> x[i] & y[i]]
BOr(a, b)  == LET n == Max2(Len(a), Len(b)) x == PadL(a, n) y == PadL(b, n) IN [i \in 1..n |-> x[i] | y[i]]
BXor(a, b) == LET n == Max2(Len(a), Len(b)) x == PadL(a, n) y == PadL(b, n) IN [i \in 1..n |-> x[i] ^^ y[i]]
BNot(a) == [i \in 1..Len(a) |-> 255 - a[i]]
=============================================================================
