------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size, as little-endian sequences of limbs in base  *)
(* 4096 without leading (high) zero limbs; <<>> is zero.  TLC's own integers *)
(* have 32 bits, the X1 works with 27- and 40-bit words and its results have *)
(* to be compared with exact values of up to some thousand bits.             *)
EXTENDS Integers, Sequences

B == 4096
Bits == 12

RECURSIVE BNorm(_)
BNorm(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN BNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE BFromNat(_)
BFromNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o BFromNat(n \div B)

BIsZero(a) == a = <<>>

Limb(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0

BMax(x, y) == IF x > y THEN x ELSE y

\* the value as a TLC integer (the caller knows that it fits)
RECURSIVE BToNatR(_, _, _)
BToNatR(a, i, acc) == IF i = 0 THEN acc ELSE BToNatR(a, i - 1, acc * B + a[i])
BToNat(a) == BToNatR(a, Len(a), 0)

RECURSIVE BAddR(_, _, _, _, _)
BAddR(a, b, i, c, acc) ==
  IF i > Len(a) /\ i > Len(b)
  THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET s == Limb(a, i) + Limb(b, i) + c
       IN BAddR(a, b, i + 1, s \div B, Append(acc, s % B))
BAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE BAddR(a, b, 1, 0, <<>>)

\* a - b, for a >= b
RECURSIVE BSubR(_, _, _, _, _)
BSubR(a, b, i, c, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET s == a[i] - Limb(b, i) - c
       IN IF s < 0 THEN BSubR(a, b, i + 1, 1, Append(acc, s + B))
                   ELSE BSubR(a, b, i + 1, 0, Append(acc, s))
BSub(a, b) == IF b = <<>> THEN a ELSE BNorm(BSubR(a, b, 1, 0, <<>>))

RECURSIVE BCmpR(_, _, _)
BCmpR(a, b, i) == IF i = 0 THEN 0
                  ELSE IF a[i] < b[i] THEN -1
                  ELSE IF a[i] > b[i] THEN 1 ELSE BCmpR(a, b, i - 1)
\* -1, 0, 1
BCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE BCmpR(a, b, Len(a))

\* a * n + c, for n, c < 2^18
RECURSIVE BMulSmallR(_, _, _, _, _)
BMulSmallR(a, n, i, c, acc) ==
  IF i > Len(a)
  THEN IF c = 0 THEN acc ELSE acc \o BFromNat(c)
  ELSE LET s == a[i] * n + c
       IN BMulSmallR(a, n, i + 1, s \div B, Append(acc, s % B))
BMulAddSmall(a, n, c) == IF n = 0 THEN BFromNat(c) ELSE BMulSmallR(a, n, 1, c, <<>>)
BMulSmall(a, n) == BMulAddSmall(a, n, 0)

\* limb k (from 0) of the product before carrying
RECURSIVE BConv(_, _, _, _, _)
BConv(a, b, k, i, acc) ==
  IF i > k THEN acc
  ELSE BConv(a, b, k, i + 1, acc + Limb(a, i + 1) * Limb(b, k - i + 1))
RECURSIVE BMulR(_, _, _, _, _)
BMulR(a, b, k, c, acc) ==
  IF k > Len(a) + Len(b) - 2
  THEN IF c = 0 THEN acc ELSE acc \o BFromNat(c)
  ELSE LET s == BConv(a, b, k, 0, 0) + c
       IN BMulR(a, b, k + 1, s \div B, Append(acc, s % B))
\* for min(Len(a), Len(b)) <= 100
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE BMulR(a, b, 0, 0, <<>>)

\* << a \div n, a % n >>, for n < 2^19
RECURSIVE BDivSmallR(_, _, _, _, _)
BDivSmallR(a, n, i, r, acc) ==
  IF i = 0 THEN <<acc, r>>
  ELSE LET s == r * B + a[i]
       IN BDivSmallR(a, n, i - 1, s % n, <<s \div n>> \o acc)
BDivSmall(a, n) == LET q == BDivSmallR(a, n, Len(a), 0, <<>>) IN <<BNorm(q[1]), q[2]>>

RECURSIVE NatLen(_)
NatLen(n) == IF n = 0 THEN 0 ELSE 1 + NatLen(n \div 2)
\* number of significant bits
BLen(a) == IF a = <<>> THEN 0 ELSE Bits * (Len(a) - 1) + NatLen(a[Len(a)])

Pow2(n) == 2^n

Zeros(n) == [i \in 1..n |-> 0]

\* a * 2^n
BShl(a, n) == IF a = <<>> \/ n = 0 THEN a
              ELSE LET m == BMulSmall(a, Pow2(n % Bits))
                   IN IF n < Bits THEN m ELSE Zeros(n \div Bits) \o m
\* a \div 2^n
BShr(a, n) == IF n = 0 THEN a
              ELSE IF n >= BLen(a) THEN <<>>
              ELSE LET m == SubSeq(a, n \div Bits + 1, Len(a))
                   IN IF n % Bits = 0 THEN m
                      ELSE LET h == Pow2(n % Bits)
                               g == Pow2(Bits - (n % Bits))
                           IN BNorm([i \in 1..Len(m) |->
                                 m[i] \div h + (IF i < Len(m) THEN (m[i + 1] % h) * g ELSE 0)])
\* bit n (from 0)
BBit(a, n) == (Limb(a, n \div Bits + 1) \div Pow2(n % Bits)) % 2
\* are the n lowest bits all zero
RECURSIVE LimbsZero(_, _)
LimbsZero(a, k) == IF k = 0 THEN TRUE ELSE Limb(a, k) = 0 /\ LimbsZero(a, k - 1)
BLowZero(a, n) == LimbsZero(a, n \div Bits) /\ Limb(a, n \div Bits + 1) % Pow2(n % Bits) = 0

\* << a \div b, remainder # 0 >>: long division, one bit at a time
RECURSIVE BDivR(_, _, _, _, _)
BDivR(a, b, i, r, q) ==
  IF i < 0 THEN <<q, r # <<>>>>
  ELSE LET r1 == BMulAddSmall(r, 2, BBit(a, i))
       IN IF BCmp(r1, b) >= 0 THEN BDivR(a, b, i - 1, BSub(r1, b), BMulAddSmall(q, 2, 1))
                              ELSE BDivR(a, b, i - 1, r1, BMulAddSmall(q, 2, 0))
BDiv(a, b) == BDivR(a, b, BLen(a) - 1, <<>>, <<>>)

\* a * 10^k
RECURSIVE BMul10(_, _)
BMul10(a, k) == IF k = 0 \/ a = <<>> THEN a
                ELSE IF k >= 5 THEN BMul10(BMulSmall(a, 100000), k - 5)
                ELSE BMul10(BMulSmall(a, 10), k - 1)
\* << a \div 10^k, remainder # 0 >>
RECURSIVE BDiv10(_, _, _)
BDiv10(a, k, st) == IF k = 0 \/ a = <<>> THEN <<a, st>>
                    ELSE LET m == IF k >= 5 THEN 5 ELSE 1
                             d == BDivSmall(a, IF m = 5 THEN 100000 ELSE 10)
                         IN BDiv10(d[1], k - m, st \/ d[2] # 0)

\* decimal digits, most significant first; <<>> for zero
RECURSIVE BDigitsR(_, _)
BDigitsR(a, acc) ==
  IF a = <<>> THEN acc
  ELSE LET d == BDivSmall(a, 10000)
           r == d[2]
       IN BDigitsR(d[1], <<r \div 1000, (r \div 100) % 10, (r \div 10) % 10, r % 10>> \o acc)
RECURSIVE DropZeros(_)
DropZeros(s) == IF s = <<>> THEN s ELSE IF s[1] = 0 THEN DropZeros(Tail(s)) ELSE s
BDigits(a) == DropZeros(BDigitsR(a, <<>>))

\* the number with the given decimal digits
RECURSIVE BFromDigitsR(_, _, _)
BFromDigitsR(s, i, acc) == IF i > Len(s) THEN acc
                           ELSE BFromDigitsR(s, i + 1, BMulAddSmall(acc, 10, s[i]))
BFromDigits(s) == BFromDigitsR(s, 1, <<>>)
=============================================================================
