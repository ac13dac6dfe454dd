------------------------------ MODULE Decimal -------------------------------
(* Decimal notation of the numbers of the X1: what a literal or an input     *)
(* number denotes, and which texts are correct prints of a number.           *)
(* Texts are sequences of byte codes.                                        *)
EXTENDS X1Num

MINUS == 45  PLUS == 43  POINT == 46  BLANK == 32
TEN == <<226, 143, 168>>                               \* the symbol "ten"
Chars(digits) == [i \in 1..Len(digits) |-> digits[i] + 48]

(* ----------------------------- reading ---------------------------------- *)
\* the digits, as an integer, times 10^k, to native precision: <<N, e, sticky>>
DecBin(digits, k) ==
  LET D == BFromDigits(digits)
  IN IF D = <<>> THEN <<<<>>, 0, FALSE>>
     ELSE IF k >= 0 THEN <<BMul10(D, k), 0, FALSE>>
     ELSE LET sh == IF 4 * (-k) + 80 > BLen(D) THEN 4 * (-k) + 80 - BLen(D) ELSE 0
              q  == BDiv10(BShl(D, sh), -k, FALSE)
          IN <<q[1], -sh, q[2]>>
\* (-1)^s * digits * 10^k as an X1 real: nearest native number, then 40 bits
DecReal(s, digits, k) == LET b == DecBin(digits, k) IN MkReal(s, b[1], b[2], b[3])
\* is digits * 10^k exactly a 40-bit real?
DecExact(digits, k) ==
  LET b == DecBin(digits, k)
  IN ~b[3] /\ (b[1] = <<>> \/ BLen(b[1]) <= 40 \/ BLowZero(b[1], BLen(b[1]) - 40))

(* ---------------------------- comparing --------------------------------- *)
\* compare M * 2^e with N * 10^k
CmpDec(M, e, N, k) ==
  LET a == BShl(BMul10(M, IF k < 0 THEN -k ELSE 0), IF e > 0 THEN e ELSE 0)
      b == BShl(BMul10(N, IF k > 0 THEN k ELSE 0), IF e < 0 THEN -e ELSE 0)
  IN BCmp(a, b)
FloorDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a + b - 1) \div b)
RECURSIVE AdjExp(_, _, _)
AdjExp(M, e, k) == IF CmpDec(M, e, <<1>>, k) >= 0 THEN AdjExp(M, e, k + 1)
                   ELSE IF CmpDec(M, e, <<1>>, k - 1) < 0 THEN AdjExp(M, e, k - 1)
                   ELSE k
\* the k with 10^(k-1) <= M * 2^e < 10^k
DecExp(M, e) == AdjExp(M, e, FloorDiv((e + BLen(M) - 1) * 301, 1000) + 1)

\* |N * 10^k - M * 2^e| <= 10^k / 2 + M * 2^(e - acc)
Denotes(N, k, M, e, acc) ==
  LET x == BShl(BMul10(M, IF k < 0 THEN -k ELSE 0), (IF e > 0 THEN e ELSE 0) + 1)
      u == BShl(BMul10(<<1>>, IF k > 0 THEN k ELSE 0), IF e < 0 THEN -e ELSE 0)
      y == BShl(BMul(u, N), 1)
      d == IF BCmp(x, y) >= 0 THEN BSub(x, y) ELSE BSub(y, x)
  IN BCmp(BShl(d, acc), BAdd(BShl(u, acc), x)) <= 0

(* ----------------------------- printing --------------------------------- *)
IntText(v) ==
  IF v = NZ THEN <<MINUS, 48>>
  ELSE IF v = 0 THEN <<48>>
  ELSE (IF v < 0 THEN <<MINUS>> ELSE <<>>) \o Chars(BDigits(BFromNat(AbsI(v))))

\* M * 2^e / 10^k rounded to an integer, ties to even
ScaleEven(M, e, k) ==
  LET a == IF k < 0 THEN <<BMul10(M, -k), FALSE>> ELSE <<M, FALSE>>
      b == IF e + 1 >= 0 THEN <<BShl(a[1], e + 1), FALSE>>
           ELSE <<BShr(a[1], -e - 1), ~BLowZero(a[1], -e - 1)>>
      \* (division by 10^k after the binary shift: floor and stickiness compose)
      c == IF k > 0 THEN BDiv10(b[1], k, b[2]) ELSE b
      q == c[1]
      h == BShr(q, 1)
  IN IF BBit(q, 0) = 1 /\ (c[2] \/ BBit(h, 0) = 1) THEN BAdd(h, <<1>>) ELSE h

RECURSIVE DropZerosRight(_)
DropZerosRight(s) == IF s = <<>> THEN s
                     ELSE IF s[Len(s)] = 0 THEN DropZerosRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
ZeroDigits(n) == [i \in 1..n |-> 0]
ExpDigits(x) == LET d == BDigits(BFromNat(x))
                IN IF Len(d) >= 2 THEN d ELSE ZeroDigits(2 - Len(d)) \o d
\* a real in at most 13 significant digits, fixed or scientific
RealText(x) ==
  LET sg == IF x[2] = 1 THEN <<MINUS>> ELSE <<>>
  IN IF x[3] = <<>> THEN sg \o <<48>>
     ELSE LET k0 == DecExp(x[3], x[4])
              d0 == ScaleEven(x[3], x[4], k0 - 13)
              dg0 == BDigits(d0)
              k  == IF Len(dg0) > 13 THEN k0 + 1 ELSE k0
              dg == DropZerosRight(dg0)
              X  == k - 1
          IN IF X < -4 \/ X >= 13
             THEN sg \o Chars(<<dg[1]>>)
                  \o (IF Len(dg) > 1 THEN <<POINT>> \o Chars(Tail(dg)) ELSE <<>>)
                  \o <<101, IF X < 0 THEN MINUS ELSE PLUS>> \o Chars(ExpDigits(AbsI(X)))
             ELSE IF X < 0
             THEN sg \o <<48, POINT>> \o Chars(ZeroDigits(-X - 1) \o dg)
             ELSE IF Len(dg) <= k
             THEN sg \o Chars(dg \o ZeroDigits(k - Len(dg)))
             ELSE sg \o Chars(SubSeq(dg, 1, k)) \o <<POINT>> \o Chars(SubSeq(dg, k + 1, Len(dg)))

(* The layouts of FLOT and FIXT.  The last digits of a long print may be off *)
(* by the precision of the native format (see acc), everything else is       *)
(* exact.  Both are given as the set of positions in text t at which a       *)
(* correct print of x starting at position p may end.                        *)
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE AllDigits(_, _, _)
AllDigits(t, a, b) == a > b \/ (IsDigit(t[a]) /\ AllDigits(t, a + 1, b))
DigitsAt(t, a, b) == [i \in 1..(b - a + 1) |-> t[a + i - 1] - 48]

\* m digits with leading zeros (but not the last digit) as spaces: value or -1
RECURSIVE SpacedR(_, _, _, _, _)
SpacedR(t, a, b, seen, acc) ==
  IF a > b THEN acc
  ELSE IF t[a] = BLANK /\ ~seen /\ a < b THEN SpacedR(t, a + 1, b, FALSE, acc)
  ELSE IF ~IsDigit(t[a]) \/ (t[a] = 48 /\ ~seen /\ a < b) THEN -1
  ELSE SpacedR(t, a + 1, b, TRUE, acc * 10 + t[a] - 48)
Spaced(t, a, b) == SpacedR(t, a, b, FALSE, 0)

Acc == 55
\* x as sign . n digits ten sign m digits space
FlotShape(t, p, n, m, x) ==
  LET q == p + 2 + n              \* the ten
      z == q + 4 + m              \* the final space
  IN IF z > Len(t) THEN {}
     ELSE IF ~(/\ t[p] = (IF x[2] = 1 THEN MINUS ELSE PLUS)
               /\ t[p + 1] = POINT
               /\ AllDigits(t, p + 2, q - 1)
               /\ SubSeq(t, q, q + 2) = TEN
               /\ t[q + 3] \in {MINUS, PLUS}
               /\ t[z] = BLANK) THEN {}
     ELSE LET v  == Spaced(t, q + 4, z - 1)
              E  == IF t[q + 3] = MINUS THEN -v ELSE v
              D  == BFromDigits(DigitsAt(t, p + 2, q - 1))
          IN IF v < 0 \/ (v = 0 /\ t[q + 3] = MINUS) THEN {}
             ELSE IF x[3] = <<>> THEN (IF D = <<>> /\ v = 0 THEN {z + 1} ELSE {})
             ELSE IF t[p + 2] # 48 /\ Denotes(D, E - n, x[3], x[4], Acc) THEN {z + 1} ELSE {}

\* may (must) the exponent of x rounded to n digits exceed lim in size?
FlotExps(n, x) ==
  IF x[3] = <<>> THEN {0}
  ELSE LET k == DecExp(x[3], x[4])
           top == BMul10(<<1>>, n)
           \* rounding up to 10^k possible / necessary
           may == Denotes(top, k - n, x[3], x[4], Acc)
           not == CmpDec(BShl(x[3], 1), x[4], BSub(BShl(top, 1), <<1>>), k - n) < 0
                  \/ Denotes(BSub(top, <<1>>), k - n, x[3], x[4], Acc)
       IN (IF may THEN {k + 1} ELSE {}) \cup (IF not \/ ~may THEN {k} ELSE {})

FlotEnds(t, p, n0, m0, x) ==
  LET legal == n0 >= 1 /\ n0 <= 13 /\ m0 >= 1 /\ m0 <= 3
      lim   == IF m0 = 1 THEN 9 ELSE IF m0 = 2 THEN 99 ELSE 999
      es    == FlotExps(n0, x)
  IN IF ~legal THEN FlotShape(t, p, 13, 3, x)
     ELSE (IF \E E \in es : AbsI(E) <= lim THEN FlotShape(t, p, n0, m0, x) ELSE {})
          \cup (IF \E E \in es : AbsI(E) > lim THEN FlotShape(t, p, 13, 3, x) ELSE {})

\* leading zeros of the n digits before the point as spaces, the units zero
\* only kept when no digits follow
RECURSIVE FixDigitsR(_, _, _, _, _)
FixDigitsR(t, a, b, keepUnit, seen) ==
  IF a > b THEN TRUE
  ELSE IF t[a] = BLANK THEN ~seen /\ ~(keepUnit /\ a = b) /\ FixDigitsR(t, a + 1, b, keepUnit, FALSE)
  ELSE IF ~IsDigit(t[a]) THEN FALSE
  ELSE IF t[a] = 48 /\ ~seen THEN keepUnit /\ a = b
  ELSE FixDigitsR(t, a + 1, b, keepUnit, TRUE)
FixShape(t, p, n, m, x, signed) ==
  LET q == p + 1 + n                                   \* the point, if m > 0
      z == IF m > 0 THEN q + 1 + m ELSE q              \* the final space
  IN IF z > Len(t) THEN {}
     ELSE IF ~(/\ t[p] = (IF ~signed THEN BLANK ELSE IF x[2] = 1 THEN MINUS ELSE PLUS)
               /\ FixDigitsR(t, p + 1, p + n, m = 0, FALSE)
               /\ (m > 0 => t[q] = POINT /\ AllDigits(t, q + 1, q + m))
               /\ t[z] = BLANK) THEN {}
     ELSE LET ip == [i \in 1..n |-> IF t[p + i] = BLANK THEN 0 ELSE t[p + i] - 48]
              fp == IF m > 0 THEN DigitsAt(t, q + 1, q + m) ELSE <<>>
              N  == BFromDigits(ip \o fp)
          IN IF x[3] = <<>> THEN (IF N = <<>> THEN {z + 1} ELSE {})
             ELSE IF Denotes(N, -m, x[3], x[4], Acc) THEN {z + 1} ELSE {}
FixtEnds(t, p, n, m, x, signed) ==
  LET bad == n < 0 \/ m < 0 \/ n > 21 \/ m > 21 \/ n + m > 21 \/ n + m < 1
  IN IF bad THEN FlotShape(t, p, 13, 3, x)
     ELSE FixShape(t, p, n, m, x, signed)
          \cup (IF x[3] # <<>>
                   /\ (CmpDec(x[3], x[4], <<1>>, n) >= 0
                       \/ Denotes(BMul10(<<1>>, n + m), -m, x[3], x[4], Acc))
                THEN FlotShape(t, p, 13, 3, x) ELSE {})
=============================================================================
