------------------------------- MODULE X1Num --------------------------------
(* The numbers of the X1: 27-bit ones' complement integers and reals with a  *)
(* 40-bit significand and a 12-bit exponent, and the operations on them as   *)
(* the simulator defines them: every result is the exact one, taken to the   *)
(* 64-bit precision of the native format (to nearest, ties to even) and then *)
(* rounded to 40 bits (ties away from zero).                                 *)
(*                                                                           *)
(* Values:  <<"I", v>>         integer, v a TLC integer, or NZ for minus zero *)
(*          <<"R", s, m, e>>   real (-1)^s * m * 2^e, m a BigNat of exactly   *)
(*                             40 bits, or <<>> (then e = 0) for a zero       *)
(*          <<"B", b>>         Boolean                                        *)
(*          <<"X", why>>       no value: the operation is an error            *)
EXTENDS BigNat

NZ == 1000000000                       \* integer minus zero
MaxInt == 67108863                     \* 2^26 - 1
IVal(v) == IF v = NZ THEN 0 ELSE v
IntV(v) == <<"I", v>>
Err(w) == <<"X", w>>
Bool(b) == <<"B", b>>
IsErr(x) == x[1] = "X"
IsI(x) == x[1] = "I"
IsR(x) == x[1] = "R"
IsNum(x) == x[1] \in {"I", "R"}
AbsI(i) == IF i < 0 THEN -i ELSE i

RZero(s) == <<"R", s, <<>>, 0>>

MinExp == -2048
MaxExp == 2047

\* N * 2^e (plus something smaller than a unit of N, if st) to 64 bits: <<N', e'>>
Round64(N, e, st) ==
  LET L == BLen(N) IN
  IF L <= 64 THEN <<N, e>>
  ELSE LET sh == L - 64
           q  == BShr(N, sh)
           h  == BBit(N, sh - 1)
           lo == st \/ ~BLowZero(N, sh - 1)
           up == h = 1 /\ (lo \/ BBit(q, 0) = 1)
       IN <<IF up THEN BAdd(q, <<1>>) ELSE q, e + sh>>

\* (-1)^s * N * 2^e as an X1 real
Round40(s, N, e) ==
  IF N = <<>> THEN RZero(s)
  ELSE LET L  == BLen(N)
           q0 == IF L <= 40 THEN BShl(N, 40 - L)
                 ELSE LET sh == L - 40
                          q  == BShr(N, sh)
                      IN IF BBit(N, sh - 1) = 1 THEN BAdd(q, <<1>>) ELSE q
           e0 == e + L - 40
           ov == BLen(q0) > 40
           q1 == IF ov THEN BShr(q0, 1) ELSE q0
           e1 == IF ov THEN e0 + 1 ELSE e0
       IN IF e1 + 40 > MaxExp THEN Err("Overflow in real arithmetic")
          ELSE IF e1 + 40 < MinExp THEN RZero(s)
          ELSE <<"R", s, q1, e1>>

MkReal(s, N, e, st) == LET r == Round64(N, e, st) IN Round40(s, r[1], r[2])

\* an integer as a real (minus zero counts as zero)
IntToReal(v) == IF IVal(v) = 0 THEN RZero(0)
                ELSE Round40(IF v < 0 THEN 1 ELSE 0, BFromNat(AbsI(v)), 0)
ToReal(x) == IF IsI(x) THEN IntToReal(x[2]) ELSE x

FitInt(v) == IF AbsI(v) > MaxInt THEN Err("Overflow in integer arithmetic") ELSE IntV(v)

NegReal(x) == <<"R", 1 - x[2], x[3], x[4]>>

RAdd(a, b) ==
  IF a[3] = <<>> /\ b[3] = <<>> THEN RZero(IF a[2] = 1 /\ b[2] = 1 THEN 1 ELSE 0)
  ELSE IF a[3] = <<>> THEN b
  ELSE IF b[3] = <<>> THEN a
  ELSE IF a[4] - b[4] > 120 THEN a
  ELSE IF b[4] - a[4] > 120 THEN b
  ELSE LET e  == IF a[4] < b[4] THEN a[4] ELSE b[4]
           na == BShl(a[3], a[4] - e)
           nb == BShl(b[3], b[4] - e)
       IN IF a[2] = b[2] THEN MkReal(a[2], BAdd(na, nb), e, FALSE)
          ELSE LET c == BCmp(na, nb)
               IN IF c = 0 THEN RZero(0)
                  ELSE IF c > 0 THEN MkReal(a[2], BSub(na, nb), e, FALSE)
                  ELSE MkReal(b[2], BSub(nb, na), e, FALSE)

SignXor(a, b) == IF a[2] = b[2] THEN 0 ELSE 1
RMul(a, b) == IF a[3] = <<>> \/ b[3] = <<>> THEN RZero(SignXor(a, b))
              ELSE MkReal(SignXor(a, b), BMul(a[3], b[3]), a[4] + b[4], FALSE)
RDiv(a, b) == IF b[3] = <<>> THEN Err("Division by zero")
              ELSE IF a[3] = <<>> THEN RZero(SignXor(a, b))
              ELSE LET q == BDiv(BShl(a[3], 70), b[3])
                   IN MkReal(SignXor(a, b), q[1], a[4] - b[4] - 70, q[2])

\* -1, 0, 1
RCmp(a, b) ==
  IF a[3] = <<>> /\ b[3] = <<>> THEN 0
  ELSE IF a[3] = <<>> THEN (IF b[2] = 1 THEN 1 ELSE -1)
  ELSE IF b[3] = <<>> \/ a[2] # b[2] THEN (IF a[2] = 1 THEN -1 ELSE 1)
  ELSE LET c == IF a[4] # b[4] THEN (IF a[4] < b[4] THEN -1 ELSE 1) ELSE BCmp(a[3], b[3])
       IN IF a[2] = 1 THEN -c ELSE c

\* |real| rounded to the nearest integer, ties away; -1 if that exceeds MaxInt
RoundAbs(x) ==
  IF x[3] = <<>> \/ x[4] < -40 THEN 0
  ELSE IF x[4] > -13 THEN -1
  ELSE LET q == BToNat(BShr(BAdd(BShl(x[3], 1), BShl(<<1>>, -x[4])), 1 - x[4]))
       IN IF q > MaxInt THEN -1 ELSE q
\* conversion to integer
RToInt(x) == LET q == RoundAbs(x)
             IN IF q = -1 THEN Err("Overflow in integer arithmetic")
                ELSE IntV(IF x[2] = 1 THEN -q ELSE q)

\* largest integer not greater than x
Entier(x) ==
  IF IsI(x) THEN x
  ELSE IF x[3] = <<>> THEN IntV(0)
  ELSE IF x[4] >= 0 THEN Err("Overflow in entier")
  ELSE IF x[4] > -14 THEN Err("Overflow in entier")
  ELSE LET fl == IF -x[4] >= 40 THEN 0 ELSE BToNat(BShr(x[3], -x[4]))
           ex == BLowZero(x[3], IF -x[4] > 40 THEN 40 ELSE -x[4])
       IN IF x[2] = 0 THEN FitInt(fl)
          ELSE LET n == fl + (IF ex THEN 0 ELSE 1)
               IN IF n > MaxInt THEN Err("Overflow in entier") ELSE IntV(-n)

\* 26-bit product: either exact in range, or a real
IMul(v, w) ==
  LET a == AbsI(v)  b == AbsI(w)
      s == IF (v < 0) # (w < 0) THEN 1 ELSE 0
  IN IF a < 32768 /\ b < 32768
     THEN LET p == a * b IN IF p <= MaxInt THEN IntV(IF s = 1 THEN -p ELSE p)
                            ELSE Round40(s, BFromNat(p), 0)
     ELSE LET p == BMul(BFromNat(a), BFromNat(b))
          IN IF BLen(p) <= 26 THEN IntV(IF s = 1 THEN -BToNat(p) ELSE BToNat(p))
             ELSE MkReal(s, p, 0, FALSE)

Add(a, b) == IF IsI(a) /\ IsI(b) THEN FitInt(IVal(a[2]) + IVal(b[2]))
             ELSE RAdd(ToReal(a), ToReal(b))
NegNum(a) == IF IsI(a) THEN IntV(IF a[2] = 0 THEN NZ ELSE IF a[2] = NZ THEN 0 ELSE -a[2])
             ELSE NegReal(a)
Sub(a, b) == IF IsI(a) /\ IsI(b) THEN FitInt(IVal(a[2]) - IVal(b[2]))
             ELSE LET y == ToReal(b) IN RAdd(ToReal(a), NegReal(y))
Mul(a, b) == IF IsI(a) /\ IsI(b) THEN IMul(IVal(a[2]), IVal(b[2]))
             ELSE RMul(ToReal(a), ToReal(b))
Div(a, b) == RDiv(ToReal(a), ToReal(b))
\* truncating division of integers
IDiv(a, b) ==
  IF ~IsI(b) \/ ~IsI(a) THEN Err("Need integer, got real")
  ELSE IF IVal(b[2]) = 0 THEN Err("Division by zero")
  ELSE LET q == AbsI(IVal(a[2])) \div AbsI(b[2])
       IN IntV(IF (IVal(a[2]) < 0) # (b[2] < 0) THEN -q ELSE q)
Cmp(a, b) == IF IsI(a) /\ IsI(b)
             THEN LET x == IVal(a[2]) y == IVal(b[2]) IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
             ELSE RCmp(ToReal(a), ToReal(b))
SignOf(a) == IF IsI(a) THEN LET v == IVal(a[2]) IN IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
             ELSE IF a[3] = <<>> THEN 0 ELSE IF a[2] = 1 THEN -1 ELSE 1
AbsNum(a) == IF IsI(a) THEN IntToReal(IF a[2] = NZ THEN 0 ELSE AbsI(a[2]))
             ELSE <<"R", 0, a[3], a[4]>>

(* Powers.  a^i for integers is exact; for i < 0 and for real a it is a     *)
(* product in native precision (64 bits), rounded once.                     *)
RECURSIVE IPow(_, _, _)
IPow(a, n, acc) == IF n = 0 THEN IntV(acc)
                   ELSE LET p == IMul(a, acc) IN IF ~IsI(p) THEN Err("Overflow in integer arithmetic")
                                                 ELSE IPow(a, n - 1, p[2])
IntPow(a, n) == IF a \in {0, 1} THEN IntV(a)
                ELSE IF a = -1 THEN IntV(IF n % 2 = 0 THEN 1 ELSE -1)
                ELSE IF n > 26 THEN Err("Overflow in integer arithmetic")
                ELSE IPow(a, n, 1)
\* native numbers: <<m, e>>, value m * 2^e, m of at most 64 bits
NMul(x, y) == Round64(BMul(x[1], y[1]), x[2] + y[2], FALSE)
RECURSIVE NPow(_, _, _)
NPow(x, n, acc) == IF n = 0 THEN acc
                   ELSE LET a == IF n % 2 = 1 THEN NMul(acc, x) ELSE acc
                        IN IF n \div 2 = 0 THEN a
                           ELSE IF AbsI(a[2]) > 20000 THEN a
                           ELSE IF AbsI(x[2]) > 20000 THEN NMul(a, x)    \* out of range, whatever follows
                           ELSE NPow(NMul(x, x), n \div 2, a)
\* m * 2^e to the power n > 0, of sign s
PowN(s, m, e, n) == LET r == NPow(<<m, e>>, n, <<<<1>>, 0>>)
                    IN Round40(IF s = 1 /\ n % 2 = 1 THEN 1 ELSE 0, r[1], r[2])
Inverse(m, e) == LET q == BDiv(BShl(<<1>>, BLen(m) + 70), m)
                 IN Round64(q[1], -e - BLen(m) - 70, q[2])
Power(a, b) ==
  IF IsI(b)
  THEN LET i == IVal(b[2]) IN
       IF i > 0 THEN IF IsI(a) THEN IntPow(IVal(a[2]), i)
                     ELSE IF a[3] = <<>> THEN RZero(IF a[2] = 1 /\ i % 2 = 1 THEN 1 ELSE 0)
                     ELSE PowN(a[2], a[3], a[4], i)
       ELSE IF SignOf(a) = 0 THEN Err("Undefined power of zero")
       ELSE IF i = 0 THEN IF IsI(a) THEN IntV(1) ELSE IntToReal(1)
       ELSE LET x == ToReal(a)
                v == Inverse(x[3], x[4])
            IN PowN(x[2], v[1], v[2], -i)
  ELSE IF SignOf(a) = 0
       THEN IF SignOf(b) > 0 THEN RZero(0) ELSE Err("Cannot raise zero")
       ELSE IF SignOf(a) < 0 THEN Err("Cannot raise negative value to real power")
       ELSE <<"PW", a, b>>                          \* exp(b * ln(a)): see Elem

(* Square root of a real, to 64 bits and then to 40.                        *)
RECURSIVE BSqrtR(_, _, _)
BSqrtR(n, q, i) ==  \* largest q with q*q <= n, by bits
  IF i < 0 THEN q
  ELSE LET q1 == BAdd(q, BShl(<<1>>, i))
       IN IF BCmp(BMul(q1, q1), n) <= 0 THEN BSqrtR(n, q1, i - 1) ELSE BSqrtR(n, q, i - 1)
Sqrt(a) == LET x == ToReal(a) IN
  IF x[3] = <<>> THEN x
  ELSE IF x[2] = 1 THEN Err("Cannot get square root of negative value")
  ELSE LET sh == IF x[4] % 2 = 0 THEN 100 ELSE 101
           n  == BShl(x[3], sh)
           q  == BSqrtR(n, <<>>, 72)
       IN MkReal(0, q, (x[4] - sh) \div 2, BMul(q, q) # n)
=============================================================================
