-------------------------------- MODULE Elem --------------------------------
(* The elementary functions, computed with some hundred bits in fixed point, *)
(* and rounded to the 40 bits of the X1.  A value so close to the middle     *)
(* between two reals that an evaluation with 50 correct bits may round       *)
(* either way is undetermined: Err("open").                                  *)
(* Fixed point: a natural number N stands for N / 2^p.                       *)
EXTENDS X1Num

OPEN == Err("open")
One(p) == BShl(<<1>>, p)
FDiv(a, b, p) == BDiv(BShl(a, p), b)[1]
FMul(a, b, p) == BShr(BMul(a, b), p)
Small(a, n) == BDivSmall(a, n)[1]
\* an exact dyadic m * 2^e in fixed point
Fix(m, e, p) == IF e + p >= 0 THEN BShl(m, e + p) ELSE BShr(m, -(e + p))

\* (-1)^s * N * 2^e, known to 50 bits
Approx(s, N, e) ==
  IF N = <<>> THEN RZero(s)
  ELSE LET w  == BShl(N, 64)
           d  == BShl(N, 14)                    \* N * 2^64 * 2^-50
           lo == MkReal(s, BSub(w, d), e - 64, TRUE)
           hi == MkReal(s, BAdd(w, d), e - 64, TRUE)
       IN IF lo = hi THEN lo ELSE IF IsErr(lo) /\ IsErr(hi) THEN lo ELSE OPEN

\* sum over k of (-1)^k t^(2k+1) / (2k+1)
RECURSIVE AtanR(_, _, _, _, _, _)
AtanR(pw, t2, n, p, alt, acc) ==
  LET q == Small(pw, n) IN
  IF q = <<>> THEN acc
  ELSE AtanR(FMul(pw, t2, p), t2, n + 2, p, ~alt, IF alt THEN BSub(acc, q) ELSE BAdd(acc, q))
AtanSmall(t, p) == AtanR(t, FMul(t, t, p), 1, p, FALSE, <<>>)
\* sum over k of t^(2k+1) / (2k+1)
RECURSIVE AtanhR(_, _, _, _, _)
AtanhR(pw, t2, n, p, acc) ==
  LET q == Small(pw, n) IN
  IF q = <<>> THEN acc ELSE AtanhR(FMul(pw, t2, p), t2, n + 2, p, BAdd(acc, q))
Atanh(t, p) == AtanhR(t, FMul(t, t, p), 1, p, <<>>)

\* arctan(1 / n) and pi
RECURSIVE AtanInvR(_, _, _, _, _)
AtanInvR(pw, nn, k, alt, acc) ==
  LET q == Small(pw, k) IN
  IF q = <<>> THEN acc
  ELSE AtanInvR(Small(pw, nn), nn, k + 2, ~alt, IF alt THEN BSub(acc, q) ELSE BAdd(acc, q))
AtanInv(n, p) == AtanInvR(Small(One(p), n), n * n, 1, FALSE, <<>>)
PiBits == 2500
Pi == BSub(BMulSmall(AtanInv(5, PiBits), 16), BMulSmall(AtanInv(239, PiBits), 4))
PiP(p) == BShr(Pi, PiBits - p)
LnBits == 460
Ln2 == BMulSmall(Atanh(FDiv(<<1>>, <<3>>, LnBits), LnBits), 2)
AtanHalf(p) == AtanInv(2, p)

\* 0 <= t <= 1
Atan01(t, p) == IF BCmp(BMulSmall(t, 2), One(p)) <= 0 THEN AtanSmall(t, p)
                ELSE BAdd(AtanHalf(p),
                          AtanSmall(FDiv(BSub(t, BShr(One(p), 1)), BAdd(One(p), BShr(t, 1)), p), p))
Arctan(x) ==
  LET s == x[2]  m == x[3]  e == x[4]  p == 400 IN
  IF m = <<>> THEN x
  ELSE IF e + 40 < -60 THEN x
  ELSE IF e + 40 > 120 THEN Approx(s, BShr(PiP(p), 1), -p)
  ELSE LET t == Fix(m, e, p) IN
       IF BCmp(t, One(p)) <= 0 THEN Approx(s, Atan01(t, p), -p)
       ELSE Approx(s, BSub(BShr(PiP(p), 1), Atan01(FDiv(One(p), t, p), p)), -p)

\* ln of m * 2^e, as <<s, N>> in fixed point LnBits - 20
LnFix(m, e) ==
  LET p  == LnBits
      k0 == e + BLen(m)
      y0 == Fix(m, -BLen(m), p)                       \* in [1/2, 1)
      \* to [3/4, 3/2)
      lw == BCmp(BMulSmall(y0, 4), BMulSmall(One(p), 3)) < 0
      y  == IF lw THEN BShl(y0, 1) ELSE y0
      k  == IF lw THEN k0 - 1 ELSE k0
      ng == BCmp(y, One(p)) < 0
      z  == FDiv(IF ng THEN BSub(One(p), y) ELSE BSub(y, One(p)), BAdd(One(p), y), p)
      l  == BMulSmall(Atanh(z, p), 2)
      kl == BMulSmall(Ln2, IF k < 0 THEN -k ELSE k)
  IN IF k = 0 THEN <<IF ng THEN 1 ELSE 0, l>>
     ELSE IF (k < 0) = ng THEN <<IF k < 0 THEN 1 ELSE 0, BAdd(kl, l)>>
     ELSE <<IF k < 0 THEN 1 ELSE 0, BSub(kl, l)>>
Ln(x) == IF x[3] = <<>> \/ x[2] = 1 THEN Err("Cannot get logarithm")
         ELSE LET l == LnFix(x[3], x[4]) IN Approx(l[1], l[2], -LnBits)

\* exp of a natural fixed point number (p bits): <<N, e>>
RECURSIVE ExpR(_, _, _, _, _)
ExpR(term, t, n, p, acc) ==
  LET q == Small(FMul(term, t, p), n) IN
  IF q = <<>> THEN acc ELSE ExpR(q, t, n + 1, p, BAdd(acc, q))
ExpFix(t, p) ==                                       \* t < 4000 * 2^p, p <= LnBits
  LET l2 == BShr(Ln2, LnBits - p)
      n  == BToNat(BDiv(t, l2)[1])
      r  == BSub(t, BMulSmall(l2, n))
  IN <<ExpR(One(p), r, 1, p, One(p)), n - p>>
ExpOf(s, t, p) ==                                     \* exp((-1)^s * t / 2^p)
  IF BCmp(t, BShl(<<4000>>, p)) >= 0
  THEN (IF s = 1 THEN RZero(0) ELSE Err("Overflow in real arithmetic"))
  ELSE LET v == ExpFix(t, p) IN
       IF s = 0 THEN Approx(0, v[1], v[2])
       ELSE LET q == BDiv(One(BLen(v[1]) + 200), v[1])[1]
            IN Approx(0, q, -(BLen(v[1]) + 200) - v[2])
Exp(x) == IF x[3] = <<>> THEN IntToReal(1)
          ELSE IF x[4] + 40 > 13
          THEN (IF x[2] = 1 THEN RZero(0) ELSE Err("Overflow in real arithmetic"))
          ELSE ExpOf(x[2], Fix(x[3], x[4], 400), 400)

\* a to the real power b, for a > 0
RealPower(a, b) ==
  IF b[3] = <<>> THEN IntToReal(1)
  ELSE LET l == LnFix(a[3], a[4])
           s == IF l[1] = b[2] THEN 0 ELSE 1
           \* (more than 4000 in size: out of range anyway)
           t == BMul(l[2], b[3])
           x == BLen(t) + b[4] - LnBits
       IN IF l[2] = <<>> THEN IntToReal(1)
          ELSE IF x > 13 THEN (IF s = 1 THEN RZero(0) ELSE Err("Overflow in real arithmetic"))
          ELSE ExpOf(s, Fix(t, b[4] - LnBits, 400), 400)

\* sine of 0 <= r <= 1, in fixed point
RECURSIVE SinR(_, _, _, _, _, _)
SinR(term, r2, n, p, alt, acc) ==
  LET q == Small(Small(FMul(term, r2, p), n), n + 1) IN
  IF q = <<>> THEN acc
  ELSE SinR(q, r2, n + 2, p, ~alt, IF alt THEN BAdd(acc, q) ELSE BSub(acc, q))
SinFix(r, p) == SinR(r, FMul(r, r, p), 2, p, FALSE, r)
CosFix(r, p) == SinR(One(p), FMul(r, r, p), 1, p, FALSE, One(p))

\* sine of a positive angle plus k right angles: <<s, N>> in 400 bits
SinQ(m, e, k) ==
  LET p  == 400
      P  == IF e > 0 THEN e + 40 + p ELSE p
      h  == BShr(PiP(P), 1)                            \* a right angle
      X  == Fix(m, e, P)
      d  == BDiv(X, h)
      r0 == BSub(X, BMul(d[1], h))
      q  == (BBit(d[1], 0) + 2 * BBit(d[1], 1) + k) % 4
      hi == BCmp(BShl(r0, 1), h) > 0
      r  == BShr(IF hi THEN BSub(h, r0) ELSE r0, P - p)
      \* quadrants 0, 2: sine of r0; 1, 3: cosine of r0
      useSin == (q % 2 = 0) # hi
  IN <<q \div 2, IF useSin THEN SinFix(r, p) ELSE CosFix(r, p)>>
Sin(x) == IF x[3] = <<>> \/ x[4] + 40 < -60 THEN x
          ELSE LET v == SinQ(x[3], x[4], 0) IN Approx((x[2] + v[1]) % 2, v[2], -400)
Cos(x) == IF x[3] = <<>> \/ x[4] + 40 < -60 THEN IntToReal(1)
          ELSE LET v == SinQ(x[3], x[4], 1) IN Approx(v[1], v[2], -400)
PowerFull(a, b) == LET r == Power(a, b) IN IF r[1] = "PW" THEN RealPower(ToReal(a), ToReal(b)) ELSE r
Elementary(name, a) ==
  LET x == ToReal(a) IN
  CASE name = "sin" -> Sin(x) [] name = "cos" -> Cos(x) [] name = "arctan" -> Arctan(x)
    [] name = "ln" -> Ln(x) [] name = "exp" -> Exp(x)
=============================================================================
