------------------------------- MODULE Output -------------------------------
(* What a sequence of output items may look like as text: a predicate on the  *)
(* text printed.                                                              *)
EXTENDS Decimal, Input

\* the positions in text t at which the output items it[i..] may end
RECURSIVE Ends(_, _, _, _, _)

IsPrefixAt(t, p, c) == p + Len(c) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(c) - 1) = c

\* a random number: text of a number in [0, 1)
RECURSIVE NumEnd(_, _)
NumEnd(t, p) == IF p > Len(t) \/ t[p] \in {32, 10} THEN p ELSE NumEnd(t, p + 1)
RndOK(t, p, q) == q > p /\ LET r == ReadNumber(SubSeq(t, p, q - 1), 1)
                           IN r.ok /\ r.pos = q - p + 2 /\ r.val[2] = 0
                              /\ RCmp(r.val, IntToReal(1)) < 0

\* the time of day: clk = <<s0, s1>> are the seconds of the day before and after
\* the run (s1 < s0 when midnight fell into it)
ClkOK(t, p, q, clk) ==
  q > p /\ LET r == ReadNumber(SubSeq(t, p, q - 1), 1)
               lo == RCmp(ToReal(r.val), IntToReal(clk[1])) >= 0
               hi == RCmp(ToReal(r.val), IntToReal(clk[2])) <= 0
           IN r.ok /\ r.pos = q - p + 2 /\ (IF clk[1] <= clk[2] THEN lo /\ hi ELSE lo \/ hi)

ItemEnds(t, p, it, clk) ==
  CASE it[1] = "t" -> IF IsPrefixAt(t, p, it[2]) THEN {p + Len(it[2])} ELSE {}
    [] it[1] = "fix" -> FixtEnds(t, p, it[3], it[4], it[5], it[2])
    [] it[1] = "flo" -> FlotEnds(t, p, it[2], it[3], it[4])
    [] it[1] = "rnd" -> LET q == NumEnd(t, p) IN IF RndOK(t, p, q) THEN {q} ELSE {}
    [] it[1] = "clk" -> LET q == NumEnd(t, p) IN IF ClkOK(t, p, q, clk) THEN {q} ELSE {}

Ends(t, items, i, P, clk) ==
  IF i > Len(items) \/ P = {} THEN [i |-> i, P |-> P]
  ELSE LET Q == UNION {ItemEnds(t, p, items[i], clk) : p \in P}
       IN IF Q = {} THEN [i |-> i, P |-> {}] ELSE Ends(t, items, i + 1, Q, clk)
=============================================================================
