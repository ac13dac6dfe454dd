------------------------------- MODULE Input --------------------------------
(* The input of a program: numbers (read), symbols (RESYM), the console      *)
(* switches (XEEN); and the text that is printed for a symbol (PRSYM).       *)
(* Texts are sequences of byte codes; positions count from 1.                *)
EXTENDS Decimal

LF == 10
At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
IsSpace(c) == c \in {32, 9, 10, 11, 12, 13}
IsTenAt(t, i) == i + 2 <= Len(t) /\ t[i] = 226 /\ t[i + 1] = 143 /\ t[i + 2] = 168
IsE(t, i) == At(t, i) \in {69, 101} \/ IsTenAt(t, i)
ELen(t, i) == IF IsTenAt(t, i) THEN 3 ELSE 1

RECURSIVE SkipSpace(_, _)
SkipSpace(t, i) == IF IsSpace(At(t, i)) THEN SkipSpace(t, i + 1) ELSE i
RECURSIVE SkipDigits(_, _)
SkipDigits(t, i) == IF IsDigit(At(t, i)) THEN SkipDigits(t, i + 1) ELSE i

RECURSIVE NatOf(_, _, _, _)
NatOf(t, a, b, acc) == IF a > b THEN acc
                       ELSE NatOf(t, a + 1, b, IF acc > 100000 THEN acc ELSE acc * 10 + t[a] - 48)
Sg(t, i) == IF At(t, i) = MINUS THEN 1 ELSE 0

\* The number at position i0, after any white space:
\*    [sign] digits [. digits] [ten [sign] digits]
\* A symbol that follows it is skipped: a number is ended by a separator.
ReadNumber(t, i0) ==
  LET i  == SkipSpace(t, i0)
      i1 == IF At(t, i) \in {PLUS, MINUS} THEN i + 1 ELSE i
      i2 == SkipDigits(t, i1)
      pt == At(t, i2) = POINT
      i3 == IF pt THEN i2 + 1 ELSE i2
      i4 == IF pt THEN SkipDigits(t, i3) ELSE i3
      nd == (i2 - i1) + (i4 - i3)
      ex == nd > 0 /\ IsE(t, i4)
      j  == IF ex THEN i4 + ELen(t, i4) ELSE i4
      j1 == IF ex /\ At(t, j) \in {PLUS, MINUS} THEN j + 1 ELSE j
      j2 == IF ex THEN SkipDigits(t, j1) ELSE j1
      dg == DigitsAt(t, i1, i2 - 1) \o DigitsAt(t, i3, i4 - 1)
      xv == IF ex THEN (IF Sg(t, j) = 1 THEN -1 ELSE 1) * NatOf(t, j1, j2 - 1, 0) ELSE 0
      sc == xv - (i4 - i3)
      v  == IF BFromDigits(dg) = <<>> THEN RZero(Sg(t, i))
            ELSE IF sc + Len(dg) > 1000 THEN Err("Overflow in real arithmetic")
            ELSE IF sc + Len(dg) < -1000 THEN RZero(Sg(t, i))
            ELSE DecReal(Sg(t, i), dg, sc)
  IN IF i > Len(t) THEN [ok |-> FALSE, val |-> Err("No input"), pos |-> i]
     ELSE IF nd = 0 \/ (ex /\ j2 = j1) THEN [ok |-> FALSE, val |-> Err("Bad input"), pos |-> j2]
     ELSE IF IsErr(v) THEN [ok |-> FALSE, val |-> v, pos |-> j2]
     ELSE [ok |-> TRUE, val |-> v, pos |-> j2 + 1]

(* --------------------- symbols (doc/algol-encoding.md) ------------------ *)
\* code |-> bytes, for the symbols that can be both read and printed
Special == {
  <<64, <<43>>>>, <<65, <<45>>>>, <<66, <<195, 151>>>>, <<67, <<47>>>>, <<68, <<195, 183>>>>,
  <<69, <<226, 134, 145>>>>, <<70, <<62>>>>, <<71, <<226, 137, 165>>>>, <<72, <<61>>>>,
  <<73, <<226, 137, 164>>>>, <<74, <<60>>>>, <<75, <<226, 137, 160>>>>, <<76, <<194, 172>>>>,
  <<77, <<226, 136, 167>>>>, <<78, <<226, 136, 168>>>>, <<79, <<226, 138, 131>>>>,
  <<80, <<226, 137, 161>>>>, <<87, <<44>>>>, <<88, <<46>>>>, <<89, <<226, 143, 168>>>>,
  <<90, <<58>>>>, <<91, <<59>>>>, <<93, <<32>>>>, <<98, <<40>>>>, <<99, <<41>>>>,
  <<100, <<91>>>>, <<101, <<93>>>>, <<102, <<96>>>>, <<103, <<39>>>>, <<118, <<9>>>>,
  <<119, <<10>>>>, <<121, <<34>>>>, <<122, <<63>>>> }
\* read only
ReadAlso == { <<66, <<42>>>>, <<89, <<64>>>>, <<162, <<124>>>>, <<163, <<95>>>> }
\* printed only
PrintAlso == { <<92, <<58, 61>>>> }
Undefined == <<226, 142, 149>>           \* what is printed for a code without symbol

AlnumCode(c) == IF c >= 48 /\ c <= 57 THEN c - 48
                ELSE IF c >= 97 /\ c <= 122 THEN c - 87
                ELSE IF c >= 65 /\ c <= 90 THEN c - 28 ELSE -1
AlnumByte(n) == IF n <= 9 THEN n + 48 ELSE IF n <= 35 THEN n + 87 ELSE n + 28

\* The text of symbol n
SymbolText(n) ==
  IF n \in 0..127 /\ n \in (0..35) \cup (37..62) THEN <<AlnumByte(n)>>
  ELSE IF \E x \in Special \cup PrintAlso : x[1] = n
       THEN (CHOOSE x \in Special \cup PrintAlso : x[1] = n)[2]
       ELSE Undefined

EndOfInput == 255
RECURSIVE ReadSymbol(_, _)
ReadSymbol(t, i) ==
  IF i > Len(t) THEN [ok |-> TRUE, sym |-> EndOfInput, pos |-> i]
  ELSE IF t[i] = 13 THEN ReadSymbol(t, i + 1)
  ELSE IF AlnumCode(t[i]) >= 0 THEN [ok |-> TRUE, sym |-> AlnumCode(t[i]), pos |-> i + 1]
  ELSE LET c == {x \in Special \cup ReadAlso : i + Len(x[2]) - 1 <= Len(t)
                                               /\ SubSeq(t, i, i + Len(x[2]) - 1) = x[2]}
       IN IF c # {} THEN LET x == CHOOSE y \in c : TRUE
                         IN [ok |-> TRUE, sym |-> x[1], pos |-> i + Len(x[2])]
          ELSE [ok |-> FALSE, sym |-> 0, pos |-> i]

(* --------------------------- console switches --------------------------- *)
\* one line with a binary number
RECURSIVE LineEnd(_, _)
LineEnd(t, i) == IF i > Len(t) \/ t[i] = LF THEN i ELSE LineEnd(t, i + 1)
RECURSIVE BinOf(_, _, _, _)
BinOf(t, a, b, acc) == IF a > b THEN acc ELSE BinOf(t, a + 1, b, 2 * acc + t[a] - 48)
ReadSwitches(t, i) ==
  LET e == LineEnd(t, i)
      f == IF e > i /\ t[e - 1] = 13 THEN e - 1 ELSE e
  IN IF i > Len(t) \/ f = i \/ f - i > 27 \/ \E k \in i..(f - 1) : t[k] \notin {48, 49}
     THEN [ok |-> FALSE, val |-> 0, pos |-> e + 1]
     ELSE [ok |-> TRUE, val |-> BinOf(t, i, f - 1, 0), pos |-> e + 1]

\* bit by bit collation of the switches with an integer, both as words of 27
\* bits in ones' complement; a zero counts as 27 ones
Ones27 == 134217727
RECURSIVE AndNat(_, _)
AndNat(a, b) == IF a = 0 \/ b = 0 THEN 0
                ELSE (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0) + 2 * AndNat(a \div 2, b \div 2)
WordOf(v) == IF v = NZ THEN Ones27 ELSE IF v < 0 THEN Ones27 + v ELSE v
OfWord(w) == IF w = Ones27 THEN NZ ELSE IF w > MaxInt THEN w - Ones27 ELSE w
AndInt(a, v) == OfWord(AndNat(a, IF v = 0 THEN Ones27 ELSE WordOf(v)))

(* ---------------------------- square root ------------------------------- *)
\* floor of the root of n, by bits: r*r <= n, r < 2^(k+1)
RECURSIVE BRoot(_, _, _)
BRoot(n, k, r) == IF k < 0 THEN r
                  ELSE LET r1 == BAdd(r, BShl(<<1>>, k))
                       IN BRoot(n, k - 1, IF BCmp(BMul(r1, r1), n) <= 0 THEN r1 ELSE r)
\* root of a positive real, correctly rounded to native precision, then 40 bits
SqrtReal(x) ==
  LET e0 == IF x[4] % 2 = 0 THEN 96 ELSE 97
      n  == BShl(x[3], e0)                       \* 136 or 137 bits
      r  == BRoot(n, 68, <<>>)
      st == BMul(r, r) # n
  IN MkReal(0, r, (x[4] - e0) \div 2, st)
=============================================================================
