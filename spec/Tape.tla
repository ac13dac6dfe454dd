-------------------------------- MODULE Tape ---------------------------------
(* Library tapes: how a procedure is written down on one, as assembler text,   *)
(* as 7-track rows, as words of the compiler's store and as 5-track rows.      *)
(* A procedure is a sequence of words <<opc, v>>: an operator opc >= 8 (v = 0) *)
(* or a word v with the kind of relocation opc < 8.                            *)
EXTENDS Integers, Sequences, TLC

D15 == 32768
D21 == 2097152
Max27 == 134217727

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144,
          524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912>>
P2(k) == Pow2[k + 1]
BitOf(v, k) == (v \div P2(k)) % 2
\* the n low bits of v, high one first
Bin(v, n) == TLCEval([k \in 1..n |-> BitOf(v, n - k)])
RECURSIVE Num(_, _, _)
\* value of n bits of s from position k on
Num(s, k, n) == IF n = 0 THEN 0 ELSE 2 * Num(s, k, n - 1) + s[k + n - 1]
OnesIn == TLCEval([v \in 0..1023 |-> BitOf(v, 0) + BitOf(v, 1) + BitOf(v, 2) + BitOf(v, 3) + BitOf(v, 4)
                                     + BitOf(v, 5) + BitOf(v, 6) + BitOf(v, 7) + BitOf(v, 8) + BitOf(v, 9)])
\* the number of ones of v (below 2^30)
Ones(v) == IF v < 1024 THEN OnesIn[v] ELSE OnesIn[v % 1024] + OnesIn[(v \div 1024) % 1024] + OnesIn[v \div 1048576]
RECURSIVE FlatFrom(_, _, _)
FlatFrom(ss, k, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN ss[k]
                      ELSE FlatFrom(ss, k, n \div 2) \o FlatFrom(ss, k + n \div 2, n - n \div 2)
\* the members of ss one after the other
Flat(ss, one) == FlatFrom(TLCEval(ss), 1, Len(ss))
Zeroes(n) == [k \in 1..n |-> 0]

(* ------------------------------------------------ the code for words        *)
\* an address: three numbers below 32, frequent ones are shorter
Addr(a) ==
  LET h == (a \div 1024) % 32
      m == (a \div 32) % 32
      l == a % 32
  IN (IF h = 0 THEN <<0>> ELSE <<1>> \o Bin(h, 5))
     \o (CASE m = 0 -> <<0, 0>> [] m = 1 -> <<0, 1, 0, 0>> [] m = 2 -> <<0, 1, 0, 1>> [] m = 4 -> <<0, 1, 1, 0>>
           [] m = 5 -> <<0, 1, 1, 1>> [] OTHER -> <<1>> \o Bin(m, 5))
     \o (CASE l = 1 -> <<0, 0>> [] l = 2 -> <<0, 1, 0>> [] l = 3 -> <<0, 1, 1>> [] OTHER -> <<1>> \o Bin(l, 5))

\* the function parts of orders that have a code of their own: kind of
\* relocation and the 12 bits before the address
Masks == <<<<0, 656>>, <<3, 2192>>, <<2, 2688>>, <<0, 2192>>, <<0, 144>>, <<2, 2176>>, <<1, 2704>>, <<0, 0>>, <<3, 16>>,
           <<2, 2691>>, <<1, 2192>>, <<1, 32>>, <<2, 640>>, <<0, 146>>, <<0, 256>>, <<0, 134>>, <<0, 402>>, <<1, 48>>, <<0, 16>>>>
MaskBits(k) == IF k <= 2 THEN <<1, 0, k - 1>> ELSE IF k <= 4 THEN <<1, 1, 0, k - 3>> ELSE <<1>> \o Bin(k + 43, 6)
MaskOf(opc, m) == IF \E k \in 1..19 : Masks[k] = <<opc, m>> THEN CHOOSE k \in 1..19 : Masks[k] = <<opc, m>> ELSE 20

\* operators: the frequent ones are shorter
Short4 == <<33, 34>>
Short5 == <<16, 56, 58, 85>>
Short6 == <<9, 14, 18, 30>>
Short7 == <<13, 17, 19, 20, 31, 35, 39, 61>>
InSeq(x, s) == \E k \in 1..Len(s) : s[k] = x
Pos(x, s) == CHOOSE k \in 1..Len(s) : s[k] = x
\* the others in order; 85 keeps its place among them
LongTable == SelectSeq([k \in 1..105 |-> k + 7], LAMBDA o : ~(InSeq(o, Short4) \/ (InSeq(o, Short5) /\ o # 85) \/ InSeq(o, Short6) \/ InSeq(o, Short7)))
Long == TLCEval([o \in 8..112 |-> IF InSeq(o, LongTable) THEN Pos(o, LongTable) - 1 ELSE -1])
OpBits(o) ==
  IF InSeq(o, Short4) THEN Bin(Pos(o, Short4) - 1, 4)
  ELSE IF InSeq(o, Short5) THEN Bin(Pos(o, Short5) + 3, 5)
  ELSE IF InSeq(o, Short6) THEN Bin(Pos(o, Short6) + 15, 6)
  ELSE IF InSeq(o, Short7) THEN Bin(Pos(o, Short7) + 39, 7)
  ELSE Bin(384 + Long[o], 10)

WordBits(x) ==
  IF x[1] >= 8 THEN OpBits(x[1])
  ELSE LET m == x[2] \div D15
           k == MaskOf(x[1], m)
       IN MaskBits(k) \o (IF k = 20 THEN Addr(x[1] * 4096 + m) ELSE <<>>) \o Addr(x[2] % D15)

\* reading one word of the bits s from position k on: <<opc, v, next position>>
RAddr(s, k) ==
  LET h == IF s[k] = 0 THEN <<0, k + 1>> ELSE <<Num(s, k + 1, 5), k + 6>>
      i == h[2]
      m == IF s[i] = 1 THEN <<Num(s, i + 1, 5), i + 6>>
           ELSE IF s[i + 1] = 0 THEN <<0, i + 2>>
           ELSE <<(CASE Num(s, i + 2, 2) = 0 -> 1 [] Num(s, i + 2, 2) = 1 -> 2 [] Num(s, i + 2, 2) = 2 -> 4 [] OTHER -> 5), i + 4>>
      j == m[2]
      l == IF s[j] = 1 THEN <<Num(s, j + 1, 5), j + 6>>
           ELSE IF s[j + 1] = 0 THEN <<1, j + 2>>
           ELSE <<2 + s[j + 2], j + 3>>
  IN <<h[1] * 1024 + m[1] * 32 + l[1], l[2]>>
ROp(s, k) ==
  IF s[k + 1] = 0 THEN (IF s[k + 2] = 0 THEN <<Short4[s[k + 3] + 1], 0, k + 4>> ELSE <<Short5[Num(s, k + 3, 2) + 1], 0, k + 5>>)
  ELSE IF s[k + 2] = 0 THEN (IF s[k + 3] = 0 THEN <<Short6[Num(s, k + 4, 2) + 1], 0, k + 6>> ELSE <<Short7[Num(s, k + 4, 3) + 1], 0, k + 7>>)
  ELSE LET n == Num(s, k + 3, 7) + 1
       IN <<(IF n <= Len(LongTable) THEN LongTable[n] ELSE -1), 0, k + 10>>
RWord(s, k) ==
  IF s[k] = 0 THEN ROp(s, k)
  ELSE LET q == IF s[k + 1] = 0 THEN <<s[k + 2] + 1, k + 3>>
                ELSE IF s[k + 2] = 0 THEN <<s[k + 3] + 3, k + 4>>
                ELSE <<Num(s, k + 3, 4) + 5, k + 7>>
           x == IF q[1] < 20 THEN <<Masks[q[1]][1], Masks[q[1]][2], q[2]>>
                ELSE LET a == RAddr(s, q[2]) IN <<a[1] \div 4096, a[1] % 4096, a[2]>>
           b == RAddr(s, x[3])
       IN <<x[1], x[2] * D15 + b[1], b[2]>>

(* ------------------------------------------------ a procedure as bits       *)
\* from the leading one on; the words come last one first
ProcBits(num, ws) ==
  <<1>> \o Bin(Len(ws), 13) \o Bin(num, 13) \o Flat([k \in 1..Len(ws) |-> WordBits(ws[Len(ws) + 1 - k])], 1)
\* filled in front to a multiple of 27
Padded(b) == Zeroes((27 - (Len(b) % 27)) % 27) \o b
Groups(b) == TLCEval([g \in 1..(Len(b) \div 27) |-> SubSeq(b, 27 * g - 26, 27 * g)])
EndGroup == Bin(63, 6) \o Zeroes(21)

\* 7-track rows: four to a group, the first with the bit that makes the number
\* of ones in the group odd
GroupRows(g) ==
  LET h == Num(g, 1, 6)
      r == <<Num(g, 7, 7), Num(g, 14, 7), Num(g, 21, 7)>>
  IN <<2 * h + (1 - ((Ones(h) + Ones(r[1]) + Ones(r[2]) + Ones(r[3])) % 2))>> \o r
Rows(num, ws) ==
  LET gs == Groups(Padded(ProcBits(num, ws))) \o <<EndGroup>>
  IN <<30>> \o Flat([k \in 1..Len(gs) |-> GroupRows(gs[k])], 1)
\* words of the compiler's store, read downwards
Words(num, ws) ==
  LET gs == Groups(Padded(ProcBits(num, ws))) \o <<EndGroup>>
  IN [k \in 1..Len(gs) |-> Num(gs[Len(gs) + 1 - k], 1, 27)]

(* ------------------------------------------------ reading a 7-track tape    *)
Bits6 == TLCEval([v \in 0..255 |-> SubSeq(Bin(v, 8), 2, 7)])
Bits7 == TLCEval([v \in 0..255 |-> SubSeq(Bin(v, 8), 2, 8)])
\* the bits of the groups of rows that begin behind row b
RowBits(rows, b) == Flat([k \in 1..Len(rows) - b |-> IF k % 4 = 1 THEN Bits6[rows[b + k] % 256] ELSE Bits7[rows[b + k] % 256]], 1)
\* rows needed for n bits
RowsFor(n) == LET j == n % 27 IN 4 * (n \div 27) + (IF j = 0 THEN 0 ELSE IF j <= 6 THEN 1 ELSE 2 + (j - 7) \div 7)
\* the reader keeps at least 21 bits ahead of what is used
Fetched(c) == RowsFor(c + 21)
\* number of groups behind row b with the right parity before the first without
RECURSIVE GoodGroups(_, _, _)
GoodGroups(rows, b, g) ==
  IF b + 4 > Len(rows) \/ (OnesIn[rows[b + 1] % 256] + OnesIn[rows[b + 2] % 256] + OnesIn[rows[b + 3] % 256] + OnesIn[rows[b + 4] % 256]) % 2 = 0 THEN g
  ELSE GoodGroups(rows, b + 4, g + 1)
RECURSIVE SkipZeros(_, _)
SkipZeros(rows, i) == IF i > Len(rows) \/ rows[i] # 0 THEN i ELSE SkipZeros(rows, i + 1)
RECURSIVE FirstOne(_, _)
FirstOne(s, k) == IF k > Len(s) THEN k ELSE IF s[k] = 1 THEN k ELSE FirstOne(s, k + 1)
RECURSIVE TwoBlanks(_, _)
\* behind the next two blank rows in succession
TwoBlanks(rows, i) ==
  IF i >= Len(rows) THEN Len(rows) + 1
  ELSE IF rows[i] = 0 THEN (IF rows[i + 1] = 0 THEN i + 2 ELSE TwoBlanks(rows, i + 2))
  ELSE TwoBlanks(rows, i + 1)
RECURSIVE ReadWords(_, _, _, _)
\* n words of s from k on, first one read last: <<words, next>>, or <<>>
ReadWords(s, k, n, ws) ==
  IF n = 0 THEN <<ws, k>>
  ELSE IF k + 40 > Len(s) THEN <<>>
  ELSE LET x == RWord(s, k) IN ReadWords(s, x[3], n - 1, <<<<x[1], x[2]>>>> \o ws)
\* bits in k rows
BitsIn(k) == 27 * (k \div 4) + (CASE k % 4 = 0 -> 0 [] k % 4 = 1 -> 6 [] k % 4 = 2 -> 13 [] OTHER -> 20)
\* The part of a tape from row i on: [kind |-> "end" | "error" | "skip" | "proc",
\* num, ws, next]; need is the set of numbers wanted. A row is a number below
\* 128; a tape may break off (junk), and an error is met only where it is read.
Part(rows, junk, i, need) ==
  LET b == SkipZeros(rows, i)
      No(k) == [kind |-> k, num |-> 0, ws |-> <<>>, next |-> 0]
      n == BitsIn(Len(rows) - b)
      s == RowBits(rows, b) \o Zeroes(64)
      good == GoodGroups(rows, b, 0)
      f == FirstOne(s, 1)
      len == Num(s, f + 1, 13)
      num == Num(s, f + 14, 13)
      c0 == f + 26
      Fetch(c) == /\ b + Fetched(c) <= Len(rows) /\ (Fetched(c) - 1) \div 4 <= good    \* noticed when the next group begins
                  /\ \A j \in b + 1..b + Fetched(c) : rows[j] < 128
  IN IF b > Len(rows) THEN No(IF junk THEN "error" ELSE "end")
     ELSE IF rows[b] # 30 \/ f + 13 > n \/ ~Fetch(f + 13) THEN No("error")
     ELSE IF len >= 7680 THEN No("end")
     ELSE IF c0 > n \/ ~Fetch(c0) \/ num > 50 \/ len = 0 \/ len > 1024 THEN No("error")
     ELSE IF num \notin need
       THEN LET e == TwoBlanks(rows, b + Fetched(c0) + 1)
            IN IF \E j \in b + 1..e - 1 : rows[j] > 127 THEN No("error")
               ELSE [kind |-> "skip", num |-> num, ws |-> <<>>, next |-> e]
     ELSE LET r == ReadWords(s, c0 + 1, len, <<>>)
          IN IF r = <<>> THEN No("error")
             ELSE LET c == r[2] - 1
                      k == Fetched(c)
                  IN IF ~Fetch(c) \/ Num(s, c + 1, 21) # 63 * 32768 \/ (\E j \in c + 22..BitsIn(k) : s[j] = 1) THEN No("error")
                     ELSE [kind |-> "proc", num |-> num, ws |-> r[1], next |-> b + k + 1]

(* ------------------------------------------------ 5-track tapes             *)
\* rows of five bits. A word with a frequent function part takes five of them,
\* another one seven, an operator two; each has even parity.
Short5t == <<0, 144, 640, 656, 2176, 2192, 2688, 2704, 2691, 256>>
Rows5Of(v, n) == [k \in 1..n |-> (v \div P2(5 * (n - k))) % 32]
Even(v) == Ones(v) % 2
Word5(x) ==
  IF x[1] >= 8 THEN LET v == 256 + x[1] IN Rows5Of(v + 512 * Even(v), 2)
  ELSE LET m == x[2] \div D15
           v == (IF InSeq(m, Short5t) THEN Pos(m, Short5t) * 131072 ELSE 0) + x[1] * D15 + (x[2] % D15)
       IN IF InSeq(m, Short5t) THEN Rows5Of(v + 16777216 * Even(v), 5)
          ELSE <<4 + 16 * ((1 + Ones(x[2]) + Ones(x[1])) % 2)>> \o Rows5Of(x[1] * 4 + x[2] \div 33554432, 1) \o Rows5Of(x[2] % 33554432, 5)
Head5(num, n) == Rows5Of(n + 16384 * Even(n), 3) \o Rows5Of(num + 512 * Even(num), 2)
Rows5(num, ws) == <<31>> \o Head5(num, Len(ws)) \o Flat([k \in 1..Len(ws) |-> Word5(ws[k])], 1)

\* what the rows r say: the words in order, each <<opc, v, fine>>, up to the
\* point where the tape ends or cannot be understood
Bad5(r, k, n) == k + n - 1 > Len(r) \/ \E j \in k..k + n - 1 : r[j] < 0 \/ r[j] > 31
RECURSIVE Sum5(_, _, _, _)
Sum5(r, k, n, v) == IF n = 0 THEN v ELSE Sum5(r, k + 1, n - 1, v * 32 + r[k])
Par5(r, k, n) == (LET f[j \in 0..n] == IF j = 0 THEN 0 ELSE f[j - 1] + Ones(r[k + j - 1]) IN f[n]) % 2 = 0
RECURSIVE Read5(_, _, _, _)
Read5(r, k, n, out) ==
  IF n = 0 THEN [end |-> "ok", ws |-> out]
  ELSE IF Bad5(r, k, 1) THEN [end |-> "short", ws |-> out]
  ELSE IF BitOf(r[k], 3) = 1
    THEN IF Bad5(r, k, 2) THEN [end |-> "short", ws |-> out]
         ELSE Read5(r, k + 2, n - 1, Append(out, <<(r[k] % 4) * 32 + r[k + 1], -1, Par5(r, k, 2)>>))
  ELSE IF BitOf(r[k], 2) = 1
    THEN IF Bad5(r, k, 7) THEN [end |-> "short", ws |-> out]
         ELSE Read5(r, k + 7, n - 1, Append(out, <<(r[k + 1] \div 4) % 4, (r[k + 1] % 4) * 33554432 + Sum5(r, k + 2, 5, 0), Par5(r, k, 7)>>))
  ELSE IF Bad5(r, k, 5) THEN [end |-> "short", ws |-> out]
  ELSE LET v == Sum5(r, k, 5, 0)
           c == (v \div 131072) % 32
       IN IF c \notin 1..10 THEN [end |-> "unknown", ws |-> out]
          ELSE Read5(r, k + 5, n - 1, Append(out, <<(v \div D15) % 4, Short5t[c] * D15 + (v % D15), Par5(r, k, 5)>>))
\* a whole tape: [end, num, len, ws]
Tape5(r) ==
  LET no(e) == [end |-> e, num |-> 0, len |-> 0, ws |-> <<>>]
  IN IF r = <<>> \/ r[1] # 31 THEN no("header")
     ELSE IF Bad5(r, 2, 5) THEN no("short")
     ELSE IF ~Par5(r, 2, 3) \/ ~Par5(r, 5, 2) THEN no("parity")
     ELSE LET n == Sum5(r, 2, 3, 0) % 16384
              x == Read5(r, 7, n, <<>>)
          IN [end |-> x.end, num |-> Sum5(r, 5, 2, 0) % 512, len |-> n, ws |-> x.ws]

(* ------------------------------------------------ assembler text            *)
\* Lines "offset opc [word]", offsets counting from 0; a line that begins with
\* anything else is a comment, as is what follows on a line. Offset and word
\* may be written octal (leading 0) or hexadecimal (0x).
Blank == {9, 10, 11, 12, 13, 32}
RECURSIVE SkipBlank(_, _)
SkipBlank(l, k) == IF k > Len(l) \/ l[k] \notin Blank THEN k ELSE SkipBlank(l, k + 1)
DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RECURSIVE Digits(_, _, _, _)
\* <<value, next>>, the value cut at 2^28
Digits(l, k, base, v) ==
  IF k > Len(l) \/ DigitVal(l[k]) >= base THEN <<v, k>>
  ELSE Digits(l, k + 1, base, IF v >= 268435456 THEN v ELSE IF v * base + DigitVal(l[k]) > 268435456 THEN 268435456 ELSE v * base + DigitVal(l[k]))
\* the number in l from k on: <<value, next>>, next = k where there is none
Number(l, k, decimal) ==
  LET a == SkipBlank(l, k)
      neg == a <= Len(l) /\ l[a] = 45
      b == IF a <= Len(l) /\ l[a] \in {43, 45} THEN a + 1 ELSE a
      hex == ~decimal /\ b + 2 <= Len(l) /\ l[b] = 48 /\ l[b + 1] \in {88, 120} /\ DigitVal(l[b + 2]) < 16
      oct == ~decimal /\ b <= Len(l) /\ l[b] = 48
      r == IF hex THEN Digits(l, b + 2, 16, 0) ELSE Digits(l, b, IF oct THEN 8 ELSE 10, 0)
  IN IF r[2] = b THEN <<0, k>> ELSE <<(IF neg THEN -r[1] ELSE r[1]), r[2]>>
RECURSIVE TextLines(_, _, _, _)
TextLines(t, k, b, ls) ==
  IF k > Len(t) THEN (IF b > Len(t) THEN ls ELSE Append(ls, SubSeq(t, b, Len(t))))
  ELSE IF t[k] = 10 THEN TextLines(t, k + 1, k + 1, Append(ls, SubSeq(t, b, k - 1)))
  ELSE TextLines(t, k + 1, b, ls)
RECURSIVE Assemble(_, _, _)
\* [ok, ws] of the lines from k on
Assemble(ls, k, ws) ==
  IF k > Len(ls) THEN [ok |-> TRUE, ws |-> ws]
  ELSE LET l == ls[k]
           o == Number(l, 1, FALSE)
           c == Number(l, o[2], TRUE)
           v == Number(l, c[2], FALSE)
           no == [ok |-> FALSE, ws |-> ws]
       IN IF o[2] = 1 THEN Assemble(ls, k + 1, ws)
          ELSE IF o[1] # Len(ws) \/ c[2] = o[2] \/ c[1] < 0 \/ c[1] > 112 THEN no
          ELSE IF c[1] >= 8 THEN Assemble(ls, k + 1, Append(ws, <<c[1], 0>>))
          ELSE IF v[2] = c[2] \/ v[1] < 0 \/ v[1] > Max27 THEN no
          ELSE Assemble(ls, k + 1, Append(ws, <<c[1], v[1]>>))
Text(t) == Assemble(TextLines(t, 1, 1, <<>>), 1, <<>>)
===============================================================================
