------------------------------- MODULE Lexer ---------------------------------
(* How a source text stands for a sequence of basic symbols (tokens).           *)
(* A text is a sequence of code points.  Underlining is written by `_` in front *)
(* of a character or by U+0332 behind it.  A token is a record                  *)
(*    [k |-> kind, v |-> value, n |-> where the text goes on]                   *)
(* kinds: "word" (underlined word), "name" (the significant characters of an    *)
(* identifier), "num" (digits, point, ten and sign), "str" (what stands between *)
(* the outermost quotes), "op" (a single symbol, by its code point or one of    *)
(* the pairs below), "eof", "error" (the text is refused), "open" (nothing is   *)
(* said about texts like this).                                                 *)
EXTENDS Integers, Sequences, TLC

Layout == {32, 9, 10}
Lower == 97..122
Upper == 65..90
Digit == 48..57
Letter == Lower \cup Upper
Under == 95
Combining == 818
Ten == 9192
Significant == 9

\* the symbols with one character of their own, by the code point they are named with
Single(c) ==
  CASE c \in {43, 45, 47, 62, 61, 60, 44, 59, 40, 41, 91, 93, 34, 63} -> c      \* + - / > = < , ; ( ) [ ] " ?
    [] c \in {42, 215} -> 215                     \* * and the cross
    [] c = 247 -> 247                             \* integer division
    [] c = 8593 -> 8593                           \* to the power
    [] c \in {8800, 8801, 8804, 8805, 8835} -> c  \* not equal, equivalent, at most, at least, implies
    [] c \in {172, 8743, 8744} -> c               \* not, and, or
    [] OTHER -> 0
\* underlined characters that are symbols
Underlined(c) == CASE c = 62 -> 8805 [] c = 60 -> 8804 [] c = 61 -> 8801 [] c = 172 -> 8835 [] c = 58 -> 247 [] OTHER -> 0
\* characters behind a stroke
Struck(c) == CASE c = 8743 -> 8593 [] c = 61 -> 8800 [] c = 60 -> 96 [] c = 62 -> 39 [] OTHER -> 0
Assign == 1000          \* the symbol := ; the colon itself is 58
Known(c) == c \in Layout \cup Letter \cup Digit \cup {Under, 58, 124, 46, 64, 96, 39, Ten} \/ Single(c) # 0

\* the character at i: [c, u: underlined, n: behind it]; c = -1 at the end
RECURSIVE Sym(_, _)
Sym(t, i) ==
  IF i > Len(t) THEN [c |-> -1, u |-> FALSE, n |-> i]
  ELSE IF t[i] = Under THEN [Sym(t, i + 1) EXCEPT !.u = TRUE]
  ELSE IF i < Len(t) /\ t[i + 1] = Combining /\ t[i] < 128 THEN [c |-> t[i], u |-> TRUE, n |-> i + 2]
  ELSE [c |-> t[i], u |-> FALSE, n |-> i + 1]

\* ------------------------------------------------------------------- words
Begin == <<98, 101, 103, 105, 110>>
End == <<101, 110, 100>>
Else == <<101, 108, 115, 101>>
Comment == <<99, 111, 109, 109, 101, 110, 116>>
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
For == <<102, 111, 114>>
Declarators == {<<111, 119, 110>>,                                      \* own
  <<105, 110, 116, 101, 103, 101, 114>>, <<114, 101, 97, 108>>,         \* integer real
  <<66, 111, 111, 108, 101, 97, 110>>, <<97, 114, 114, 97, 121>>,       \* Boolean array
  <<115, 119, 105, 116, 99, 104>>,                                      \* switch
  <<112, 114, 111, 99, 101, 100, 117, 114, 101>>,                       \* procedure
  <<118, 97, 108, 117, 101>>, <<108, 97, 98, 101, 108>>,                \* value label
  <<115, 116, 114, 105, 110, 103>>}                                     \* string
Words == Declarators \cup {Begin, End, Else, Comment, True, False, For,
  <<105, 102>>, <<116, 104, 101, 110>>, <<100, 111>>,                   \* if then do
  <<115, 116, 101, 112>>, <<117, 110, 116, 105, 108>>,                  \* step until
  <<119, 104, 105, 108, 101>>, <<103, 111, 116, 111>>}                  \* while goto
\* no word begins with these letters
NoWord == {104, 106, 107, 109, 110, 113, 120, 121, 122} \cup (Upper \ {66})
\* words with these first letters need a second one
Two == {98, 101, 102, 105, 115, 116}

RECURSIVE Run(_, _, _)
Run(t, i, w) == LET s == Sym(t, i) IN IF s.u THEN Run(t, s.n, Append(w, s.c)) ELSE [w |-> w, n |-> i]

\* the first position from i on that satisfies P, or behind the text
First(t, i, P(_)) == CHOOSE x \in i..(Len(t) + 1) : (x = Len(t) + 1 \/ P(x)) /\ \A y \in i..(x - 1) : ~P(y)

\* ------------------------------------------------------------- names, numbers
Marked(t, x) == x < Len(t) /\ t[x + 1] = Combining
Upto(w, n) == IF Len(w) <= n THEN w ELSE SubSeq(w, 1, n)
Name(t, i) ==
  LET e == First(t, i, LAMBDA x : t[x] \notin Letter \cup Digit \cup Layout \/ Marked(t, x))
  IN [k |-> "name", v |-> Upto(SelectSeq(SubSeq(t, i, e - 1), LAMBDA c : c \notin Layout), Significant), n |-> e]

IsTen(c) == c \in {64, Ten}
Number(t, i) ==
  LET \* directly behind a ten
      Exp(x) == \E y \in i..(x - 1) : IsTen(t[y]) /\ \A z \in (y + 1)..(x - 1) : t[z] \in Layout
      Part(x) == t[x] \in Digit \cup Layout \cup {46} \/ IsTen(t[x]) \/ (t[x] \in {43, 45} /\ Exp(x))
      e == First(t, i, LAMBDA x : ~Part(x) \/ Marked(t, x))
      w == SelectSeq(SubSeq(t, i, e - 1), LAMBDA c : c \notin Layout)
  IN [k |-> "num", v |-> [x \in 1..Len(w) |-> IF IsTen(w[x]) THEN Ten ELSE w[x]], n |-> e]

\* -------------------------------------------------------------------- strings
\* where a row of strokes ends
Strokes(t, i) == First(t, i, LAMBDA x : t[x] # 124)
RECURSIVE Str(_, _, _, _)
Str(t, i, d, w) ==
  LET e == First(t, i, LAMBDA x : t[x] \in {96, 39, 124, Under, Combining} \/ ~Known(t[x]))
  IN IF e > Len(t) THEN [k |-> "error", v |-> <<>>, n |-> e]
     ELSE LET c == t[e]
              j == Strokes(t, e)
              q == IF c \in {96, 39} THEN c ELSE IF c = 124 /\ j <= Len(t) THEN Struck(t[j]) ELSE 0
              u == w \o SubSeq(t, i, e - 1)
          IN IF c = 124 /\ q = 0 THEN [k |-> "error", v |-> <<>>, n |-> e]
             ELSE IF c \in {Under, Combining} \/ ~Known(c) \/ Marked(t, j) THEN [k |-> "open", v |-> <<>>, n |-> e]
             ELSE IF q = 96 THEN Str(t, j + 1, d + 1, Append(u, 96))
             ELSE IF q = 39 THEN (IF d = 1 THEN [k |-> "str", v |-> u, n |-> j + 1] ELSE Str(t, j + 1, d - 1, Append(u, 39)))
             ELSE Str(t, j + 1, d, Append(u, q))

\* --------------------------------------------------------------------- tokens
RECURSIVE Token(_, _)
Token(t, i) ==
  LET s == Sym(t, i)
      T(k, v, n) == [k |-> k, v |-> v, n |-> n]
      Op(c, n) == T("op", c, n)
      w == Run(t, i, <<>>)
      z == Sym(t, s.n)
  IN IF s.c = -1 THEN (IF s.u THEN T("error", <<>>, i) ELSE T("eof", <<>>, i))
     ELSE IF s.c # 124 /\ ~Known(s.c) THEN T("open", <<>>, i)
     ELSE IF s.u THEN
       (IF s.c \in Letter
        THEN IF s.c = 99 /\ w.w # Comment THEN T("open", <<>>, i)
             ELSE IF w.w = Comment THEN (LET b == First(t, s.n, LAMBDA x : t[x] = 59) IN IF b > Len(t) THEN T("error", <<>>, i) ELSE Token(t, b + 1))
             ELSE IF w.w \in Words THEN T("word", w.w, w.n)
             ELSE IF s.c \in NoWord \/ (s.c \in Two /\ Len(w.w) = 1) THEN T("error", <<>>, i)
             ELSE T("open", <<>>, i)
        ELSE IF Underlined(s.c) # 0 THEN Op(Underlined(s.c), s.n)
        ELSE T("error", <<>>, i))
     ELSE IF s.c \in Layout THEN Token(t, First(t, s.n, LAMBDA x : t[x] \notin Layout \/ Marked(t, x)))
     ELSE IF s.c \in Letter THEN Name(t, i)
     ELSE IF s.c \in Digit \cup {46, 64, Ten} THEN Number(t, i)
     ELSE IF s.c = 58 THEN (IF ~z.u /\ z.c = 61 THEN Op(Assign, z.n) ELSE Op(58, s.n))
     ELSE IF s.c = 124
       THEN LET j == Strokes(t, i)
                q == IF j > Len(t) \/ (Marked(t, j)) THEN 0 ELSE Struck(t[j])
            IN IF q = 0 THEN (IF j <= Len(t) /\ ~Known(t[j]) THEN T("open", <<>>, i) ELSE T("error", <<>>, i))
               ELSE IF q = 96 THEN Str(t, j + 1, 1, <<>>)
               ELSE Op(q, j + 1)
     ELSE IF s.c = 96 THEN Str(t, s.n, 1, <<>>)
     ELSE IF s.c = 39 THEN Op(39, s.n)
     ELSE Op(Single(s.c), s.n)
=============================================================================
