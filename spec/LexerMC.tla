------------------------------ MODULE LexerMC --------------------------------
(* Every text over a small alphabet up to a length; what must hold of reading   *)
(* it.  A text grows by one character per step.                                 *)
EXTENDS Lexer
CONSTANTS Alphabet, Max
VARIABLE t
Init == t = <<>>
Next == Len(t) < Max /\ \E c \in Alphabet : t' = Append(t, c)
Spec == Init /\ [][Next]_t

\* the symbols of a text, up to its end or an error
RECURSIVE Toks(_, _, _)
Toks(x, i, w) == LET k == Token(x, i)
                 IN IF k.k \in {"eof", "error", "open"} THEN Append(w, <<k.k>>) ELSE Toks(x, k.n, Append(w, <<k.k, k.v>>))
All(x) == Toks(x, 1, <<>>)

\* reading goes forward, and every text has an end
RECURSIVE Forward(_, _)
Forward(x, i) == LET k == Token(x, i)
                 IN k.k \in {"eof", "error", "open"} \/ (k.n > i /\ k.n <= Len(x) + 1 /\ Forward(x, k.n))

Insert(x, p, s) == SubSeq(x, 1, p) \o s \o SubSeq(x, p + 1, Len(x))
\* positions outside of strings and comments where no symbol of several characters is cut: not behind an underline,
\* stroke or colon, not inside an underlined word, not inside a string
Quotes(x, p) == \E k \in 1..p : x[k] \in {96, 39} \/ (k > 1 /\ x[k - 1] = 124 /\ x[k] = 60)
Loose(x, p) == /\ (p = 0 \/ x[p] \notin {Under, 124, 58})
               /\ (p = Len(x) \/ x[p + 1] \notin {Combining, Under})
               /\ ~Quotes(x, p)
\* layout does not matter there
LayoutFree == \A p \in 0..Len(t) : Loose(t, p) => \A c \in {32, 10, 9} : All(Insert(t, p, <<c>>)) = All(t)
\* the other spelling of a symbol is the same symbol
Spelling ==
  LET Other(c) == CASE c = 64 -> <<Ten>> [] c = 42 -> <<215>> [] OTHER -> <<c>>
      alt == [k \in 1..Len(t) |-> Other(t[k])[1]]
  IN ~Quotes(t, Len(t)) => All(alt) = All(t)
\* underlining behind is underlining in front
Twice(x) == \E k \in 1..(Len(x) - 1) : x[k] = Under /\ x[k + 1] = Under
Under2 ==
  (~Quotes(t, Len(t)) /\ {Combining, 124} \cap {t[k] : k \in 1..Len(t)} = {} /\ ~Twice(t) /\ (t = <<>> \/ t[Len(t)] # Under)) =>
    LET f[k \in 0..Len(t)] == IF k = 0 THEN <<>>
                              ELSE IF t[k] = Under THEN f[k - 1]
                              ELSE IF k > 1 /\ t[k - 1] = Under /\ t[k] < 128 THEN f[k - 1] \o <<t[k], Combining>>
                              ELSE IF k > 1 /\ t[k - 1] = Under THEN f[k - 1] \o <<Under, t[k]>>
                              ELSE Append(f[k - 1], t[k])
    IN All(f[Len(t)]) = All(t)
Ends == Forward(t, 1)
=============================================================================
