------------------------------- MODULE TapeMC --------------------------------
(* Properties of the tape formats, checked over the words and procedures that  *)
(* matter: every operator, every function part with its relocation, every      *)
(* address, and damage in every single position of whole tapes.                *)
EXTENDS Tape
CONSTANT Deep

Funs == IF Deep THEN 0..4095 ELSE {0, 1, 2, 16, 17, 31, 32, 48, 96, 134, 144, 146, 256, 402, 640, 656, 1023, 1024, 2176, 2192, 2688, 2691, 2704, 4095}
Addrs == IF Deep THEN 0..32767 ELSE {a * 1024 + b * 32 + c : a \in {0, 1, 2, 31}, b \in 0..31, c \in 0..31}
Few == <<<<0, 0>>, <<0, 2192 * D15 + 1>>, <<89, 0>>, <<1, 2704 * D15 + 5>>, <<33, 0>>, <<0, Max27>>, <<3, 2192 * D15>>, <<12, 0>>, <<0, 144 * D15 + 32767>>>>

VARIABLES kind, x, y, z
vars == <<kind, x, y, z>>
Procs == {<<Few[a]>> : a \in 1..9} \cup {<<Few[a], Few[b]>> : a, b \in 1..9}
         \cup (IF Deep THEN {<<Few[a], Few[b], Few[c]>> : a, b, c \in 1..9} ELSE {<<Few[a], Few[a], Few[a], Few[5], Few[5]>> : a \in 1..9})

Init ==
  \/ kind = "op" /\ x \in 8..112 /\ y = 0 /\ z = 0
  \/ kind = "fun" /\ x \in 0..7 /\ y \in Funs /\ z \in {0, 1, 33}
  \/ kind = "addr" /\ x \in 0..3 /\ y \in {2192, 77} /\ z \in Addrs
  \/ kind = "tape" /\ x \in Procs /\ y \in {0, 7, 18, 50} /\ z = 0
\* every single position of a tape damaged
Next == kind = "tape" /\ z = 0 /\ kind' = "flip" /\ x' = x /\ y' = y
        /\ z' \in {<<r, k>> : r \in 1..Len(Rows(y, x)), k \in 0..6}
Spec == Init /\ [][Next]_vars

W == IF kind = "op" THEN <<x, 0>> ELSE <<x, y * D15 + z>>
\* what is written is what is read, and takes the room it says
WordFaithful ==
  kind \in {"op", "fun", "addr"} =>
    LET b == WordBits(W)
    IN /\ RWord(b \o Zeroes(40), 1) = <<W[1], W[2], Len(b) + 1>>
       /\ \A k \in 1..Len(b) : b[k] \in {0, 1}
       /\ (W[1] = 85 \/ W[1] < 8 \/ \E k \in 1..Len(b) : b[k] = 1 \/ W[1] = 33)
Word5Faithful ==
  kind \in {"op", "fun", "addr"} /\ W[1] \notin 4..7 =>
    LET t == Tape5(Rows5(7, <<W>>))
    IN /\ t.end = "ok" /\ t.num = 7 /\ t.len = 1
       /\ t.ws = <<IF W[1] >= 8 THEN <<W[1], -1, TRUE>> ELSE <<W[1], W[2], TRUE>>>>
\* every row in order, every group with odd parity
GoodRows(rows) ==
  /\ Len(rows) % 4 = 1 /\ rows[1] = 30
  /\ \A g \in 0..((Len(rows) - 1) \div 4 - 1) :
       (Ones(rows[4 * g + 2]) + Ones(rows[4 * g + 3]) + Ones(rows[4 * g + 4]) + Ones(rows[4 * g + 5])) % 2 = 1
  /\ \A j \in 1..Len(rows) : rows[j] \in 0..127
TapeFaithful ==
  kind = "tape" =>
    LET rows == Rows(y, x)
        p == Part(rows, FALSE, 1, {y})
        w == Words(y, x)
    IN /\ GoodRows(rows)
       /\ p.kind = "proc" /\ p.num = y /\ p.ws = x /\ p.next = Len(rows) + 1
       /\ Part(<<0, 0>> \o rows \o <<0, 0, 0>> \o rows, FALSE, 3, {y}).next = Len(rows) + 3
       /\ 4 * Len(w) + 1 = Len(rows)
       /\ \A k \in 1..Len(w) : w[Len(w) + 1 - k] = ((rows[4 * k - 2] \div 2) * 2097152 + rows[4 * k - 1] * 16384 + rows[4 * k] * 128 + rows[4 * k + 1])
\* a tape damaged in one position is refused, or found not to hold the
\* procedure, or gives the very same words
FlipFound ==
  kind = "flip" =>
    LET rows == Rows(y, x)
        r == z[1]
        v == rows[r]
        bad == [rows EXCEPT ![r] = IF BitOf(v, z[2]) = 1 THEN v - P2(z[2]) ELSE v + P2(z[2])]
        p == Part(bad, FALSE, 1, {y})
    IN p.kind = "proc" => p.num = y /\ p.ws = x
\* on a five-track tape damage in one position is flagged, unless it hits the
\* two positions of a word's first row that tell how long the word is
Flip5Found ==
  kind = "flip" /\ z[2] < 5 =>
    LET rows == Rows5(y, x)
        r == z[1]
    IN r > Len(rows) \/
       LET v == rows[r]
           bad == [rows EXCEPT ![r] = IF BitOf(v, z[2]) = 1 THEN v - P2(z[2]) ELSE v + P2(z[2])]
           t == Tape5(bad)
       IN (t.end = "ok" /\ \A k \in 1..Len(t.ws) : t.ws[k][3]) => r > 6 /\ z[2] \in {2, 3}
==============================================================================
