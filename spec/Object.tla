------------------------------- MODULE Object --------------------------------
(* The object file: a text whose lines give words of the store, entry          *)
(* addresses, and names.                                                       *)
(*     name a b c      a name for address (a * 32 + b) * 32 + c                *)
(*     a b c           an entry; the first one is where the program starts     *)
(*     address word    one word of the store                                   *)
(* An empty line says nothing; any other line makes the file a bad one, which  *)
(* is refused before anything is executed, as is a file without entry.         *)
(* Each state checks one recorded attempt to load and start a file:            *)
(* Files[p]: [text, words (in the order written), started, start, rc, msg]     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Files == JsonDeserialize(IOEnv.FILES)

Space == {9, 11, 12, 13, 32}
Digit == 48..57

RECURSIVE LinesFrom(_, _, _, _)
\* lines of text t: from k on, the current line begins at b
LinesFrom(t, k, b, ls) ==
  IF k > Len(t) THEN (IF b > Len(t) THEN ls ELSE Append(ls, SubSeq(t, b, Len(t))))
  ELSE IF t[k] = 10 THEN LinesFrom(t, k + 1, k + 1, Append(ls, SubSeq(t, b, k - 1)))
  ELSE LinesFrom(t, k + 1, b, ls)
Lines(t) == LinesFrom(t, 1, 1, <<>>)

RECURSIVE FieldsFrom(_, _, _)
FieldsFrom(l, k, fs) ==
  IF k > Len(l) THEN fs
  ELSE IF l[k] \in Space THEN FieldsFrom(l, k + 1, fs)
  ELSE LET e == CHOOSE j \in k..Len(l) : (\A i \in k..j : l[i] \notin Space) /\ (j = Len(l) \/ l[j + 1] \in Space)
       IN FieldsFrom(l, e + 1, Append(fs, SubSeq(l, k, e)))
Fields(l) == FieldsFrom(l, 1, <<>>)

Number(f) == \A i \in 1..Len(f) : f[i] \in Digit
RECURSIVE Val(_, _, _)
Val(f, i, v) == IF i > Len(f) THEN v ELSE Val(f, i + 1, v * 10 + f[i] - 48)
Value(f) == Val(f, 1, 0)

\* signs and long fields are left open
Odd(f) == Len(f) > 9 \/ \E i \in 1..Len(f) : f[i] \in {43, 45}

\* <<kind, ...>> of a line
Kind(l) ==
  IF l = <<>> \/ l[1] = 0 THEN <<"none">>
  ELSE LET f == Fields(l)
           n == Len(f)
           Nums(a) == \A i \in a..n : Number(f[i])
       IN IF \E i \in 1..n : Odd(f[i]) THEN <<"open">>
          ELSE IF \E i \in 1..Len(l) : l[i] = 0 THEN <<"bad">>
          ELSE IF n = 4 /\ Nums(2) THEN <<"name">>
          ELSE IF n = 3 /\ Nums(1) THEN <<"entry", (Value(f[1]) % 32) * 1024 + (Value(f[2]) % 1024) * 32 + Value(f[3])>>
          ELSE IF n = 2 /\ Nums(1) /\ Value(f[1]) < 32768 /\ Value(f[2]) < 134217728
               THEN <<"word", Value(f[1]), Value(f[2])>>
          ELSE <<"bad">>

VARIABLES p, ls, k, words, entry, st
vars == <<p, ls, k, words, entry, st>>

Init == /\ p \in 1..Len(Files) /\ ls = Lines(Files[p].text) /\ k = 1 /\ words = <<>> /\ entry = -1 /\ st = "load"

Verdict(s) ==
  LET F == Files[p]
      begun == s = "run"
  IN IF s = "open" THEN ""
     ELSE IF F.started # begun THEN (IF begun THEN "the program is not started" ELSE "a bad file is executed")
     ELSE IF begun /\ F.start # entry % 32768 THEN "the program starts elsewhere"
     ELSE IF begun /\ F.words # words THEN "other words are loaded"
     ELSE IF ~begun /\ Len(F.words) > Len(words) THEN "words are loaded after a bad line"
     ELSE IF ~begun /\ (F.rc = 0 \/ ~F.msg) THEN "a bad file is not reported"
     ELSE ""
End(s) == /\ st' = s /\ UNCHANGED <<p, ls, k, words, entry>>
          /\ PrintT("@V" \o ToJson(<<p, s, Verdict(s), k>>))

LoadLine ==
  /\ st = "load" /\ k <= Len(ls)
  /\ LET x == Kind(ls[k])
     IN CASE x[1] = "none" \/ x[1] = "name" -> k' = k + 1 /\ UNCHANGED <<p, ls, words, entry, st>>
          [] x[1] = "entry" -> /\ k' = k + 1 /\ entry' = (IF entry = -1 THEN x[2] ELSE entry)
                               /\ UNCHANGED <<p, ls, words, st>>
          [] x[1] = "word" -> k' = k + 1 /\ words' = Append(words, <<x[2], x[3]>>) /\ UNCHANGED <<p, ls, entry, st>>
          [] OTHER -> End(x[1])
Start == /\ st = "load" /\ k > Len(ls) /\ End(IF entry = -1 THEN "bad" ELSE "run")

Next == LoadLine \/ Start
Spec == Init /\ [][Next]_vars
=============================================================================
