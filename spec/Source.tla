------------------------------- MODULE Source --------------------------------
(* Source texts, one case after the other:                                      *)
(* "same"   texts a and b are read beside each other; they are representations  *)
(*          of one program when their symbols agree one by one, identifiers up  *)
(*          to a renaming that keeps different ones different (standard names   *)
(*          excepted, unless the program declares them)                         *)
(* "check"  text a is read as the compiler's first scan reads it; what is      *)
(*          certainly wrong with it makes the compiler refuse it.  Then obs, what *)
(*          the compiler did with it, is compared: it ended by itself, and either *)
(*          refused the text with a message or delivered a complete object        *)
(*          program.                                                              *)
(* Each step takes one symbol.                                                  *)
EXTENDS Lexer, Static, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, j, map, depth, r, v, md, st
vars == <<c, i, j, map, depth, r, v, md, st>>
K == Cases[c]

Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ j = 1 /\ map = <<>> /\ depth = 0 /\ r = 0 /\ v = 0 /\ md = "begin" /\ st = "run"

RECURSIVE SkipEnd(_, _)
\* behind an `end` that is not the last one: on to the ; else or end
SkipEnd(t, k) ==
  LET x == Token(t, k)
  IN IF x.k \in {"eof", "error", "open"} THEN x
     ELSE IF (x.k = "op" /\ x.v = 59) \/ (x.k = "word" /\ x.v \in {Else, End}) THEN x
     ELSE SkipEnd(t, x.n)

Fin(s) == /\ st' = s /\ UNCHANGED <<c, i, j, map, depth, r, v, md>>

\* ------------------------------------------------------------------ "same"
\* map: pairs of names so far
Agrees(x, y) == \A p \in 1..Len(map) : (map[p][1] = x) = (map[p][2] = y)
Seen(x) == \E p \in 1..Len(map) : map[p][1] = x
Fixed(x, y) == \E s \in 1..Len(K.std) : K.std[s] = x /\ x # y

Same ==
  LET a == IF md = "end" THEN SkipEnd(K.a, i) ELSE Token(K.a, i)
      b == IF md = "end" THEN SkipEnd(K.b, j) ELSE Token(K.b, j)
      dd == IF a.k # "word" THEN 0 ELSE IF a.v = Begin THEN 1 ELSE IF a.v = End THEN -1 ELSE 0
  IN IF a.k \in {"eof", "error", "open"} \/ b.k \in {"eof", "error", "open"} THEN Fin("differ")
     ELSE IF a.k # b.k THEN Fin("differ")
     ELSE IF a.k = "name"
       THEN IF ~Agrees(a.v, b.v) \/ Fixed(a.v, b.v) THEN Fin("differ")
            ELSE /\ i' = a.n /\ j' = b.n /\ md' = "sym"
                 /\ map' = IF Seen(a.v) THEN map ELSE Append(map, <<a.v, b.v>>)
                 /\ UNCHANGED <<c, depth, r, v, st>>
     ELSE IF a.v # b.v THEN Fin("differ")
     ELSE IF depth + dd = 0 THEN Fin(IF dd = -1 THEN "same" ELSE "differ")
     ELSE /\ i' = a.n /\ j' = b.n /\ depth' = depth + dd /\ md' = IF dd = -1 THEN "end" ELSE "sym"
          /\ UNCHANGED <<c, map, r, v, st>>

\* ----------------------------------------------------------------- "check"
\* numbers: an exponent of more than 8 digits, or one no real number has
RECURSIVE Strip(_, _)
Strip(w, k) == IF k > Len(w) THEN <<>> ELSE IF w[k] = 48 THEN Strip(w, k + 1) ELSE SubSeq(w, k, Len(w))
NumberBad(w) ==
  \E k \in 1..Len(w) :
    /\ {q \in 1..Len(w) : w[q] = Ten} = {k}
    /\ \A q \in (k + 1)..Len(w) : w[q] # 46
    /\ Len(Strip(SelectSeq(SubSeq(w, k + 1, Len(w)), LAMBDA x : x \in Digit), 1)) > 8

\* a ten is followed by an integer
WellFormed(w) ==
  \A k \in 1..Len(w) : w[k] = Ten => /\ k < Len(w)
                                     /\ w[k + 1] \in Digit \/ (w[k + 1] \in {43, 45} /\ k + 1 < Len(w) /\ w[k + 2] \in Digit)

\* md: "begin" the first symbol; "sym" ; "start" at the start of a statement;
\* "decl" in a declaration or specification, which goes to its semicolon
Check ==
  LET x == Token(K.a, i)
      Go(m, d, rr, vv) == /\ i' = x.n /\ md' = m /\ depth' = d /\ r' = rr /\ v' = vv /\ UNCHANGED <<c, j, map, st>>
      closing == (x.k = "op" /\ x.v = 59) \/ (x.k = "word" /\ x.v = End)
  IN IF x.k = "open" THEN Fin("open")
     ELSE IF x.k \in {"eof", "error"} THEN Fin("refuse")
     ELSE IF md = "begin" THEN (IF x.k = "word" /\ x.v = Begin THEN Go("start", 1, 0, 0) ELSE Fin("open"))
     ELSE IF x.k = "op" /\ x.v \in {34, 63} THEN Fin("refuse")
     ELSE IF x.k = "num" THEN (IF ~WellFormed(x.v) THEN Fin("open") ELSE IF NumberBad(x.v) THEN Fin("refuse") ELSE Go(IF md = "decl" THEN md ELSE "sym", depth, r, v))
     ELSE IF md = "decl" THEN (IF x.k = "str" \/ (x.k = "op" /\ x.v = 39) THEN Fin("open")
                               ELSE IF x.k = "op" /\ x.v = 59 THEN Go("start", depth, r, v) ELSE Go("decl", depth, r, v))
     ELSE IF closing /\ (r # 0 \/ v # 0) THEN Fin("refuse")
     ELSE IF x.k = "word"
       THEN IF x.v = End THEN (IF depth = 1 THEN Fin("pass") ELSE Go("end", depth - 1, r, v))
            ELSE IF x.v = Begin THEN Go("start", depth + 1, r, v)
            ELSE IF x.v \in Declarators THEN Go("decl", depth, r, v)
            ELSE Go(IF md = "end" /\ x.v # Else THEN "end" ELSE "sym", depth, r, v)
     ELSE IF x.k = "op"
       THEN IF x.v = 59 THEN Go("start", depth, r, v)
            ELSE LET nx == IF md = "end" THEN "end" ELSE "sym"
                 IN Go(nx, depth, r + (IF x.v = 40 THEN 1 ELSE IF x.v = 41 THEN -1 ELSE 0),
                        v + (IF x.v = 91 THEN 1 ELSE IF x.v = 93 THEN -1 ELSE 0))
     ELSE Go(IF md = "end" THEN "end" ELSE "sym", depth, r, v)

\* what the compiler did: [done, rc, msg, objs: <<address, word>> ..., entry, junk: other lines, ran: output of the driver not empty, drc]
Complete(o) ==
  /\ o.rc = 0 /\ Len(o.words) > 0 /\ o.junk = 0
  /\ \A k \in 1..(Len(o.words) - 1) : o.words[k + 1][1] = o.words[k][1] + 1
  /\ \A k \in 1..Len(o.words) : o.words[k][1] \in 0..32767 /\ o.words[k][2] \in 0..134217727
  /\ o.entry >= o.words[1][1] /\ o.entry <= o.words[Len(o.words)][1]
Refused(o) == o.rc = 1 /\ o.msg /\ o.drc = 1 /\ ~o.ran

Verdict(s) ==
  IF K.kind = "same" THEN s
  ELSE LET o == K.obs
           must == s = "refuse" \/ Undeclared(K.nodes) # {}
       IN IF ~o.done THEN "endless"
          ELSE IF o.rc \notin {0, 1} THEN "crash"
          ELSE IF must THEN (IF Refused(o) THEN "ok" ELSE "accepted")
          ELSE IF K.valid THEN (IF Complete(o) THEN "ok" ELSE "refused")
          ELSE IF Refused(o) \/ Complete(o) THEN "ok" ELSE "incomplete"

Next == /\ st = "run"
        /\ IF K.kind = "same" THEN Same ELSE Check
        /\ IF st' = "run" THEN TRUE ELSE PrintT("@C" \o ToJson(<<c, Verdict(st'), st', i>>))
Spec == Init /\ [][Next]_vars
TypeOK == i \in 1..(Len(K.a) + 1) /\ depth >= 0
=============================================================================
