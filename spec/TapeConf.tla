------------------------------ MODULE TapeConf -------------------------------
(* What the library assembler, the five-track converter and the loader of the  *)
(* compiler did, against Tape.tla and the linking specified here.              *)
(*   "asm":  [text, num, w, rc, vals, msg]  the assembler made the rows vals   *)
(*           (or words, where w) of the text                                   *)
(*   "five": [rows, rc, num, len, ws, bad]  the converter printed ws           *)
(*   "link": [tapes, need, rc, msg, rlib, mcpe, ents, words, refs, all, text, num] *)
(*           the compiler made an object program with entries ents whose words *)
(*           below rlib are words (address, word), using library procedures    *)
(*           need; refs, all: addresses below rlib in its own orders, words; text: *)
(*           what the only tape has been made of, if known                     *)
(* The loader reads tapes in order until nothing is wanted any more.           *)
EXTENDS Tape, Json, IOUtils

Recs == JsonDeserialize(IOEnv.RECS)
Store == JsonDeserialize(IOEnv.STORE)
\* library procedures that are part of the compiler: number and text
Inside == TLCEval([k \in 1..Len(Store) |-> <<Store[k][1], Text(Store[k][2]).ws>>])
StoreNums == {Store[k][1] : k \in 1..Len(Store)}
\* numbers and lengths of all library procedures, in the order of their places
\* from the program down
Cross == <<<<0, 54>>, <<1, 20>>, <<2, 14>>, <<7, 7>>, <<8, 8>>, <<17, 7>>, <<18, 8>>, <<77, 7>>>>

RECURSIVE Sum(_, _, _)
Sum(need, k, n) == IF k > n THEN 0 ELSE (IF Cross[k][1] \in need THEN Cross[k][2] ELSE 0) + Sum(need, k + 1, n)
\* where procedure number num goes
Place(rlib, need, num) == LET k == CHOOSE k \in 1..8 : Cross[k][1] = num IN rlib - Sum(need, 1, k)
LengthOf(num) == LET k == CHOOSE k \in 1..8 : Cross[k][1] = num IN Cross[k][2]
\* word x of the procedure placed at a
Placed(x, a, rlib, need) ==
  IF x[1] >= 8 THEN x[1]
  ELSE IF x[1] = 1 THEN x[2] + a
  ELSE IF x[1] = 3 THEN LET n == x[2] % D15 IN x[2] - n + (IF n \in need THEN Place(rlib, need, n) ELSE 0)
  ELSE x[2]

VARIABLES lib,    \* the procedures in the compiler
          p, t, i, wanted, got, st
vars == <<lib, p, t, i, wanted, got, st>>
Need(r) == {r.need[k] : k \in 1..Len(r.need)}

Init ==
  /\ lib = Inside
  /\ p \in 1..Len(Recs)
  /\ t = 0 /\ i = 0 /\ got = <<>>
  /\ st = Recs[p].kind
  /\ wanted = IF Recs[p].kind = "link" THEN Need(Recs[p]) \ StoreNums ELSE {}

Say(v) == /\ st' = "done" /\ UNCHANGED <<lib, p, t, i, wanted, got>> /\ PrintT("@V" \o ToJson(<<p, v[1], v[2]>>))

\* another tape that says the same will do
WordRows(v) == LET n == Len(v) IN <<30>> \o Flat([k \in 1..n |-> GroupRows(Bin(v[n + 1 - k], 27))], 1)
Same(r, ws) ==
  LET rows == IF r.w THEN WordRows(r.vals) ELSE r.vals
      x == Part(rows, FALSE, 1, {r.num})
  IN /\ \A k \in 1..Len(r.vals) : r.vals[k] >= 0 /\ r.vals[k] <= (IF r.w THEN Max27 ELSE 127)
     /\ Len(rows) > 9 /\ Len(rows) % 4 = 1 /\ rows[1] = 30
     /\ \A g \in 0..((Len(rows) - 1) \div 4 - 1) :
         (Ones(rows[4 * g + 2]) + Ones(rows[4 * g + 3]) + Ones(rows[4 * g + 4]) + Ones(rows[4 * g + 5])) % 2 = 1
     /\ x.kind = "proc" /\ x.ws = ws /\ x.next = Len(rows) + 1
Asm(r) ==
  LET x == Text(r.text)
      want == IF r.w THEN Words(r.num, x.ws) ELSE Rows(r.num, x.ws)
  IN IF ~x.ok THEN <<"refused", IF r.rc = 0 THEN "a malformed text is accepted" ELSE IF r.vals # <<>> THEN "a malformed text gives a tape"
                                 ELSE IF ~r.msg THEN "no message" ELSE "">>
     ELSE <<"made", IF r.rc # 0 THEN "a correct text is refused"
                    ELSE IF r.vals # want /\ ~Same(r, x.ws) THEN "another tape is made" ELSE "">>

Five(r) ==
  LET x == Tape5(r.rows)
      err == x.end # "ok"
      head == x.end \in {"header", "parity"} \/ (x.end = "short" /\ x.len = 0 /\ x.ws = <<>> /\ Len(r.rows) < 6)
  IN <<x.end, IF err # (r.rc # 0) THEN (IF err THEN "a bad tape is not reported" ELSE "a good tape is refused")
              ELSE IF err # r.msg THEN "message"
              ELSE IF x.end \in {"header", "parity"} THEN (IF r.ws # <<>> THEN "words of a tape without header" ELSE "")
              ELSE IF r.ws # x.ws THEN "other words are printed"
              ELSE IF x.end = "ok" /\ (r.num # x.num \/ r.len # x.len) THEN "another header is printed"
              ELSE "">>

Made(r, fail) ==
  LET need == Need(r)
      mcpe == r.rlib - Sum(need, 1, 8)
      all == got \o SelectSeq(lib, LAMBDA q : q[1] \in need)
      W(q) == LET a == Place(r.rlib, need, q[1]) IN [k \in 1..Len(q[2]) |-> <<a + k - 1, Placed(q[2][k], a, r.rlib, need)>>]
      map == Flat([k \in 1..Len(all) |-> W(all[k])], 1)
      has == {r.words[k] : k \in 1..Len(r.words)}
      ents == {Place(r.rlib, need, n) : n \in need}
      refs == {r.refs[k] : k \in 1..Len(r.refs)}
      words == {r.all[k] : k \in 1..Len(r.all)}
      \* an address that may not fit in a word: such a tape may be refused
      big == \E k \in 1..Len(all) : \E j \in 1..Len(all[k][2]) : all[k][2][j][1] = 1 /\ all[k][2][j][2] > Max27 - D15
  IN IF fail # "" THEN <<fail, IF r.rc = 0 THEN "a program is linked although the library cannot be used: " \o fail
                               ELSE IF ~r.msg THEN "no message" ELSE "">>
     ELSE IF r.text # <<>> /\ (Len(got) # 1 \/ got[1] # <<r.num, Text(r.text).ws>>) THEN <<"linked", "not the words of the text">>
     ELSE <<"linked", IF r.rc # 0 THEN (IF big /\ r.msg THEN "" ELSE "linking fails")
                      ELSE IF r.ents # <<r.rlib, mcpe>> THEN "the object program begins elsewhere"
                      ELSE IF Len(r.words) # r.rlib - mcpe THEN "other words are in the object program"
                      ELSE IF \E k \in 1..Len(map) : map[k] \notin has THEN "a library procedure is not linked as it is"
                      ELSE IF refs \ ents # {} THEN "the program refers into a library procedure"
                      ELSE IF ents \ words # {} THEN "the program does not refer to a library procedure"
                      ELSE "">>

Judge == \/ (st = "asm" /\ Say(Asm(Recs[p])))
         \/ (st = "five" /\ Say(Five(Recs[p])))

\* the loader: the next tape
NewTape ==
  /\ st = "link" /\ i = 0 /\ wanted # {}
  /\ LET r == Recs[p]
     IN IF t = Len(r.tapes) THEN Say(Made(r, "missing"))
        ELSE IF ~r.tapes[t + 1].there THEN Say(Made(r, "unreadable"))
        ELSE /\ t' = t + 1 /\ i' = 1 /\ UNCHANGED <<lib, p, wanted, got, st>>
\* the next procedure on the tape; a tape is read to its end
NewPart ==
  /\ st = "link" /\ i > 0
  /\ LET r == Recs[p]
         T == r.tapes[t]
         x == Part(T.rows, T.junk, i, wanted)
     IN CASE x.kind = "error" \/ (x.kind = "end" /\ i = 1 /\ x.next = 0 /\ SkipZeros(T.rows, 1) > Len(T.rows)) -> Say(Made(r, "damaged"))
          [] x.kind = "end" -> i' = 0 /\ UNCHANGED <<lib, p, t, wanted, got, st>>
          [] x.kind = "skip" -> i' = x.next /\ UNCHANGED <<lib, p, t, wanted, got, st>>
          [] OTHER -> IF Len(x.ws) > LengthOf(x.num) THEN Say(Made(r, "too long"))
                      ELSE /\ i' = x.next /\ wanted' = wanted \ {x.num} /\ got' = Append(got, <<x.num, x.ws>>)
                           /\ UNCHANGED <<lib, p, t, st>>
Ready == st = "link" /\ i = 0 /\ wanted = {} /\ Say(Made(Recs[p], ""))

Next == Judge \/ NewTape \/ NewPart \/ Ready
Spec == Init /\ [][Next]_vars
\* a procedure is linked once
Once == \A j, k \in 1..Len(got) : j # k => got[j][1] # got[k][1]
==============================================================================
