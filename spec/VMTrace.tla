------------------------------ MODULE VMTrace -------------------------------
(* Checks recorded executions of object programs, order by order, against the *)
(* object machine X1VM, and its consistency conditions along the way.         *)
(* Runs[p]:  disc: compiled code, which has to keep the stack in order; img, start, input, out, rc, msg, clk; done: the record is        *)
(* complete; rec: a sequence of                                               *)
(*   <<ot, w, A, B, C, S, sp, fp, pops, cells, words, disp, dev, giv>>        *)
(* ot, w: the order; A .. fp: registers after it; pops: cells as first popped *)
(* and by index; cells: cells as last written; words: words written;          *)
(* disp: level and frame; dev: words read from devices; giv: <<>> or the real *)
(* last pushed.  C is 0 or 1.                                                 *)
EXTENDS X1VM, Output, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
Chunk == 40

VARIABLES p, k, m, bad
vars == <<p, k, m, bad>>

CellOK(c, r) == CASE c[1] = "?" -> TRUE
                  [] r[1] = "A" -> IsA(c) /\ c[2] = r[2]
                  [] OTHER -> c = r

\* record r against the step from m0 to m1
Differs(P, m0, m1, r) ==
  IF r[1] # m0.ot % W15 THEN "another order is executed"
  ELSE IF r[2] # Word(P, m0, r[1]) THEN "the order is not the one in the store"
  \* (the end of an implicit subroutine, 13, puts the result in place first)
  ELSE IF \E i \in 1..(IF r[2] = 13 /\ r[9] # <<>> THEN 1 ELSE Len(r[9])) : LET x == r[9][i] IN Has(m0, x[1]) /\ ~CellOK(Cell(m0, x[1]), x[2])
       THEN "another value is on the stack"
  ELSE IF m1.err # "" THEN ""
  ELSE IF m1.A # -1 /\ r[3] # m1.A THEN "register A"
  ELSE IF m1.A = -1 /\ r[3] < W26 THEN "register A"
  ELSE IF r[4] # m1.B THEN "register B"
  ELSE IF (r[5] = 1) # m1.C THEN "condition"
  ELSE IF r[6] # m1.S THEN "register S"
  ELSE IF r[7] # SP(m1) THEN "stack pointer"
  ELSE IF r[8] # m1.fp THEN "frame pointer"
  ELSE IF \E i \in 1..Len(r[10]) : LET x == r[10][i] IN Has(m1, x[1]) /\ ~CellOK(Cell(m1, x[1]), x[2])
       THEN "another value is written on the stack"
  ELSE IF r[11] # m1.wr THEN "words written"
  ELSE IF \E i \in 1..Len(r[12]) : m1.disp[r[12][i][1]] # r[12][i][2] THEN "level table"
  ELSE ""
\* A after the type of an address cell is asked for: some negative number
Adopt(m1, r) == IF m1.A = -1 THEN [m1 EXCEPT !.A = r[3]] ELSE m1

RECURSIVE RunFrom(_, _, _, _)
\* n records from the k-th: <<k, m, bad>>
RunFrom(P, i, mm, n) ==
  IF n = 0 \/ mm.err # "" \/ mm.halt \/ i > Len(P.rec) THEN <<i, mm, "">>
  ELSE LET r  == P.rec[i]
           m1 == Step(P, mm, r[13], r[14])
           d  == Differs(P, mm, m1, r)
           s  == IF d # "" \/ ~P.disc THEN d ELSE StepOK(P, mm, m1)
       IN IF s # "" THEN <<i, m1, s>>
          ELSE RunFrom(P, i + 1, Adopt(m1, r), n - 1)

\* At the end of the record
Final(P, i, mm) ==
  IF mm.err = "open" THEN ""
  ELSE LET e == Ends(P.out, mm.out, 1, {1}, P.clk)
           whole == e.P # {} /\ (Len(P.out) + 1) \in e.P
       IN IF i <= Len(P.rec) THEN "orders are executed after the end"
          ELSE IF ~mm.halt /\ mm.err = "" THEN (IF P.done THEN "the machine stops without reason" ELSE "")
          ELSE IF ~P.done THEN "the machine does not stop"
          ELSE IF mm.halt # (P.rc = 0) THEN "exit status"
          ELSE IF mm.err # "" /\ ~P.msg THEN "no message"
          ELSE IF ~whole THEN "output"
          ELSE ""
Show(mm) == [mm EXCEPT !.st = <<>>, !.eis = <<>>, !.out = <<>>, !.stk = SubSeq(@, IF Len(@) > 24 THEN Len(@) - 23 ELSE 1, Len(@))]

Init == p \in 1..Len(Runs) /\ k = 1 /\ m = Init0(Runs[p]) /\ bad = ""
Over == bad # "" \/ m.err # "" \/ m.halt \/ k > Len(Runs[p].rec)
Next == /\ ~Over
        /\ p' = p
        /\ LET x == RunFrom(Runs[p], k, m, Chunk)
           IN /\ k' = x[1] /\ m' = x[2]
              /\ bad' = IF x[3] # "" THEN x[3]
                        ELSE IF Runs[p].disc /\ x[2].err = "" /\ ~FramesOK(x[2]) THEN "the frames are broken"
                        ELSE IF x[2].err # "" \/ x[2].halt \/ x[1] > Len(Runs[p].rec) THEN Final(Runs[p], x[1], x[2])
                        ELSE ""
        /\ IF bad' # "" \/ m'.err # "" \/ m'.halt \/ k' > Len(Runs[p].rec)
           THEN PrintT("@V" \o ToJson(<<p, k', m'.err, bad', IF bad' # "" THEN Show(m') ELSE 0>>)) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == <<p, k, bad>>
=============================================================================
