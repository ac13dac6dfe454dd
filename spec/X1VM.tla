-------------------------------- MODULE X1VM --------------------------------
(* The object machine: the orders of the Electrologica X1 that object programs *)
(* use, and the run-time routines (the "complex") that are called by orders    *)
(* with function part zero.  One step of this specification is one order.      *)
(*                                                                             *)
(* State m:                                                                    *)
(*   ot A B C S L   order counter, registers, condition, last sign             *)
(*   stk            the stack: cells <<"N">> nothing, <<"IA", a>>, <<"RA", a>>  *)
(*                  address of an integer / a real, <<"I", v>>, <<"R", s, m, e>>*)
(*                  (index i of the machine is stk[i + 1])                     *)
(*   fp sb          frame pointer, base of the working part of the stack       *)
(*   disp           frame of each block level 1..31                            *)
(*   eis            what the end of an implicit subroutine does, by stack base *)
(*   st             the words of the store written so far (over the image)     *)
(*   fr             all frames in order of creation: [fp, fp0, sb0] with the   *)
(*                  frame pointer and stack base before                        *)
(*   out inp sws    output items, position in the input, console switches      *)
(*   wr low         in the current step: words written, lowest index popped    *)
(*   dev            what the current step reads from devices (given)           *)
(*   err            "", "open" (not defined), or why the machine stops         *)
(*   halt           the program has ended                                      *)
EXTENDS Input, Elem, TLC

W15 == 32768
W26 == 67108864
W27 == 134217728
StackBase == 32768                       \* address of stack index 0
LevelUnit == 1048576                     \* 2^20: block level in a parameter cell
BinUnit == 4194304                       \* 2^22: block level in a descriptor

Nul == <<"N">>
IA(a) == <<"IA", a>>
RA(a) == <<"RA", a>>
IsN(c) == c[1] = "N"
IsA(c) == c[1] \in {"IA", "RA"}

(* ------------------------------ words ----------------------------------- *)
\* a real in two words
RealWords(x) ==
  IF x[3] = <<>> THEN (IF x[2] = 1 THEN <<Ones27, Ones27>> ELSE <<0, 0>>)
  ELSE LET m == x[3]
           hi == (Limb(m, 2) \div 4) + Limb(m, 3) * 1024 + Limb(m, 4) * 4194304
           lo == (Limb(m, 1) + (Limb(m, 2) % 4) * 4096) * 4096 + (x[4] + 40 + 2048)
       IN IF x[2] = 1 THEN <<Ones27 - hi, Ones27 - lo>> ELSE <<hi, lo>>
\* two words as a real, for words that are the normalized form of one
WordsReal(hi, lo) ==
  LET s == hi \div W26
      h == IF s = 1 THEN Ones27 - hi ELSE hi
      l == IF s = 1 THEN Ones27 - lo ELSE lo
      mid == l \div 4096
  IN IF l >= W26 \/ l < 0 THEN Err("open")
     ELSE IF h = 0 /\ l = 0 THEN RZero(s)
     ELSE IF h < 33554432 THEN Err("open")
     ELSE <<"R", s, BNorm(<<mid % 4096, (mid \div 4096) + (h % 1024) * 4, (h \div 1024) % 4096, h \div 4194304>>),
            (l % 4096) - 2048 - 40>>
\* the word that stands for a cell where only its integer part is taken
CellWord(c) == CASE c[1] = "I" -> WordOf(c[2])
                 [] IsA(c) -> c[2]
                 [] IsN(c) -> 0
                 [] c[1] = "R" -> RealWords(c)[2]
                 [] OTHER -> -2
IntCell(w) == IntV(OfWord(w))
ToI(w) == IVal(OfWord(w))
Mod27(v) == v % W27

(* ------------------------------ the store -------------------------------- *)
RandomDev == {32761, 32762}              \* GETRANDOM / SETRANDOM
ReadDev == 32764
PrintDev == 32763
TimeDev == {32765, 32766}

\* image: a sequence of <<first address, words>>
RECURSIVE ImageR(_, _, _)
ImageR(img, a, i) == IF i > Len(img) THEN 0
                     ELSE IF a >= img[i][1] /\ a < img[i][1] + Len(img[i][2]) THEN img[i][2][a - img[i][1] + 1]
                     ELSE ImageR(img, a, i + 1)
Word(P, m, a) == IF a \in DOMAIN m.st THEN m.st[a] ELSE ImageR(P.img, a, 1)
DevRead(m, a) == LET k == {i \in 1..Len(m.dev) : m.dev[i][1] = a}
                 IN IF k = {} THEN 0 ELSE m.dev[CHOOSE i \in k : \A j \in k : i <= j][2]
Load(P, m, a0) == LET a == a0 % W15 IN
  IF a \in RandomDev \cup TimeDev \cup {ReadDev} THEN DevRead(m, a) ELSE Word(P, m, a)

Emit(m, codes) == [m EXCEPT !.out = IF @ # <<>> /\ @[Len(@)][1] = "t"
                                    THEN Append(SubSeq(@, 1, Len(@) - 1), <<"t", @[Len(@)][2] \o codes>>)
                                    ELSE Append(@, <<"t", codes>>)]
EmitItem(m, it) == [m EXCEPT !.out = Append(@, it)]
Fail(m, why) == IF m.err # "" THEN m ELSE [m EXCEPT !.err = why]

Store(m, a0, w) ==
  LET a == a0 % W15
      m1 == [m EXCEPT !.wr = Append(@, <<a, w>>)]
  IN IF a \in RandomDev THEN m1
     ELSE IF a = PrintDev THEN Emit(m1, SymbolText(w % 128))
     ELSE [m1 EXCEPT !.st = (a :> w) @@ @]

(* ------------------------------ the stack -------------------------------- *)
SP(m) == Len(m.stk)
Has(m, i) == i >= 0 /\ i < SP(m)
Cell(m, i) == IF i >= 0 /\ i < Len(m.stk) THEN m.stk[i + 1] ELSE <<"X", "No item in stack">>
Put(m, i, c) == IF Has(m, i) THEN [m EXCEPT !.stk = [@ EXCEPT ![i + 1] = c]] ELSE Fail(m, "No item in stack")
Push(m, c) == [m EXCEPT !.stk = Append(@, c)]
Top(m) == m.stk[SP(m)]
Drop(m) == [m EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1), !.low = IF SP(m) - 1 < @ THEN SP(m) - 1 ELSE @]
PushAll(m, cs) == [m EXCEPT !.stk = @ \o cs]
Cut(m, n) == [m EXCEPT !.stk = SubSeq(@, 1, n)]
NoCell == <<"X", "No item in stack">>
Get(m, i) == IF Has(m, i) THEN Cell(m, i) ELSE NoCell
AddrOf(c) == IF IsErr(c) THEN 0 ELSE CellWord(c)
GetA(m, i) == AddrOf(Get(m, i))

\* m after popping n cells, provided they are there
Popping(m, n, f(_, _)) ==
  IF SP(m) < n THEN Fail(m, "Cannot pop empty stack")
  ELSE LET cs == SubSeq(m.stk, SP(m) - n + 1, SP(m))
           RECURSIVE D(_, _)
           D(x, k) == IF k = 0 THEN x ELSE D(Drop(x), k - 1)
       IN f(D(m, n), cs)

ZeroCells(n) == [i \in 1..n |-> IntV(0)]
Allocate(m, n) == IF n > 30000 THEN Fail(m, "open") ELSE PushAll(m, ZeroCells(n))

(* ---------------------------- frames, display ---------------------------- *)
Level(m) == IF m.sb = 0 THEN 0 ELSE GetA(m, m.fp + 3)
RECURSIVE UpdateDisplay(_, _, _)
UpdateDisplay(m, level, fp) ==
  IF level = 0 THEN m
  ELSE IF level >= 32 THEN Fail(m, "Bad block level")
  ELSE IF ~Has(m, fp + 4) THEN Fail(m, "No item in stack")
  ELSE UpdateDisplay([m EXCEPT !.disp = [@ EXCEPT ![level] = fp]], level - 1, GetA(m, fp + 4))
DispOf(m, level) == IF level = 0 THEN 0 ELSE m.disp[level]

SetLevel(m, bl) ==
  IF bl = 0 THEN Fail(m, "Bad block level")
  ELSE IF ~Has(m, m.fp + 4) THEN Fail(m, "No item in stack")
  ELSE LET c == Cell(m, m.fp + 3)
           m1 == IF CellWord(c) = 0 THEN Put(m, m.fp + 3, IA(bl)) ELSE m
       IN IF bl > 1 THEN Put(m1, m.fp + 4, IA(DispOf(m, bl - 1))) ELSE m1

\* a procedure, a function or an implicit subroutine is entered
Enter(m, ret, n) ==
  IF n > 1000 THEN Fail(m, "open") ELSE
  LET f == SP(m)
      pd == Level(m) * LevelUnit + m.fp
      links == <<IA(m.fp), IA(ret), IA(m.sb), IA(0), IA(0)>>
      pars == [i \in 1..2 * n |-> IF i % 2 = 1 THEN IntV(0) ELSE IA(pd)]
      sb1 == f + 5 + 2 * n
  IN [m EXCEPT !.stk = @ \o links \o pars, !.fp = f, !.sb = sb1,
               !.eis = (sb1 :> "VALUE") @@ @,
               !.fr = Append(@, [fp |-> f, fp0 |-> m.fp, sb0 |-> m.sb])]
\* it is left: the address to go on at, and the state before
LeaveTo(m) == GetA(m, m.fp + 1)
Leave(m) ==
  IF ~Has(m, m.fp + 2) THEN Fail(m, "No frame stack to release")
  ELSE LET f == m.fp
           m1 == [m EXCEPT !.sb = GetA(m, f + 2), !.fp = GetA(m, f),
                           !.stk = SubSeq(@, 1, f),
                           !.fr = SelectSeq(@, LAMBDA x : x.fp < f)]
           m2 == [m1 EXCEPT !.eis = [b \in {k \in DOMAIN @ : k <= m1.sb} |-> @[b]]]
       IN UpdateDisplay(m2, Level(m2), m2.fp)

\* Go to: the activations above that of the destination end
GotoFrame(m, f) ==
  LET above == SelectSeq(m.fr, LAMBDA x : x.fp > f)
  IN IF above = <<>> THEN Fail(m, "Cannot find goto frame")
     ELSE Leave([m EXCEPT !.fp = above[1].fp])

(* --------------------------- variables ----------------------------------- *)
LoadWord(P, m, a) == IF a < StackBase THEN Load(P, m, a)
                     ELSE IF Has(m, a - StackBase) THEN CellWord(Cell(m, a - StackBase)) ELSE -1
LoadReal(P, m, a) ==
  IF a < StackBase THEN WordsReal(Load(P, m, a), Load(P, m, a + 1))
  ELSE LET c == Get(m, a - StackBase)
       IN IF IsErr(c) \/ IsR(c) THEN c ELSE IF c[1] = "?" THEN Err("open") ELSE IF CellWord(c) = 0 THEN RZero(0) ELSE Err("open")
LoadInt(P, m, a) == LET w == LoadWord(P, m, a) IN IF w = -2 THEN Err("open") ELSE IF w < 0 THEN NoCell ELSE IntCell(w)
\* the value of the variable a cell points to
ValueAt(P, m, c) == IF c[1] = "IA" THEN LoadInt(P, m, c[2])
                    ELSE IF c[1] = "RA" THEN LoadReal(P, m, c[2])
                    ELSE Err("Not an address")
StoreValue(m, dest, src) ==
  IF ~IsA(dest) THEN Fail(m, "Bad destination")
  ELSE IF ~IsNum(src) THEN Fail(m, "Cannot store address")
  ELSE LET v == IF dest[1] = "IA" THEN (IF IsI(src) THEN src ELSE RToInt(src))
                ELSE IF IsR(src) THEN src
                ELSE IF src[2] = NZ THEN RZero(1) ELSE IntToReal(src[2])
       IN IF IsErr(v) THEN Fail(m, v[2])
          ELSE IF dest[2] >= StackBase THEN Put(m, dest[2] - StackBase, v)
          ELSE IF IsI(v) THEN Store(m, dest[2], WordOf(v[2]))
          ELSE LET w == RealWords(v) IN Store(Store(m, dest[2], w[1]), dest[2] + 1, w[2])
\* a dynamic address: 32 * offset + block level
Dyn(m, d) == DispOf(m, d % 32) + (d \div 32)

(* --------------------------- arithmetic ---------------------------------- *)
Arith(op, a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN Err("open")
  ELSE CASE op = "ADD" -> Add(a, b) [] op = "SUB" -> Sub(a, b)
         [] op = "MUL" -> Mul(a, b) [] op = "DIV" -> Div(a, b)
PushV(m, v) == IF IsErr(v) THEN Fail(m, v[2]) ELSE Push(m, v)
\* top := top op v
OnTop(m, op, v) == IF IsErr(v) THEN Fail(m, v[2])
                   ELSE Popping(m, 1, LAMBDA x, c : PushV(x, Arith(op, c[1], v)))
SetTop(m, v) == IF IsErr(v) THEN Fail(m, v[2]) ELSE IF SP(m) = 0 THEN Fail(m, "open") ELSE Put(m, SP(m) - 1, v)

(* --------------------------- formal parameters --------------------------- *)
\* The actual parameters stand as descriptors before the call.  A post
\* operation is VALUE, ADDRESS, STRING, ADD ... DIV, or one of VALUE', ADD' ...
\* (the value found is an address, to be followed), or REMOVE.
Deref(op) == CASE op = "ADDRESS" -> op [] op = "VALUE" -> "VALUE'" [] op = "ADD" -> "ADD'" [] op = "SUB" -> "SUB'"
               [] op = "MUL" -> "MUL'" [] op = "DIV" -> "DIV'" [] OTHER -> ""
Plain(op) == CASE op = "VALUE'" -> "VALUE" [] op = "ADD'" -> "ADD" [] op = "SUB'" -> "SUB" [] op = "MUL'" -> "MUL"
               [] op = "DIV'" -> "DIV" [] OTHER -> op

Descriptor(P, m, d) == LET ret == GetA(m, DispOf(m, d % 32) + 1)
                       IN Load(P, m, ret - (((d \div 32) - 5) \div 2) - 3)
\* level and frame where the procedure with formal parameter d was called
CallEnv(m, d) == LET w == GetA(m, Dyn(m, d) + 1) IN <<w \div LevelUnit, w % LevelUnit>>
RECURSIVE UpTo(_, _, _, _)
UpTo(m, level, fp, want) == IF level = 0 THEN -1
                            ELSE IF level = want THEN fp
                            ELSE UpTo(m, level - 1, GetA(m, fp + 4), want)
ArgAddress(m, d, desc) == LET e == CallEnv(m, d)
                              f == UpTo(m, e[1], e[2], desc \div BinUnit)
                          IN IF f < 0 THEN -1 ELSE f + (desc % W15)

\* the value found is used
Use(P, m, op, addr, int) ==
  LET a1 == IF Plain(op) # op THEN LoadWord(P, m, addr) ELSE addr
      v == IF int THEN LoadInt(P, m, a1) ELSE LoadReal(P, m, a1)
      m1 == CASE op \in {"ADDRESS", "STRING"} -> Push(m, IF int THEN IA(addr) ELSE RA(addr))
              [] op \in {"VALUE", "VALUE'"} -> PushV(m, v)
              [] Plain(op) \in {"ADD", "SUB", "MUL", "DIV"} -> OnTop(m, Plain(op), v)
              [] OTHER -> Fail(m, "Unexpected operation")
  IN UpdateDisplay(m1, Level(m1), m1.fp)

\* d is a formal parameter that exists
FormalOK(m, d) == d \div 32 >= 5 /\ Has(m, DispOf(m, d % 32) + 1) /\ Has(m, Dyn(m, d) + 1)

RECURSIVE TakeFormal(_, _, _, _)
TakeFormal(P, m, d, op) ==
  IF ~FormalOK(m, d) THEN Fail(m, "open") ELSE
  LET desc == Descriptor(P, m, d)
      addr == desc % W15
      kind == (desc \div W15) % 64
      env == CallEnv(m, d)
      Implicit(op1) ==
        IF op1 = "STRING" THEN Use(P, m, op1, addr, TRUE)
        ELSE LET m1 == Enter(Push(m, IntV(0)), m.ot, 0)
                 m2 == IF env[1] > 0 THEN UpdateDisplay([m1 EXCEPT !.fp = env[2]], env[1], env[2]) ELSE m1
             IN [m2 EXCEPT !.eis = (m2.sb :> op1) @@ @, !.ot = addr]
      InStack == ArgAddress(m, d, desc)
  IN CASE kind = 0 -> Use(P, m, op, addr, FALSE)
       [] kind = 16 -> Use(P, m, op, addr, TRUE)
       [] kind = 2 -> IF InStack < 0 THEN Fail(m, "Cannot find arg address") ELSE Use(P, m, op, InStack + StackBase, FALSE)
       [] kind = 18 -> IF InStack < 0 THEN Fail(m, "Cannot find arg address") ELSE Use(P, m, op, InStack + StackBase, TRUE)
       [] kind = 6 -> TakeFormal(P, UpdateDisplay(m, env[1], env[2]), (desc \div BinUnit) + addr * 32, op)
       [] kind = 48 -> IF Deref(op) = "" THEN Fail(m, "Bad operation for dereferencing") ELSE Implicit(Deref(op))
       [] kind = 32 -> Implicit(op)
       [] OTHER -> Fail(m, "Unknown descriptor of formal argument")

\* the formal procedure d: <<state, address>>
RECURSIVE FormalProc(_, _, _)
FormalProc(P, m, d) ==
  IF ~FormalOK(m, d) THEN <<Fail(m, "open"), 0>> ELSE
  LET desc == Descriptor(P, m, d)
      env == CallEnv(m, d)
      m1 == UpdateDisplay(m, env[1], env[2])
  IN CASE (desc \div W15) % 64 = 6 -> FormalProc(P, m1, (desc \div BinUnit) + (desc % W15) * 32)
       [] (desc \div W15) % 64 = 32 -> <<m1, desc % W15>>
       [] OTHER -> <<Fail(m, "Unknown descriptor of formal procedure"), 0>>

\* what waits for the result that is now on top
Apply(P, m, op) ==
  CASE op \in {"ADD", "SUB", "MUL", "DIV"} ->
         Popping(m, 2, LAMBDA x, c : PushV(x, Arith(op, c[1], c[2])))
    [] op \in {"ADD'", "SUB'", "MUL'", "DIV'"} ->
         Popping(m, 2, LAMBDA x, c : LET v == ValueAt(P, x, c[2])
                                     IN IF IsErr(v) THEN Fail(x, v[2]) ELSE PushV(x, Arith(Plain(op), c[1], v)))
    [] op = "VALUE'" -> SetTop(m, ValueAt(P, m, Top(m)))
    [] OTHER -> m
EisOf(m) == IF m.sb \in DOMAIN m.eis THEN m.eis[m.sb] ELSE ""

(* --------------------------- arrays -------------------------------------- *)
MoreBase(m, n) == IF EisOf(m) = "" THEN Fail(m, "open")
                  ELSE [m EXCEPT !.sb = @ + n, !.eis = ((m.sb + n) :> EisOf(m)) @@ @]

\* Address, subscripts -> address of the element
Index(P, m) ==
  LET as == {i \in 1..SP(m) : IsA(m.stk[i])}
      b  == IF as = {} THEN 0 ELSE CHOOSE i \in as : \A j \in as : j <= i
      n  == SP(m) - b
      sf == m.stk[b][2]
      loc == ToI(LoadWord(P, m, sf))
      base == LoadWord(P, m, sf + 1)
      lim == ToI(LoadWord(P, m, sf + 2 + n))
      wid == IF sf < StackBase THEN W26 ELSE W27
      off == LET x == (base - loc) % wid IN IF x >= wid \div 2 THEN x - wid ELSE x
      ix == [i \in 1..n |-> LET c == m.stk[b + i] IN IF IsI(c) THEN c ELSE IF IsR(c) THEN RToInt(c) ELSE Err("open")]
      sz == [i \in 1..n |-> ToI(LoadWord(P, m, sf + 1 + i))]
      big == \E i \in 1..n : LET a == AbsI(IVal(ix[i][2])) IN a # 0 /\ AbsI(sz[i]) > 100000000 \div a
      RECURSIVE Sum(_)
      Sum(i) == IF i > n THEN 0 ELSE IVal(ix[i][2]) * sz[i] + Sum(i + 1)
      RECURSIVE D(_, _)
      D(x, k) == IF k = 0 THEN x ELSE D(Drop(x), k - 1)
  IN IF b = 0 \/ \E i \in b + 1..SP(m) : IsN(m.stk[i]) THEN Fail(m, "open")
     ELSE IF n = 0 THEN Fail(m, "Indexing but no indexes given")
     ELSE IF \E i \in 0..n + 2 : LoadWord(P, m, sf + i) < 0 THEN Fail(m, "No item in stack")
     ELSE IF lim >= 0 \/ -lim > 1048575 THEN Fail(m, "A wrong number of indexes for an array")
     ELSE IF \E i \in 1..n : IsErr(ix[i])
          THEN Fail(m, ix[CHOOSE i \in 1..n : IsErr(ix[i]) /\ \A j \in 1..i - 1 : ~IsErr(ix[j])][2])
     ELSE IF big THEN Fail(m, IF n = 1 THEN "Index beyond limits" ELSE "open")
     ELSE LET e == Sum(1) + off IN
          IF e < 0 \/ e + lim >= 0 THEN Fail(m, "Index beyond limits")
          ELSE Push(D(m, n + 1), IF m.stk[b][1] = "IA" THEN IA(loc + e) ELSE RA(loc + e))

\* storage functions of m.S local arrays with elements of size el
StorageFunctions(m, el) ==
  LET nd == (SP(m) - m.sb) \div 2
      Bound(c) == IF IsI(c) THEN c ELSE IF IsR(c) THEN RToInt(c) ELSE Err("Need integer, got address")
      cs == SubSeq(m.stk, SP(m) - 2 * nd + 1, SP(m))
      bs == [i \in 1..2 * nd |-> Bound(cs[i])]
      lo(i) == IVal(bs[2 * i - 1][2])
      hi(i) == IVal(bs[2 * i][2])
      TooBig(a, b) == b # 0 /\ AbsI(a) > 67108863 \div AbsI(b)
      \* strides and the place of element 0: <<strides, stride, offset, ok>>
      RECURSIVE Go(_, _, _, _)
      Go(i, strides, stride, offset) ==
        IF i > nd THEN <<strides, stride, offset, TRUE>>
        ELSE LET len == hi(i) - lo(i) + 1
             IN IF TooBig(stride, lo(i)) \/ TooBig(stride, len) THEN <<<<>>, 0, 0, FALSE>>
                ELSE LET o == offset + stride * lo(i)
                     IN IF AbsI(o) > 67108863 THEN <<<<>>, 0, 0, FALSE>>
                        ELSE Go(i + 1, Append(strides, IntV(stride)), stride * len, o)
      g == Go(1, <<>>, el, 0)
      one == <<IF el = 1 THEN IA(0) ELSE RA(0), IntV(g[3])>> \o g[1] \o <<IntV(-g[2])>>
      RECURSIVE Rep(_)
      Rep(k) == IF k <= 0 THEN <<>> ELSE one \o Rep(k - 1)
      m1 == [m EXCEPT !.stk = SubSeq(@, 1, Len(@) - 2 * nd), !.low = IF nd > 0 THEN Len(m.stk) - 2 * nd ELSE @]
  IN IF m.S = 0 \/ m.S > 1000 THEN Fail(m, "open")
     ELSE IF \E i \in 1..2 * nd : IsErr(bs[i]) THEN Fail(m, "array bound")
     ELSE IF ~g[4] THEN Fail(m, "Array does not fit into memory")
     ELSE MoreBase(PushAll(m1, Rep(m.S)), m.S * (nd + 3))

\* position (from 2) of the negated length in the storage function at index a
LenPos(m, a, max) ==
  LET ps == {i \in 2..max : Has(m, a + i) /\ IsI(Cell(m, a + i)) /\ IVal(Cell(m, a + i)[2]) < 0}
  IN IF ps = {} THEN -1 ELSE CHOOSE i \in ps : \A j \in ps : i <= j
AddrLike(c, a) == <<IF c[1] = "IA" THEN "IA" ELSE "RA", Mod27(a)>>

LocalArray(m) ==
  LET a == Dyn(m, m.S)
      c == Get(m, a)
      p == LenPos(m, a, 31)
      n == -IVal(Cell(m, a + p)[2])
      off == IVal(Cell(m, a + 1)[2])
  IN IF IsErr(c) THEN Fail(m, c[2])
     ELSE IF ~IsA(c) THEN Fail(m, "open")
     ELSE IF c[2] # 0 THEN Fail(m, "Misplaced array storage function frame")
     ELSE IF p < 0 THEN Fail(m, "Runaway array storage function frame")
     ELSE IF ~IsI(Cell(m, a + 1)) THEN Fail(m, "open")
     ELSE LET m1 == Put(Put(m, a, AddrLike(c, m.sb + StackBase)), a + 1, AddrLike(c, m.sb - off + StackBase))
          IN MoreBase(Allocate(m1, n), n)

\* the storage function of an array given for a value array
ValueFunction(P, m0, el) ==
  LET m == TakeFormal(P, m0, m0.S, "ADDRESS") IN
  IF m.err # "" THEN m
  ELSE IF m.fr # m0.fr \/ SP(m) # SP(m0) + 1 THEN Fail(m, "open")
  ELSE LET sf == Top(m)[2]
           m1 == Drop(m)
           w(i) == LoadWord(P, m1, sf + i)
           Ad(a) == IF el = 2 THEN RA(a) ELSE IA(a)
           first == IF ToI(w(2)) # el THEN ToI(w(2)) * 10 + el ELSE ToI(w(2))
           ws == [i \in 1..6 |-> IF i = 1 THEN IntCell(Mod27(IF ToI(w(2)) # el THEN first ELSE w(2))) ELSE IntCell(w(i + 1))]
       IN IF \E i \in 0..7 : w(i) < 0 THEN Fail(m, "No item in stack")
          ELSE IF AbsI(ToI(w(2))) > 100000 \/ first < 0 THEN Fail(m, "open")
          ELSE IF ~\E i \in 2..7 : ToI(w(i)) < 0 /\ -ToI(w(i)) <= 32767
          THEN Fail(m, "Too many dimensions for value array")
          ELSE MoreBase(PushAll(m1, <<Ad(w(0)), Ad(w(1))>> \o ws), 8)

TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
\* and its elements
ValueArray(P, m) ==
  LET a == Dyn(m, m.S)
      from == GetA(m, a)
      zero == GetA(m, a + 1)
      es == Cell(m, a + 2)
      el == CellWord(es)
      mul == IF el = 12 THEN 2 ELSE 1
      div == IF el = 21 THEN 2 ELSE 1
      int == el % 2 = 1
      p == LenPos(m, a, 7)
      FixSize(x) == TruncDiv(x * mul, div)
      RECURSIVE Sizes(_, _)
      Sizes(mm, i) == IF i > p THEN mm
                      ELSE Sizes(Put(mm, a + i, IntV(FixSize(IVal(Cell(m, a + i)[2])))), i + 1)
      n == -FixSize(IVal(Cell(m, a + p)[2]))
      wid == IF from < StackBase THEN W26 ELSE W27
      d == (from - zero) % wid
      off == FixSize(IF d >= wid \div 2 THEN d - wid ELSE d)
      Ad(x) == IF int THEN IA(Mod27(x)) ELSE RA(Mod27(x))
      m1 == IF mul # 1 \/ div # 1 THEN Sizes(m, 3) ELSE m
      m2 == Put(Put(m1, a, Ad(m.sb + StackBase)), a + 1, Ad(m.sb - off + StackBase))
      Elem_(mm, i) == CASE el = 1 -> LoadInt(P, mm, from + i)
                        [] el = 2 -> LoadReal(P, mm, from + i)
                        [] el = 21 -> LET r == LoadReal(P, mm, from + 2 * i) IN IF IsErr(r) THEN r ELSE RToInt(r)
                        [] el = 12 -> LET v == LoadInt(P, mm, from + i \div 2) IN IF IsErr(v) THEN v ELSE IntToReal(v[2])
      RECURSIVE Fill(_, _)
      Fill(mm, i) == IF i >= n \/ mm.err # "" THEN mm
                     ELSE LET v == Elem_(mm, i)
                          IN IF IsErr(v)
                             \* of the odd words of a real array nothing is said
                             THEN IF ~int /\ i % 2 = 1 /\ v[2] = "open" THEN Fill(Push(mm, <<"?">>), i + 1) ELSE Fail(mm, v[2])
                             ELSE Fill(Push(mm, IF ~int /\ i % 2 = 1 THEN <<"?">> ELSE v), i + 1)
      m3 == Fill(m2, 0)
      m4 == IF el > 2 THEN Put(m3, a + 2, IntV(el % 10)) ELSE m3
  IN IF ~Has(m, a + 2) THEN Fail(m, "No item in stack")
     ELSE IF ~IsA(Cell(m, a)) \/ ~IsA(Cell(m, a + 1)) \/ ~IsI(es) THEN Fail(m, "open")
     ELSE IF el \notin {1, 2, 12, 21} THEN Fail(m, "Impossible type conversion in VAP")
     ELSE IF p < 0 THEN Fail(m, "Runaway value array storage function frame")
     ELSE IF n > 30000 THEN Fail(m, "open")
     ELSE MoreBase(m4, n)

(* --------------------------- run-time routines --------------------------- *)
Goto(m, a) == [m EXCEPT !.ot = a]
\* result with which a value is left: takes the waiting operation with it
Return(P, m) ==
  LET op == EisOf(m)
      m1 == Goto(Leave(m), LeaveTo(m))
  IN IF op = "" THEN Fail(m, "open")
     ELSE IF m1.err # "" THEN m1
     ELSE IF SP(m1) = 0 THEN Fail(m1, "open")
     ELSE IF IsN(Top(m1)) THEN Drop(m1) ELSE Apply(P, m1, op)
EndImplicit(P, m0) ==
  IF SP(m0) = 0 THEN Fail(m0, "Cannot pop empty stack") ELSE
  LET item == Top(m0)
      op == EisOf(m0)
      m1 == Drop(m0)
      sb1 == IF op = "REMOVE" THEN m1.sb - 2 ELSE m1.sb
      f == sb1 - 5
      m2 == [m1 EXCEPT !.sb = sb1, !.fp = f]
      m3 == Goto(Leave(m2), LeaveTo(m2))
  IN IF op = "" \/ ~Has(m2, f - 1) \/ ~Has(m2, f + 4) THEN Fail(m0, "open")
     ELSE IF m3.err # "" THEN m3
     ELSE IF IsN(Cell(m2, f - 1)) THEN Drop(m3)
     ELSE IF item[1] = "?" THEN Fail(m3, "open")
     ELSE Apply(P, SetTop(m3, item), op)

Binary(m, f(_, _)) == Popping(m, 2, LAMBDA x, c : PushV(x, f(c[1], c[2])))
Truth(b) == IF b THEN IntV(0) ELSE IntV(1)
IsTrue(c) == IF IsI(c) THEN c[2] = 0 ELSE c[3] = <<>> /\ c[2] = 0
Compare(m, f(_)) == Binary(m, LAMBDA a, b : IF IsNum(a) /\ IsNum(b) THEN Truth(f(Cmp(a, b))) ELSE Err("open"))
Logic(m, f(_, _)) == Popping(m, 2, LAMBDA x, c :
    IF \E i \in 1..2 : ~IsNum(c[i]) THEN Fail(x, "Cannot convert address to boolean")
    ELSE Push(x, Truth(f(IsTrue(c[1]), IsTrue(c[2])))))
Unary(m, f(_)) == Popping(m, 1, LAMBDA x, c : IF IsNum(c[1]) THEN PushV(x, f(c[1])) ELSE Fail(x, "not a number"))
Store2(m, f(_, _, _)) == Popping(m, 2, LAMBDA x, c : f(StoreValue(x, c[1], c[2]), c[1], c[2]))
Need(m, c, t) == IF c[1] = t THEN c ELSE IF IsErr(c) THEN c ELSE Err("Wrong type")
StaticInt(P, m) == IntCell(Load(P, m, m.B))
StaticReal(P, m) == WordsReal(Load(P, m, m.B), Load(P, m, m.B + 1))
DynInt(m) == Need(m, Get(m, Dyn(m, m.S)), "I")
DynReal(m) == Need(m, Get(m, Dyn(m, m.S)), "R")
PushIf(m, v) == IF IsErr(v) THEN Fail(m, v[2]) ELSE Push(m, v)
\* a value the specification does not give: taken from the record
Given(m) == IF m.giv = <<>> \/ m.giv[1] # "R" THEN Err("open") ELSE m.giv
NumText(v) == IF IsI(v) THEN IntText(v[2]) ELSE RealText(v)
RECURSIVE PrintFrom(_, _, _)
PrintFrom(m, i, first) ==
  IF i >= SP(m) THEN m
  ELSE IF ~IsNum(Cell(m, i)) THEN Fail(m, "Cannot print address")
  ELSE PrintFrom(Emit(m, (IF first THEN <<>> ELSE <<32>>) \o NumText(Cell(m, i))), i + 1, FALSE)
\* <<n, m, x>> of FIXT, FLOT
Digits(c) == IF IsI(c) THEN IVal(c[2]) ELSE -1000
PopAll(m) == Popping(m, SP(m) - m.sb, LAMBDA x, c : x)

SetLevelAt(m0, b) ==
  LET m == IF Level(m0) # 0 THEN [m0 EXCEPT !.fp = m0.sb - 5] ELSE m0
  IN IF b > 31 THEN Fail(m0, "Bad block level in SCC")
     ELSE UpdateDisplay(SetLevel(m, b), b, m.fp)

Routine(P, m, n) ==
  CASE n = 8 -> Goto(Enter(Push(m, IntV(0)), m.ot, m.A), m.B)                          \* ETMR
    [] n = 9 -> Goto(Enter(Push(Store(m, 51, Mod27(m.ot - 8)), Nul), m.ot, m.A), m.B)        \* ETMP
    [] n = 10 -> LET x == FormalProc(P, m, m.S)                                        \* FTMR
                 IN IF x[1].err # "" THEN x[1] ELSE Goto(Enter(Push(x[1], IntV(0)), m.ot, m.A), x[2])
    [] n = 11 -> LET x == FormalProc(P, m, m.S)                                        \* FTMP
                 IN IF x[1].err # "" THEN x[1]
                    ELSE Goto(Enter(Push(Store(x[1], 51, Mod27(m.ot - 8)), Nul), m.ot, m.A), x[2])
    [] n = 12 -> Return(P, m)                                                          \* RET
    [] n = 13 -> EndImplicit(P, m)                                                     \* EIS
    [] n = 14 -> Push(m, RA(Dyn(m, m.S) + StackBase))                                  \* TRAD
    [] n = 15 -> Push(m, RA(m.B))                                                      \* TRAS
    [] n = 16 -> Push(m, IA(Dyn(m, m.S) + StackBase))                                  \* TIAD
    [] n = 17 -> Push(m, IA(m.B))                                                      \* TIAS
    [] n = 18 -> TakeFormal(P, m, m.S, "ADDRESS")                                      \* TFA
    [] n = 19 -> LET b == GetA(m, GetA(m, m.fp) + 3) + 1                               \* FOR0
                     m1 == MoreBase(Push([m EXCEPT !.B = b], IntV(0)), 1)
                 IN IF ~Has(m, m.fp) \/ ~Has(m, GetA(m, m.fp) + 3) THEN Fail(m, "No item in stack")
                    ELSE SetLevelAt(m1, b)
    [] n = 20 -> Goto(Put(m, m.fp + 5, IA(m.ot)), GetA(m, m.fp + 1))                   \* FOR1
    [] n = 21 -> Popping(m, 2, LAMBDA x, c :                                           \* FOR2
                   LET y == StoreValue(Put(x, m.fp + 1, IA(m.ot)), c[1], c[2]) IN Goto(y, GetA(y, m.fp + 5)))
    [] n = 22 -> Popping(m, 2, LAMBDA x, c : Push(StoreValue(x, c[1], c[2]), c[1]))    \* FOR3
    [] n = 23 -> Popping(m, 1, LAMBDA x, c :                                           \* FOR4
                   IF ~IsNum(c[1]) THEN Fail(x, "Cannot convert address to boolean")
                   ELSE LET y == [x EXCEPT !.C = IsTrue(c[1])]
                        IN IF y.C THEN Popping(y, 1, LAMBDA z, d : Goto(z, GetA(z, m.fp + 5)))
                           ELSE Put(y, m.fp + 1, IA(m.ot)))
    [] n = 24 -> Put(Put(m, m.fp - 1, Nul), m.fp + 1, IA(m.ot))                        \* FOR5
    [] n = 25 -> Popping(m, 1, LAMBDA x, c :                                           \* FOR6
                   IF ~IsNum(c[1]) THEN Fail(x, "Cannot get sign")
                   ELSE LET sg == IntV(SignOf(c[1]))
                            y == IF IsN(Cell(m, m.fp - 1)) THEN x
                                 ELSE Popping(x, 1, LAMBDA z, d :
                                        LET v == ValueAt(P, z, d[1])
                                        IN IF IsErr(v) THEN Fail(z, v[2]) ELSE PushV(Push(z, d[1]), Add(v, c[1])))
                        IN Put(y, m.fp - 1, sg))
    [] n = 26 -> Popping(m, 3, LAMBDA x, c :                                           \* FOR7: var value limit
                   IF ~IsNum(c[2]) \/ ~IsNum(c[3]) \/ ~IsI(Cell(m, m.fp - 1)) THEN Fail(x, "open")
                   ELSE LET y == StoreValue(x, c[1], c[2])
                            d == IVal(Cell(m, m.fp - 1)[2])
                            k == Cmp(c[2], c[3])
                        IN IF (d > 0 /\ k > 0) \/ (d < 0 /\ k < 0)
                           THEN Put(Push(y, c[1]), m.fp + 1, IA(m.ot))
                           ELSE Goto(y, GetA(y, m.fp + 5)))
    [] n = 27 -> Popping(m, 1, LAMBDA x, c :                                           \* FOR8
                   Return(P, Put(Put(x, m.fp - 1, Nul), m.fp + 1, IA(m.S))))
    [] n = 28 -> IF m.B > 31 THEN Fail(m, "open")                                      \* GTA
                 ELSE LET m1 == GotoFrame(m, DispOf(m, m.B))
                      IN IF m1.err # "" THEN m1
                         ELSE Popping(m1, 1, LAMBDA x, c : IF SP(x) > x.sb THEN Cut(x, x.sb) ELSE x)
    [] n = 29 -> Popping(m, 1, LAMBDA x, c :                                           \* SSI
                   LET v == IF IsR(c[1]) THEN RToInt(c[1]) ELSE c[1]
                   IN IF IsErr(v) THEN Fail(x, v[2]) ELSE Store(x, 48, CellWord(v)))
    [] n = 30 -> Popping(m, 1, LAMBDA x, c :                                           \* CAC
                   IF ~IsNum(c[1]) THEN Fail(x, "Cannot convert address to boolean") ELSE [x EXCEPT !.C = IsTrue(c[1])])
    [] n = 31 -> PushIf(m, DynReal(m))                                                 \* TRRD
    [] n = 32 -> PushIf(m, StaticReal(P, m))                                           \* TRRS
    [] n = 33 -> PushIf(m, DynInt(m))                                                  \* TIRD
    [] n = 34 -> Push(m, StaticInt(P, m))                                              \* TIRS
    [] n = 35 -> TakeFormal(P, m, m.S, "VALUE")                                        \* TFR
    [] n \in 36..55 ->
         LET op == CASE n \in 36..40 -> "ADD" [] n \in 41..45 -> "SUB" [] n \in 46..50 -> "MUL" [] OTHER -> "DIV"
             k == (n - 36) % 5
         IN (CASE k = 0 -> OnTop(m, op, DynReal(m)) [] k = 1 -> OnTop(m, op, StaticReal(P, m))
              [] k = 2 -> OnTop(m, op, DynInt(m)) [] k = 3 -> OnTop(m, op, StaticInt(P, m))
              [] k = 4 -> TakeFormal(P, m, m.S, op))
    [] n = 56 -> Index(P, m)                                                           \* IND
    [] n = 57 -> Unary(m, LAMBDA a : NegNum(a))                                        \* NEG
    [] n = 58 -> Popping(m, 1, LAMBDA x, c : PushIf(x, ValueAt(P, x, c[1])))           \* TAR
    [] n = 59 -> Binary(m, LAMBDA a, b : Arith("ADD", a, b))
    [] n = 60 -> Binary(m, LAMBDA a, b : Arith("SUB", a, b))
    [] n = 61 -> Binary(m, LAMBDA a, b : Arith("MUL", a, b))
    [] n = 62 -> Binary(m, LAMBDA a, b : Arith("DIV", a, b))
    [] n = 63 -> Binary(m, LAMBDA a, b : IDiv(a, b))                                   \* IDI
    [] n = 64 -> Binary(m, LAMBDA a, b : IF ~IsNum(a) \/ ~IsNum(b) THEN Err("Cannot exponentiate address")
                                         ELSE LET v == Power(a, b) IN IF v[1] = "PW" THEN Given(m) ELSE v)   \* TTP
    [] n = 65 -> Compare(m, LAMBDA c : c > 0)
    [] n = 66 -> Compare(m, LAMBDA c : c >= 0)
    [] n = 67 -> Compare(m, LAMBDA c : c = 0)
    [] n = 68 -> Compare(m, LAMBDA c : c <= 0)
    [] n = 69 -> Compare(m, LAMBDA c : c < 0)
    [] n = 70 -> Compare(m, LAMBDA c : c # 0)
    [] n = 71 -> Unary(m, LAMBDA a : Truth(~IsTrue(a)))
    [] n = 72 -> Logic(m, LAMBDA a, b : a /\ b)
    [] n = 73 -> Logic(m, LAMBDA a, b : a \/ b)
    [] n = 74 -> Logic(m, LAMBDA a, b : a => b)
    [] n = 75 -> Logic(m, LAMBDA a, b : a = b)
    [] n = 76 -> Unary(m, LAMBDA a : AbsNum(a))
    [] n = 77 -> Unary(m, LAMBDA a : IntV(SignOf(a)))
    [] n = 78 -> Unary(m, LAMBDA a : LET x == ToReal(a) IN
                   IF x[3] = <<>> THEN x ELSE IF x[2] = 1 THEN Err("Square root of a negative number") ELSE SqrtReal(x))
    [] n \in {79, 80, 81} -> Unary(m, LAMBDA a : Given(m))                             \* sin cos arctan
    [] n = 82 -> Unary(m, LAMBDA a : IF SignOf(a) <= 0 THEN Err("Cannot get logarithm") ELSE Given(m))
    [] n = 83 -> Unary(m, LAMBDA a : IF m.giv = <<>> /\ SignOf(a) > 0 THEN Err("Overflow in exponential function") ELSE Given(m))
    [] n = 84 -> Unary(m, LAMBDA a : Entier(a))
    [] n = 85 -> Store2(m, LAMBDA x, d, s : x)                                         \* ST
    [] n = 86 -> Store2(m, LAMBDA x, d, s : Push(x, s))                                \* STA
    [] n \in {87, 88} -> Popping(m, 1, LAMBDA x, c :                                   \* STP STAP
                   LET f == IF m.B + 1 > 31 THEN 0 ELSE DispOf(m, m.B + 1)
                       y == IF IsN(Get(x, f - 1)) THEN x ELSE Put(x, f - 1, c[1])
                   IN IF m.B > 30 \/ ~Has(x, f - 1) THEN Fail(m, "open")
                      ELSE IF n = 87 THEN y ELSE [Push(y, c[1]) EXCEPT !.low = m.low])
    [] n = 89 -> SetLevelAt(m, m.B)                                                    \* SCC
    [] n = 90 -> StorageFunctions(m, 2)
    [] n = 91 -> StorageFunctions(m, 1)
    [] n = 92 -> ValueFunction(P, m, 2)
    [] n = 93 -> ValueFunction(P, m, 1)
    [] n = 94 -> LocalArray(m)
    [] n = 95 -> ValueArray(P, m)
    [] n = 96 -> m                                                                     \* START
    [] n = 97 -> [m EXCEPT !.halt = TRUE]                                              \* STOP
    [] n = 98 ->                                                                       \* TFP
         LET pf == GetA(m, m.fp)
             b == IF Level(m) = 0 THEN GetA(m, pf + 3) + 1 ELSE Level(m)
             m1 == IF Level(m) = 0 THEN UpdateDisplay(SetLevel(m, b), b, m.fp) ELSE m
         IN IF Level(m) = 0 /\ (~Has(m, m.fp) \/ ~Has(m, pf + 3)) THEN Fail(m, "No item in stack")
            ELSE IF m1.err # "" THEN m1
            ELSE TakeFormal(P, [m1 EXCEPT !.eis = (m1.sb :> "REMOVE") @@ @], 160 + b, "VALUE")
    [] n = 99 -> Emit(m, SymbolText(m.S % 128))                                        \* TAS
    [] n = 102 -> LET r == ReadNumber(P.input, m.inp)                                  \* read
                  IN IF r.ok THEN [Push(m, ToReal(r.val)) EXCEPT !.inp = r.pos] ELSE Fail(m, "Bad input")
    [] n = 103 -> IF SP(m) < m.sb THEN Fail(m, "open")                                 \* print
                  ELSE LET x == PrintFrom(m, m.sb, TRUE) IN IF x.err # "" THEN x ELSE Cut(x, m.sb)
    [] n = 104 -> Emit(m, <<9>>)
    [] n = 105 -> Emit(m, <<10>>)
    [] n = 106 -> Popping(m, 1, LAMBDA x, c :                                          \* XEEN
                    LET r == IF m.sws = 0 THEN ReadSwitches(P.input, m.inp) ELSE [ok |-> TRUE, val |-> m.sws - 1, pos |-> m.inp]
                    IN IF ~IsI(c[1]) THEN Fail(x, "Need integer")
                       ELSE IF ~r.ok THEN Fail(x, "Bad input")
                       ELSE [Push(x, IntV(AndInt(r.val, c[1][2]))) EXCEPT !.inp = r.pos, !.sws = r.val + 1])
    [] n = 107 -> Popping(m, 1, LAMBDA x, c : IF ~IsI(c[1]) THEN Fail(x, "Need integer")
                    ELSE LET k == IVal(c[1][2])
                         IN IF k > 100000 THEN Fail(x, "open") ELSE IF k <= 0 THEN x ELSE Emit(x, [i \in 1..k |-> 32]))
    [] n = 108 -> [m EXCEPT !.sws = 0]                                                 \* stop
    [] n = 110 -> LET k == SP(m) - m.sb                                                \* FLOT
                      c == SubSeq(m.stk, m.sb + 1, SP(m))
                  IN IF k < 1 THEN Fail(m, "open")
                     ELSE IF ~IsNum(c[k]) THEN Fail(m, "Cannot convert address")
                     ELSE IF k \notin {2, 3} THEN Fail(m, "Wrong arguments for FLOT()")
                     ELSE IF \E i \in 1..k - 1 : ~IsI(c[i]) THEN Fail(m, "Need integer")
                     ELSE EmitItem(PopAll(m), <<"flo", Digits(c[1]), IF k = 3 THEN Digits(c[2]) ELSE 2, ToReal(c[k])>>)
    [] n \in {111, 112} -> LET k == SP(m) - m.sb                                       \* FIXT ABSFIXT
                               c == SubSeq(m.stk, SP(m) - 2, SP(m))
                  IN IF k < 3 THEN Fail(m, "open")
                     ELSE IF ~IsNum(c[3]) THEN Fail(m, "Cannot convert address")
                     ELSE IF ~IsI(c[1]) \/ ~IsI(c[2]) THEN Fail(m, "Need integer")
                     ELSE EmitItem(Popping(m, 3, LAMBDA x, d : x), <<"fix", n = 111, Digits(c[1]), Digits(c[2]), ToReal(c[3])>>)
    [] OTHER -> Fail(m, "Opcode is not supported")

(* ------------------------------- orders ---------------------------------- *)
\* logical product of two words of 15 bits
RoundShift(w, n) == (w \div 2^n) + (w % 2^n) * 2^(27 - n)
ArithShift(w, n) == (w \div 2^n) + (IF w >= W26 THEN W27 - 2^(27 - n) ELSE 0)

\* f: function, digit, mode and condition setting as twelve bits; a: address
Order(P, m, f, a) ==
  CASE f = 0 -> Routine(P, m, a)
    [] f = 144 -> [m EXCEPT !.A = a]                                           \* 2A a A
    [] f = 164 /\ a = 32764 ->                                                 \* 2A 32764 X0 B P: top of stack
         IF SP(m) = 0 \/ Top(m)[1] = "?" THEN Fail(m, "open")
         ELSE LET w == CellWord(Top(m)) IN [m EXCEPT !.A = w, !.C = (w < W26), !.L = (w >= W26)]
    [] f = 208 -> [m EXCEPT !.A = Ones27 - a]                                  \* 3A a A
    [] f = 232 /\ a = 32767 ->                                                 \* 3A 32767 X0 B Z: type of the top
         IF SP(m) = 0 \/ Top(m)[1] = "?" THEN Fail(m, "open")
         ELSE LET c == Top(m) IN
              IF IsN(c) THEN Fail(m, "Bad stack cell type")
              ELSE IF IsA(c) THEN [m EXCEPT !.A = -1, !.C = FALSE, !.L = TRUE]   \* some negative number
              ELSE [m EXCEPT !.A = IF IsI(c) THEN 0 ELSE 1, !.C = IsI(c), !.L = FALSE]
    [] f = 256 /\ a = 49 -> Allocate(m, m.A)                                   \* 4A 49 X0: locals
    [] f = 256 /\ a = 50 -> IF m.A > 100000 THEN Fail(m, "open") ELSE MoreBase(m, m.A)
    [] f = 384 -> Store(m, a, m.A)                                             \* 6A a X0
    [] f = 416 /\ a = 32764 ->                                                 \* 6A 32764 X0 B
         IF SP(m) = 0 THEN Fail(m, "open")
         ELSE IF ~IsI(Top(m)) THEN Fail(m, "open") ELSE Put(m, SP(m) - 1, IntCell(m.A))
    [] f = 640 -> [m EXCEPT !.S = Load(P, m, a)]                               \* 2S a X0
    [] f = 656 -> [m EXCEPT !.S = a]                                           \* 2S a A
    [] f = 672 -> [m EXCEPT !.S = Load(P, m, a + m.B)]                         \* 2S a X0 B
    [] f = 896 -> Store(m, a, m.S)                                             \* 6S a X0
    [] f = 1817 -> [m EXCEPT !.C = (m.S = a)]                                  \* U 0LS a A Z
    [] f = 1936 -> [m EXCEPT !.S = AndNat(m.S, a)]                             \* 2LS a A
    [] f = 2064 -> IF m.B + a >= W27 THEN Fail(m, "open") ELSE [m EXCEPT !.B = @ + a]                                      \* 0B a A
    [] f = 2176 -> [m EXCEPT !.B = Load(P, m, a) % W15]                        \* 2B a X0
    [] f = 2192 -> [m EXCEPT !.B = a]                                          \* 2B a A
    [] f = 2208 /\ a = 5 ->                                                    \* 2B 5 X0 B: a string parameter
         LET m1 == TakeFormal(P, m, 161, "STRING") IN
         IF m1.err # "" THEN m1
         ELSE IF ~IsA(Top(m1)) THEN Fail(m1, "Need address") ELSE [Drop(m1) EXCEPT !.B = Top(m1)[2], !.low = m.low]
    [] f = 2208 -> [m EXCEPT !.B = Load(P, m, a + m.B)]                        \* 2B a X0 B
    [] f = 2432 -> Store(m, a, m.B)                                            \* 6B a X0
    [] f = 2624 -> Goto(m, (m.ot - 1 - Load(P, m, a)) % W15)                   \* 1T a X0
    [] f = 2704 -> Goto(m, a)                                                  \* 2T a A
    [] f = 2820 -> LET w == Word(P, m, 0)                                      \* 4T a 0 P: M[0] counts down
                       m1 == Store(m, 0, IF w > 1 THEN w - 1 ELSE IF w = 1 THEN Ones27 ELSE Ones27 - 1)
                   IN IF w >= W26 THEN Fail(m, "open") ELSE IF w > 1 THEN Goto(m1, a) ELSE m1
    [] f = 3520 -> IF a = 16384 THEN Fail(m, "Standard function operand type check failed")
                   ELSE Fail(m, "Unknown instruction")
    [] f \in {3532, 4032} /\ a \div 32 \in {0, 1} ->                            \* 1P n AA E, 3P n AA, ... SS
         LET n == a % 32
             r == IF a \div 32 = 0 THEN m.A ELSE m.S
             w == IF f = 3532 THEN RoundShift(r, n) ELSE ArithShift(r, n)
             m1 == IF a \div 32 = 0 THEN [m EXCEPT !.A = w] ELSE [m EXCEPT !.S = w]
         IN IF n > 27 THEN Fail(m, "open")
            ELSE IF f = 3532 THEN [m1 EXCEPT !.C = ((w >= W26) = m.L), !.L = (w >= W26)] ELSE m1
    [] OTHER -> Fail(m, "Unknown instruction")

NoFun == [x \in {} |-> 0]
Init0(P) == [ot |-> P.start, A |-> 0, B |-> 0, C |-> FALSE, L |-> FALSE, S |-> 0, stk |-> <<>>, fp |-> 0, sb |-> 0,
             disp |-> [i \in 1..31 |-> 0], eis |-> NoFun, st |-> NoFun, fr |-> <<>>, out |-> <<>>, inp |-> 1,
             sws |-> 0, wr |-> <<>>, low |-> 1000000, dev |-> <<>>, giv |-> <<>>, err |-> "", halt |-> FALSE]

\* Some condition reaction: the order is skipped where it does not hold
Step(P, m0, dev, giv) ==
  LET at == m0.ot % W15
      w == Word(P, m0, at)
      f == w \div W15
      m == [m0 EXCEPT !.ot = at + 1, !.wr = <<>>, !.low = 1000000, !.dev = dev, !.giv = giv]
  IN IF (f % 4 = 2 /\ ~m.C) \/ (f % 4 = 3 /\ m.C) THEN m
     ELSE Order(P, m, IF f % 4 \in {2, 3} THEN f - (f % 4) ELSE f, w % W15)

(* ----------------------- consistency of the stack ------------------------ *)
\* The frames lie one above the other, and each remembers the state before it;
\* the current frame is one of them (or none), and the base lies above it.
FrameOK(m, i) ==
  LET x == m.fr[i]
  IN /\ Has(m, x.fp + 4)
     /\ (IF i = 1 THEN x.fp >= 1 ELSE x.fp > m.fr[i - 1].fp + 4)
     /\ Cell(m, x.fp) = IA(x.fp0)
     /\ Cell(m, x.fp + 2) = IA(x.sb0)
     /\ IsA(Cell(m, x.fp + 1)) /\ IsA(Cell(m, x.fp + 3)) /\ IsA(Cell(m, x.fp + 4))
FramesOK(m) == \A i \in 1..Len(m.fr) : FrameOK(m, i)
CurrentOK(m) ==
  IF m.fr = <<>> THEN m.fp = 0 /\ m.sb = 0
  ELSE LET t == m.fr[Len(m.fr)] IN
       /\ FrameOK(m, Len(m.fr))
       /\ m.sb >= t.fp + 5 /\ m.sb <= SP(m)
       /\ m.fp = 0 \/ \E i \in 1..Len(m.fr) : m.fr[i].fp = m.fp
\* the levels of the current frame down to 1 are those of the static chain
RECURSIVE ChainOK(_, _, _)
ChainOK(m, l, f) ==
  IF l = 0 THEN TRUE
  ELSE /\ l <= 31
       /\ m.disp[l] = f
       /\ \E i \in 1..Len(m.fr) : m.fr[i].fp = f
       /\ Cell(m, f + 3) = IA(l)
       /\ (l > 1 => GetA(m, f + 4) < f)
       /\ ChainOK(m, l - 1, GetA(m, f + 4))
DisplayOK(m) == ChainOK(m, Level(m), m.fp)

Routines(P, m0) == LET w == Word(P, m0, m0.ot % W15) IN IF w < W15 THEN w ELSE 0
Leaving == {12, 13, 27, 28}
\* what holds of a step from m0 to m
StepOK(P, m0, m) ==
  LET r == Routines(P, m0) IN
  IF m.err # "" THEN ""
  ELSE IF ~CurrentOK(m) THEN "the current frame is broken"
  ELSE IF ~DisplayOK(m) THEN "the level table is broken"
  ELSE IF r \notin Leaving /\ m.low < m0.sb THEN "a value is taken from below the current frame"
  ELSE IF r = 12 /\ SP(m0) # m0.sb /\ m0.sb > 0 THEN "a block ends with values on the stack"
  ELSE IF r \in {12, 13, 27} /\ Len(m.fr) < Len(m0.fr)
          /\ LET t == m0.fr[Len(m.fr) + 1]
             IN m.fp # t.fp0 \/ m.sb # t.sb0 \/ Len(m.fr) # Len(m0.fr) - 1
       THEN "the state before a call is not restored"
  ELSE IF r \in {85, 87, 9, 11, 90, 91, 92, 93, 94, 95} /\ SP(IF r \in {9, 11} THEN m0 ELSE m) # (IF r \in {9, 11} THEN m0 ELSE m).sb
       THEN "a statement leaves values on the stack"
  ELSE IF m.halt /\ (m.stk # <<>> \/ m.fr # <<>> \/ m.fp # 0 \/ m.sb # 0) THEN "the program ends with values or frames on the stack"
  ELSE ""
=============================================================================
