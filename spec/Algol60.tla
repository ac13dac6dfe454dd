------------------------------ MODULE Algol60 -------------------------------
(* The meaning of X1-ALGOL programs: a small-step machine over the syntax    *)
(* tree.  One state of this specification is one step of the execution of    *)
(* one program.  The state:                                                  *)
(*   K     what remains to be done: a stack of control items                 *)
(*   V     values and addresses of the expressions under evaluation          *)
(*   env   the current environment; envs: all environments created so far,   *)
(*         each with the enclosing one and its bindings                      *)
(*   mem   the variables: each cell holds a value, or <<"U">> (undefined)    *)
(*   arrs  array descriptors                                                 *)
(*   own   the environment-independent bindings of own declarations          *)
(*   out   what was output: a sequence of items                              *)
(*   inp   position in the input                                             *)
(*   st    "run", "end" (normal end), "err", or "open" (the language leaves  *)
(*         open what happens from here on)                                   *)
EXTENDS Decimal, Elem, Input, Programs, TLC

Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
PopN(s, n) == SubSeq(s, 1, Len(s) - n)
LastN(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

U == <<"U">>
NoMap == [x \in {} |-> 0]

(* --------------------------- environments ------------------------------- *)
\* the binding of a name: looked for in the enclosing environments in turn
RECURSIVE LookUp(_, _, _)
LookUp(m, name, e) ==
  IF e = 0 THEN <<"std", name>>
  ELSE LET E == m.envs[e] IN
       IF name \in DOMAIN E.b THEN E.b[name] ELSE LookUp(m, name, E.up)

\* the same, but a formal parameter whose actual is again a name denotes
\* whatever that name denotes where the call stands
RECURSIVE Resolve(_, _, _, _)
Resolve(p, m, name, e) ==
  LET b == LookUp(m, name, e)
  IN IF b[1] = "nm" /\ Progs[p].nodes[b[2]][1] = "v"
     THEN Resolve(p, m, Progs[p].nodes[b[2]][2], b[3])
     ELSE b

NewEnv(m, up, b) == [m EXCEPT !.envs = Append(@, [up |-> up, b |-> b])]

(* The labels of a statement, each with the control items that continue from *)
(* there to the end of the statement (path is what follows the statement).   *)
RECURSIVE LabelsIn(_, _, _)
RECURSIVE LabelsSeq(_, _, _, _)
LabelsIn(p, n, path) ==
  LET N == Progs[p].nodes[n]
  IN CASE N[1] = "lb" -> LET path2 == path \o <<<<"st", N[3]>>>>
                         IN (N[2] :> path2) @@ LabelsIn(p, N[3], path)
       [] N[1] = "co" -> LabelsSeq(p, n, 1, path)
       [] N[1] = "ifs" -> IF N[4] = 0 THEN LabelsIn(p, N[3], path)
                          ELSE LabelsIn(p, N[3], path) @@ LabelsIn(p, N[4], path)
       [] OTHER -> NoMap
LabelsSeq(p, n, i, path) ==
  LET ss == IF Progs[p].nodes[n][1] = "co" THEN Progs[p].nodes[n][2] ELSE Progs[p].nodes[n][3]
  IN IF i > Len(ss) THEN NoMap
     ELSE LabelsIn(p, ss[i], path \o <<<<"sq", n, i + 1>>>>) @@ LabelsSeq(p, n, i + 1, path)

\* bindings of labels: how much of K and V to keep, where to go on, and in
\* which environment
LabelBinds(labs, klen, vlen, e) ==
  [l \in DOMAIN labs |-> <<"lab", klen, vlen, labs[l], e>>]

(* ----------------------------- the machine ------------------------------ *)
Init0(p) == [K |-> <<<<"st", Len(Progs[p].nodes)>>>>, V |-> <<>>, env |-> 0,
             envs |-> <<>>, mem |-> <<>>, arrs |-> <<>>, own |-> NoMap,
             out |-> <<>>, inp |-> 1, sws |-> 0, rnd |-> <<<<"time">>, 0>>, st |-> "run", why |-> ""]

Fail(m, why) == [m EXCEPT !.st = IF why = "open" THEN "open" ELSE "err", !.why = why, !.K = <<>>]
\* the language leaves open what happens from here on
Open(m, why) == [m EXCEPT !.st = "open", !.why = why, !.K = <<>>]

\* replace the top control item / push and pop values
Go(m, items) == [m EXCEPT !.K = Pop(@) \o items]
PushV(m, v) == IF IsErr(v) THEN Fail(m, v[2])
               ELSE [m EXCEPT !.K = Pop(@), !.V = Append(@, v)]
PopPush(m, n, v) == IF IsErr(v) THEN Fail(m, v[2])
                    ELSE [m EXCEPT !.K = Pop(@), !.V = Append(PopN(@, n), v)]

\* conversion to the type of the destination
Conv(ty, v) == CASE ty = "I" /\ IsR(v) -> RToInt(v)
                 [] ty = "R" /\ IsI(v) -> IF v[2] = NZ THEN RZero(1) ELSE IntToReal(v[2])
                 [] OTHER -> v
\* an address: <<"A", type, cell>>
Store(m, addr, v) ==
  LET c == Conv(addr[2], v)
  IN IF IsErr(c) THEN Fail(m, c[2]) ELSE [m EXCEPT !.mem[addr[3]] = c]
Load(m, addr) == LET v == m.mem[addr[3]]
                 IN IF v = U THEN Err("Use of an undefined value") ELSE v

Emit(m, codes) == [m EXCEPT !.out = IF @ # <<>> /\ Top(@)[1] = "t"
                                    THEN Append(Pop(@), <<"t", Top(@)[2] \o codes>>)
                                    ELSE Append(@, <<"t", codes>>)]
EmitItem(m, it) == [m EXCEPT !.out = Append(@, it)]

(* ----------------------------- declarations ----------------------------- *)
\* initial value of a cell: static variables (those of the outermost block,
\* and own variables) are zero, as are integers on the stack
InitCell(ty, static) == IF ty = "B" THEN (IF static THEN <<"B", TRUE>> ELSE <<"B", TRUE>>)
                        ELSE IF ty = "I" THEN IntV(0)
                        ELSE IF static THEN RZero(0) ELSE U
Cells(ty, static, n) == LET v == InitCell(ty, static) IN [i \in 1..n |-> v]

RECURSIVE DeclVars(_, _, _, _, _, _)
\* bindings of the declarations ds[i..] of block n; e is the block's environment
DeclVars(p, n, i, m, e, static) ==
  LET ds == Progs[p].nodes[n][2]
  IN IF i > Len(ds) THEN m
     ELSE LET D == Progs[p].nodes[ds[i]]
              m2 ==
       CASE D[1] = "dv" /\ ~D[3] ->
              LET base == Len(m.mem)
                  names == D[4]
              IN [m EXCEPT !.mem = @ \o Cells(D[2], static, Len(names)),
                           !.envs[e].b = [nm \in {names[j] : j \in 1..Len(names)} |->
                              <<"var", D[2], base + (CHOOSE j \in 1..Len(names) : names[j] = nm)>>] @@ @]
         [] D[1] = "dv" /\ D[3] ->
              LET base == Len(m.mem)
                  names == D[4]
                  new == ds[i] \notin DOMAIN m.own
                  b == IF new THEN [nm \in {names[j] : j \in 1..Len(names)} |->
                              <<"var", D[2], base + (CHOOSE j \in 1..Len(names) : names[j] = nm)>>]
                       ELSE m.own[ds[i]]
              IN [m EXCEPT !.mem = IF new THEN @ \o Cells(D[2], TRUE, Len(names)) ELSE @,
                           !.own = IF new THEN (ds[i] :> b) @@ @ ELSE @,
                           !.envs[e].b = b @@ @]
         [] D[1] = "dp" -> [m EXCEPT !.envs[e].b = (D[3] :> <<"proc", ds[i], e>>) @@ @]
         [] D[1] = "ds" -> [m EXCEPT !.envs[e].b = (D[2] :> <<"sw", ds[i], e>>) @@ @]
         [] OTHER -> m
          IN DeclVars(p, n, i + 1, m2, e, static)

\* control items that evaluate the bounds of the array segments and allocate
RECURSIVE BoundItems(_, _)
BoundItems(bs, i) == IF i = 0 THEN <<>>
                     ELSE <<<<"e", bs[i][2]>>, <<"e", bs[i][1]>>>> \o BoundItems(bs, i - 1)
RECURSIVE SegItems(_, _, _, _)
SegItems(d, segs, i, outer) ==
  IF i = 0 THEN <<>>
  ELSE <<<<"arr", d, i>>>> \o BoundItems(segs[i][2], Len(segs[i][2])) \o SegItems(d, segs, i - 1, outer)
RECURSIVE ArrayItems(_, _, _, _)
ArrayItems(p, m, ds, i) ==
  IF i = 0 THEN <<>>
  ELSE LET D == Progs[p].nodes[ds[i]] IN
       (IF D[1] = "da" /\ ~(D[3] /\ ds[i] \in DOMAIN m.own)
        THEN SegItems(ds[i], D[4], Len(D[4]), 0)
        ELSE IF D[1] = "da" THEN <<<<"own", ds[i]>>>> ELSE <<>>) \o ArrayItems(p, m, ds, i - 1)

\* subscripts rounded to integer, or -1000000000 if that fails
Bad == -1000000000
SubVal(v) == IF IsI(v) THEN IVal(v[2]) ELSE LET r == RToInt(v) IN IF IsErr(r) THEN Bad ELSE r[2]

\* strides, first subscript varying fastest
RECURSIVE MkDims(_, _, _)
MkDims(bv, i, stride) ==       \* bv: lo1, hi1, lo2, hi2, ...
  IF 2 * i > Len(bv) THEN <<>>
  ELSE <<<<bv[2*i-1], stride>>>> \o MkDims(bv, i + 1, stride * (bv[2*i] - bv[2*i-1] + 1))
RECURSIVE Total(_, _)
Total(bv, i) == IF 2 * i > Len(bv) THEN 1 ELSE (bv[2*i] - bv[2*i-1] + 1) * Total(bv, i + 1)

RECURSIVE Linear(_, _, _, _)
\* offset of the element; sums beyond any array are cut off
Linear(dims, idx, i, acc) ==
  IF i > Len(dims) THEN acc
  ELSE LET d == idx[i] - dims[i][1]
           x == IF d > 100000 \/ d < -100000 THEN 200000000
                ELSE LET y == d * dims[i][2] IN IF AbsI(y) > 100000000 THEN 200000000 ELSE y
       IN IF x = 200000000 THEN Bad ELSE Linear(dims, idx, i + 1, acc + x)

AllocArrays(p, m, d, seg) ==
  LET D == Progs[p].nodes[d]
      names == D[4][seg][1]
      nb == 2 * Len(D[4][seg][2])
      bv == [i \in 1..nb |-> SubVal(LastN(m.V, nb)[i])]
      tot == Total(bv, 1)
      base == Len(m.mem)
      static == m.envs[m.env].up = 0 \/ D[3]
      na == Len(m.arrs)
      b == [nm \in {names[j] : j \in 1..Len(names)} |->
              <<"arr", D[2], na + (CHOOSE j \in 1..Len(names) : names[j] = nm)>>]
  IN IF \E i \in 1..nb : bv[i] = Bad THEN Fail(m, "Overflow in a bound")
     ELSE [m EXCEPT !.K = Pop(@), !.V = PopN(@, nb),
             !.mem = @ \o Cells(D[2], static, tot * Len(names)),
             !.arrs = @ \o [j \in 1..Len(names) |->
                               [base |-> base + (j - 1) * tot, total |-> tot,
                                dims |-> MkDims(bv, 1, 1), ty |-> D[2]]],
             !.envs[m.env].b = b @@ @,
             !.own = IF D[3] THEN (d :> (b @@ (IF d \in DOMAIN @ THEN @[d] ELSE NoMap))) @@ @ ELSE @]

EnterBlock(p, m, n) ==
  LET N == Progs[p].nodes[n]
      m1 == NewEnv(m, m.env, NoMap)
      e  == Len(m1.envs)
      K1 == Pop(m.K) \o <<<<"env", m.env>>>>
      lb == LabelBinds(LabelsSeq(p, n, 1, <<>>), Len(K1), Len(m.V), e)
      m2 == DeclVars(p, n, 1, [m1 EXCEPT !.envs[e].b = lb], e, m.env = 0)
  IN [m2 EXCEPT !.env = e,
                !.K = K1 \o <<<<"sq", n, 1>>>> \o ArrayItems(p, m, N[2], Len(N[2]))]

(* ------------------------------ procedures ------------------------------ *)
RECURSIVE EvalItems(_, _)
EvalItems(args, i) == IF i = 0 THEN <<>> ELSE <<<<"e", args[i]>>>> \o EvalItems(args, i - 1)

IsValueArray(fm) == fm[2] = "array"
\* items that evaluate the value parameters in order: vals[i] = <<name, kind, type>>
RECURSIVE ValueItems(_, _, _, _, _)
ValueItems(vals, i, formals, args, callenv) ==
  IF i = 0 THEN <<>>
  ELSE LET k == CHOOSE j \in 1..Len(formals) : formals[j] = vals[i][1]
       IN (IF vals[i][2] = "array" THEN <<<<"va", vals[i][1], vals[i][3]>>>>
           ELSE <<<<"vp", vals[i][1], vals[i][3]>>, <<"in", args[k], callenv>>>>)
          \o ValueItems(vals, i - 1, formals, args, callenv)

\* call of a declared procedure; fn: its value is wanted
CallProc(p, m, b, args, fn) ==
  LET D == Progs[p].nodes[b[2]]      \* <<"dp", type, name, formals, vals, body>>
      fs == D[4]
      binds == [nm \in {fs[j] : j \in 1..Len(fs)} |->
                  <<"nm", args[CHOOSE j \in 1..Len(fs) : fs[j] = nm], m.env>>]
      m1 == NewEnv(m, b[3], binds)
      e  == Len(m1.envs)
      K1 == Pop(m.K) \o <<<<"ret", m.env, fn, Len(m1.mem) + 1>>>>
      lb == LabelBinds(LabelsIn(p, D[6], <<>>), Len(K1), Len(m.V), e)
  IN IF Len(args) # Len(fs) THEN Fail(m, "Wrong number of parameters")
     ELSE [m1 EXCEPT !.env = e,
             !.mem = IF D[2] = "" THEN @ ELSE Append(@, IF D[2] = "B" THEN <<"B", TRUE>> ELSE IntV(0)),
             !.envs[e].b = (IF D[2] = "" THEN lb
                            ELSE (D[7] :> <<"var", "F", Len(m1.mem) + 1>>) @@ lb) @@ @,
             !.K = K1 \o <<<<"st", D[6]>>>> \o ValueItems(D[5], Len(D[5]), fs, args, m.env)]

ByNameStd == {"PRINTTEXT", "SUM"}
Call(p, m, name, args, fn) ==
  LET b == Resolve(p, m, name, m.env)
  IN CASE b[1] = "proc" -> CallProc(p, m, b, args, fn)
       [] b[1] = "std" /\ b[2] \notin ByNameStd ->
            Go(m, <<<<"std", b[2], Len(args), fn>>>> \o EvalItems(args, Len(args)))
       [] b[1] = "std" -> Go(m, <<<<"stdn", b[2], args, fn>>>>)
       [] OTHER -> Fail(m, "Not a procedure")

(* ------------------------------ expressions ----------------------------- *)
\* digits * 10^scale.  The last bit is open where the exact value is so close to
\* the middle between two reals that a conversion with 50 bits may take either
\* (whole numbers of up to 13 digits need no conversion; the middle goes up).
LitReal(N) ==
  LET b  == DecBin(N[2], N[3])
      k  == IF N[3] < 0 THEN -N[3] ELSE N[3]
      up == MkReal(0, b[1], b[2], b[3])
      w  == BShl(b[1], 60)
      dn == MkReal(0, BSub(w, BShr(BMul(w, BFromNat(k + (IF Len(N[2]) > 13 THEN 16 ELSE 1))), 51)), b[2] - 60, b[3])
  IN IF b[1] = <<>> \/ up = dn \/ (k = 0 /\ Len(N[2]) <= 13) THEN up ELSE Err("open")

EvalStep(p, m, n) ==
  LET N == Progs[p].nodes[n]
  IN CASE N[1] = "i" -> PushV(m, IntV(N[2]))
       [] N[1] = "r" -> LET r == LitReal(N) IN IF IsErr(r) THEN Fail(m, r[2]) ELSE PushV(m, r)
       [] N[1] = "b" -> PushV(m, Bool(N[2]))
       [] N[1] = "v" ->
            LET b == LookUp(m, N[2], m.env)
            IN CASE b[1] = "var" -> PushV(m, Load(m, <<"A", b[2], b[3]>>))
                 [] b[1] = "nm"  -> Go(m, <<<<"env", m.env>>, <<"ee", b[2], b[3]>>>>)
                 [] OTHER -> Call(p, m, N[2], <<>>, TRUE)
       [] N[1] = "ix" -> Go(m, <<<<"ld">>, <<"ad", n>>>>)
       [] N[1] = "fc" -> Call(p, m, N[2], N[3], TRUE)
       [] N[1] = "un" -> Go(m, <<<<"un", N[2]>>, <<"e", N[3]>>>>)
       [] N[1] = "bi" -> Go(m, <<<<"bi", N[2]>>, <<"e", N[4]>>, <<"e", N[3]>>>>)
       [] N[1] = "if" -> Go(m, <<<<"if", N[3], N[4]>>, <<"e", N[2]>>>>)
       [] OTHER -> Fail(m, "Not an expression")

\* the address of a variable
AddrStep(p, m, n) ==
  LET N == Progs[p].nodes[n]
  IN CASE N[1] = "v" ->
            LET b == LookUp(m, N[2], m.env)
            IN CASE b[1] = "var" -> PushV(m, <<"A", b[2], b[3]>>)
                 [] b[1] = "nm"  -> Go(m, <<<<"env", m.env>>, <<"ae", b[2], b[3]>>>>)
                 [] b[1] = "proc" -> \* the value of the procedure being executed
                      LET r == LookUp(m, N[3], m.env)
                      IN IF r[1] = "var" THEN PushV(m, <<"A", r[2], r[3]>>)
                         ELSE Fail(m, "Assignment to a procedure")
                 [] OTHER -> Fail(m, "Assignment to an expression")
       [] N[1] = "ix" -> Go(m, <<<<"ix", N[2], Len(N[3])>>>> \o EvalItems(N[3], Len(N[3])))
       [] N[1] \in {"i", "r", "b"} -> Open(m, "Assignment to a constant")
       [] N[1] = "un" /\ N[2] = "+" /\ Progs[p].nodes[N[3]][1] \in {"i", "r"} ->
            Open(m, "Assignment to a constant")
       [] OTHER -> Fail(m, "Assignment to an expression")

Element(p, m, name, nsub) ==
  LET b == Resolve(p, m, name, m.env)
      idx == [i \in 1..nsub |-> SubVal(LastN(m.V, nsub)[i])]
  IN IF b[1] # "arr" THEN Fail(m, "Not an array")
     ELSE LET a == m.arrs[b[3]] IN
          IF Len(a.dims) # nsub THEN Fail(m, "Wrong number of subscripts")
          ELSE IF \E i \in 1..nsub : idx[i] = Bad THEN Fail(m, "Overflow in a subscript")
          ELSE LET off == Linear(a.dims, idx, 1, 0)
               IN IF off < 0 \/ off >= a.total THEN Fail(m, "Subscript out of range")
                  ELSE PopPush(m, nsub, <<"A", b[2], a.base + off + 1>>)

RelOp(op, c) == CASE op = "<" -> c < 0 [] op = "<=" -> c <= 0 [] op = "=" -> c = 0
                  [] op = ">=" -> c >= 0 [] op = ">" -> c > 0 [] op = "#" -> c # 0
BoolOp(op, a, b) == CASE op = "and" -> a /\ b [] op = "or" -> a \/ b
                      [] op = "imp" -> a => b [] op = "eqv" -> a <=> b
\* operands of the wrong type (only in programs nobody should write)
Binary(op, a, b) ==
  CASE op \in {"and", "or", "imp", "eqv"} /\ (a[1] # "B" \/ b[1] # "B") -> Err("Not a Boolean")
    [] op \notin {"and", "or", "imp", "eqv"} /\ (~IsNum(a) \/ ~IsNum(b)) -> Err("Not a number")
    [] op = "+" -> Add(a, b)
    [] op = "-" -> Sub(a, b)
    [] op = "*" -> Mul(a, b)
    [] op = "/" -> Div(a, b)
    [] op = "//" -> IDiv(a, b)
    [] op = "^" -> PowerFull(a, b)
    [] op \in {"<", "<=", "=", ">=", ">", "#"} -> Bool(RelOp(op, Cmp(a, b)))
    [] OTHER -> Bool(BoolOp(op, a[2], b[2]))
Unary(op, a) == CASE op = "-" -> NegNum(a) [] op = "+" -> a [] op = "not" -> Bool(~a[2])

(* ------------------------------ statements ------------------------------ *)
RECURSIVE AddrItems(_, _)
AddrItems(ts, i) == IF i = 0 THEN <<>> ELSE <<<<"ad", ts[i]>>>> \o AddrItems(ts, i - 1)

RECURSIVE StoreAll(_, _, _, _)
StoreAll(m, addrs, i, v) == IF i = 0 \/ m.st # "run" THEN m
                            ELSE StoreAll(Store(m, addrs[i], v), addrs, i - 1, v)

ExecStep(p, m, n) ==
  LET N == Progs[p].nodes[n]
  IN CASE N[1] = "as" -> Go(m, <<<<"as", Len(N[2])>>, <<"e", N[3]>>>> \o AddrItems(N[2], Len(N[2])))
       [] N[1] = "ca" -> Call(p, m, N[2], N[3], FALSE)
       [] N[1] = "go" -> Go(m, <<<<"go", N[2]>>>>)
       [] N[1] = "ifs" -> Go(m, <<<<"ifs", N[3], N[4]>>, <<"e", N[2]>>>>)
       [] N[1] = "for" ->
            LET labs == LabelsIn(p, N[4], <<>>)
            IN IF labs = NoMap THEN Go(m, <<<<"fo", n, 1, FALSE>>>>)
               ELSE \* the body of a for statement is a block of its own for labels
                    LET m1 == NewEnv(m, m.env, NoMap)
                        e == Len(m1.envs)
                        K1 == Pop(m.K) \o <<<<"env", m.env>>>>
                        \* (an iteration starts one item above: the loop itself)
                    IN [m1 EXCEPT !.env = e, !.K = K1 \o <<<<"fo", n, 1, FALSE>>>>,
                                  !.envs[e].b = LabelBinds(labs, Len(K1) + 1, Len(m.V), e)]
       [] N[1] = "bl" -> EnterBlock(p, m, n)
       [] N[1] = "co" -> Go(m, <<<<"sq", n, 1>>>>)
       [] N[1] = "lb" -> Go(m, <<<<"st", N[3]>>>>)
       [] N[1] = "nop" -> Go(m, <<>>)
       [] OTHER -> Fail(m, "Not a statement")

(* for statements: element i of the list; has: the address of the controlled *)
(* variable is left on V by an exhausted element                              *)
ForStep(p, m, n, i, has) ==
  LET N == Progs[p].nodes[n]
      ad == IF has THEN <<>> ELSE <<<<"ad", N[2]>>>>
  IN IF i > Len(N[3])
     THEN IF has THEN [m EXCEPT !.K = Pop(@), !.V = Pop(@)] ELSE Go(m, <<<<"drop">>, <<"ad", N[2]>>>>)
     ELSE LET E == Progs[p].nodes[N[3][i]]
          IN CASE E[1] = "e1" -> Go(m, <<<<"fo", n, i + 1, FALSE>>, <<"st", N[4]>>, <<"sto">>,
                                         <<"e", E[2]>>>> \o ad)
               [] E[1] = "ew" -> Go(m, <<<<"few", n, i>>, <<"e", E[3]>>, <<"stk">>, <<"e", E[2]>>>> \o ad)
               [] E[1] = "es" -> Go(m, <<<<"f7", n, i>>, <<"e", E[4]>>, <<"f6", TRUE>>, <<"e", E[3]>>,
                                         <<"e", E[2]>>>> \o ad)
ForAgain(p, m, n, i) ==
  LET N == Progs[p].nodes[n]
      E == Progs[p].nodes[N[3][i]]
  IN Go(m, <<<<"f7", n, i>>, <<"e", E[4]>>, <<"f6", FALSE>>, <<"e", E[3]>>, <<"ad", N[2]>>>>)
\* V: address, value, limit; the sign of the step is kept below them
For7(p, m, n, i) ==
  LET k == Len(m.V)
      limit == m.V[k]  value == m.V[k-1]  dir == m.V[k-2]  addr == m.V[k-3]
      m1 == Store([m EXCEPT !.V = PopN(@, 4)], addr, value)
      c == Cmp(limit, value)
  IN IF m1.st # "run" THEN m1
     ELSE IF (dir[2] > 0 /\ c < 0) \/ (dir[2] < 0 /\ c > 0)
     THEN [m1 EXCEPT !.K = Pop(@) \o <<<<"fo", n, i + 1, TRUE>>>>, !.V = Append(@, addr)]
     ELSE [m1 EXCEPT !.K = Pop(@) \o <<<<"fs", n, i>>, <<"st", Progs[p].nodes[n][4]>>>>]
For6(m, first) ==
  LET k == Len(m.V)
      incr == m.V[k]
      dir == IntV(SignOf(incr))
  IN IF first      \* V: address, initial value, step
     THEN [m EXCEPT !.K = Pop(@), !.V = PopN(@, 2) \o <<dir, m.V[k-1]>>]
     ELSE LET v == Load(m, m.V[k-1])     \* V: address, step
              x == IF IsErr(v) THEN v ELSE Add(v, incr)
          IN IF IsErr(x) THEN Fail(m, x[2])
             ELSE [m EXCEPT !.K = Pop(@), !.V = Pop(@) \o <<dir, x>>]

Jump(m, lab) == [m EXCEPT !.K = SubSeq(@, 1, lab[2]) \o lab[4], !.V = SubSeq(@, 1, lab[3]), !.env = lab[5]]

\* go to a designational expression
GotoStep(p, m, n) ==
  LET N == Progs[p].nodes[n]
  IN CASE N[1] = "v" ->
            LET b == Resolve(p, m, N[2], m.env)
            IN CASE b[1] = "lab" -> Jump(m, b)
                 [] b[1] = "nm" -> [m EXCEPT !.K = Pop(@) \o <<<<"go", b[2]>>>>, !.env = b[3]]
                 [] OTHER -> Fail(m, "Not a label")
       [] N[1] = "ix" -> Go(m, <<<<"sw", N[2]>>, <<"e", N[3][1]>>>>)
       [] N[1] = "if" -> Go(m, <<<<"ifg", N[3], N[4]>>, <<"e", N[2]>>>>)
       [] OTHER -> Fail(m, "Not a label")
SwitchStep(p, m, name) ==
  LET b == Resolve(p, m, name, m.env)
      i == SubVal(Top(m.V))
  IN IF b[1] # "sw" THEN Fail(m, "Not a switch")
     ELSE LET D == Progs[p].nodes[b[2]] IN
          IF i < 1 \/ i > Len(D[3]) THEN Fail(m, "Switch index out of range")
          ELSE [m EXCEPT !.K = Pop(@) \o <<<<"go", D[3][i]>>>>, !.V = Pop(@), !.env = b[3]]

(* -------------------------- standard procedures ------------------------- *)
\* result of a function with exactly known value
ExactSqrt(x) ==
  LET a == ToReal(x) IN
  IF a[3] = <<>> THEN a
  ELSE IF a[2] = 1 THEN Err("Square root of a negative number")
  ELSE SqrtReal(a)

Finish(m, n, fn) == [m EXCEPT !.K = Pop(@), !.V = PopN(@, n)]   \* a statement

RECURSIVE PrintAll(_, _, _)
PrintAll(m, vs, i) ==
  IF i > Len(vs) THEN m
  ELSE LET m1 == IF i > 1 THEN Emit(m, <<32>>) ELSE m
           v == vs[i]
           m2 == IF v[1] = "RND" THEN EmitItem(m1, <<"rnd", v[2], v[3]>>)
                 ELSE IF v[1] = "CLK" THEN EmitItem(m1, <<"clk">>)
                 ELSE IF v[1] = "B" THEN Emit(m1, IF v[2] THEN <<48>> ELSE <<49>>)
                 ELSE Emit(m1, IF IsI(v) THEN IntText(v[2]) ELSE RealText(v))
       IN PrintAll(m2, vs, i + 1)

NeedInt(v) == IF IsI(v) THEN v ELSE Err("Need integer, got real")
SpaceCodes(n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> 32]

(* The random numbers.  The algorithm is not specified: Progs[p].rnd lists    *)
(* the sequence that follows each seed, as seen in one place; every other    *)
(* place has to find the same one.  Without a seed the numbers are unknown.  *)
TableReal(t) == MkReal(t[1], BAdd(BShl(BFromNat(t[2]), 20), BFromNat(t[3])), t[4], FALSE)
RandomValue(p, r) ==
  IF r[1][1] = "time" THEN <<"RND", r[1], r[2]>>
  ELSE LET T == Progs[p].rnd
           S == {i \in 1..Len(T) : RCmp(TableReal(T[i].seed), r[1]) = 0}
       IN IF S = {} THEN Err("open")
          ELSE LET i == CHOOSE i \in S : TRUE
               IN IF r[2] + 1 > Len(T[i].vals) THEN Err("open") ELSE TableReal(T[i].vals[r[2] + 1])

\* functions and procedures with evaluated arguments a[1..n]
StdStep(p, m, name, n, fn) ==
  LET a == LastN(m.V, n)
      Val(v) == IF IsErr(v) THEN Fail(m, v[2])
                ELSE IF fn THEN [m EXCEPT !.K = Pop(@), !.V = Append(PopN(@, n), v)]
                ELSE Finish(m, n, fn)
      Done(m1) == Finish(m1, n, fn)
  IN CASE name = "abs" -> Val(AbsNum(a[1]))
       [] name = "sign" -> Val(IntV(SignOf(a[1])))
       [] name = "entier" -> Val(Entier(a[1]))
       [] name = "sqrt" -> Val(ExactSqrt(a[1]))
       [] name \in {"sin", "cos", "arctan", "ln", "exp"} -> Val(Elementary(name, a[1]))
       [] name = "EVEN" -> IF ~IsI(a[1]) THEN Fail(m, "open")
                           ELSE Val(IntV(IF AbsI(IVal(a[1][2])) % 2 = 0 THEN 1 ELSE -1))
       [] name = "read" ->
            LET r == ReadNumber(Progs[p].input, m.inp)
            IN IF r.ok THEN [Val(r.val) EXCEPT !.inp = r.pos] ELSE Fail(m, r.val[2])
       [] name = "RESYM" ->
            LET r == ReadSymbol(Progs[p].input, m.inp)
            IN IF r.ok THEN [Val(IntV(r.sym)) EXCEPT !.inp = r.pos] ELSE Fail(m, "Bad input character")
       [] name = "RANDOM" ->
            LET v == RandomValue(p, m.rnd)
            IN IF IsErr(v) THEN Fail(m, "open") ELSE [Val(v) EXCEPT !.rnd = <<@[1], @[2] + 1>>]
       [] name = "SETRANDOM" -> [Done(m) EXCEPT !.rnd = <<ToReal(a[1]), 0>>]
       [] name = "TIMEOFDAY" -> Val(<<"CLK">>)
       [] name = "print" -> Done(PrintAll(m, a, 1))
       [] name = "TAB" -> Done(Emit(m, <<9>>))
       [] name = "NLCR" -> Done(Emit(m, <<10>>))
       [] name = "SPACE" -> LET c == NeedInt(a[1])
                            IN IF IsErr(c) THEN Fail(m, c[2]) ELSE Done(Emit(m, SpaceCodes(IVal(c[2]))))
       [] name = "PRSYM" -> LET c == IF IsI(a[1]) THEN a[1] ELSE RToInt(a[1])
                            IN IF IsErr(c) THEN Fail(m, c[2])
                               ELSE Done(Emit(m, SymbolText(IVal(c[2]))))
       [] name \in {"FIXT", "ABSFIXT"} ->
            LET n1 == NeedInt(a[1])  m1 == NeedInt(a[2])
            IN IF IsErr(n1) \/ IsErr(m1) THEN Fail(m, "Need integer, got real")
               ELSE Done(EmitItem(m, <<"fix", name = "FIXT", IVal(n1[2]), IVal(m1[2]), ToReal(a[3])>>))
       [] name = "FLOT" ->
            LET n1 == NeedInt(a[1])  m1 == IF n = 3 THEN NeedInt(a[2]) ELSE IntV(2)
            IN IF IsErr(n1) \/ IsErr(m1) THEN Fail(m, "Need integer, got real")
               ELSE Done(EmitItem(m, <<"flo", IVal(n1[2]), IVal(m1[2]), ToReal(a[n])>>))
       [] name = "XEEN" ->
            LET r == IF m.sws = 0 THEN ReadSwitches(Progs[p].input, m.inp) ELSE [ok |-> TRUE, val |-> m.sws - 1, pos |-> m.inp]
            IN IF ~IsI(a[1]) THEN Fail(m, "Need integer, got real")
               ELSE IF ~r.ok THEN Fail(m, "Bad input")
               ELSE [Val(IntV(AndInt(r.val, a[1][2]))) EXCEPT !.inp = r.pos, !.sws = r.val + 1]
       [] name = "stop" -> [Done(m) EXCEPT !.sws = 0]
       [] OTHER -> Fail(m, "Unknown standard procedure")

(* SUM(i, a, b, x): s := 0; for i := a step 1 until b do s := s + x          *)
StdByName(p, m, name, args, fn) ==
  CASE name = "PRINTTEXT" ->
         LET N == Progs[p].nodes[args[1]]
             b == IF N[1] = "v" THEN Resolve(p, m, N[2], m.env) ELSE <<"nm", args[1], m.env>>
         IN IF b[1] = "nm" /\ Progs[p].nodes[b[2]][1] = "str"
            THEN Go(Emit(m, Progs[p].nodes[b[2]][2]), <<>>)
            ELSE Fail(m, "Not a string")
    [] name = "SUM" -> \* V: lower bound, upper bound (both integer)
         Go(m, <<<<"sum0", args, fn>>, <<"cvi">>, <<"e", args[3]>>, <<"cvi">>, <<"e", args[2]>>>>)
    [] OTHER -> Fail(m, "Unknown standard procedure")

\* V: ... s, upper
SumStep(m, it) ==
  LET k == Len(m.V) IN
  CASE it[1] = "sum0" -> \* i := a
         [m EXCEPT !.K = Pop(@) \o <<<<"sumt", it[2], it[3]>>, <<"sto">>, <<"swap">>, <<"ad", it[2][1]>>>>,
                   !.V = PopN(@, 2) \o <<RZero(0), m.V[k], m.V[k-1]>>]
    [] it[1] = "swap" -> [m EXCEPT !.K = Pop(@), !.V = PopN(@, 2) \o <<m.V[k], m.V[k-1]>>]
    [] it[1] = "sumt" -> Go(m, <<<<"sumc", it[2], it[3]>>, <<"e", it[2][1]>>>>)
    [] it[1] = "sumc" -> \* V: s, upper, i
         IF Cmp(m.V[k], m.V[k-1]) > 0
         THEN [m EXCEPT !.K = Pop(@), !.V = IF it[3] THEN PopN(@, 2) ELSE PopN(@, 3)]
         ELSE [m EXCEPT !.K = Pop(@) \o <<<<"sumi", it[2], it[3]>>, <<"suma">>, <<"e", it[2][4]>>>>,
                        !.V = Pop(@)]
    [] it[1] = "suma" -> \* V: s, upper, term
         LET s == Add(m.V[k-2], m.V[k])
         IN IF IsErr(s) THEN Fail(m, s[2])
            ELSE [m EXCEPT !.K = Pop(@), !.V = PopN(@, 3) \o <<s, m.V[k-1]>>]
    [] it[1] = "sumi" -> \* i := i + 1
         Go(m, <<<<"sumt", it[2], it[3]>>, <<"sto">>, <<"inc">>, <<"e", it[2][1]>>, <<"ad", it[2][1]>>>>)

(* -------------------------------- a step -------------------------------- *)
Step(p, m) ==
  LET it == Top(m.K)
      k == Len(m.V)
  IN CASE it[1] = "st" -> ExecStep(p, m, it[2])
       [] it[1] = "e" -> EvalStep(p, m, it[2])
       [] it[1] = "ad" -> AddrStep(p, m, it[2])
       [] it[1] = "sq" ->
            LET ss == IF Progs[p].nodes[it[2]][1] = "co" THEN Progs[p].nodes[it[2]][2] ELSE Progs[p].nodes[it[2]][3]
            IN IF it[3] > Len(ss) THEN Go(m, <<>>)
               ELSE IF it[3] = Len(ss) THEN Go(m, <<<<"st", ss[it[3]]>>>>)
               ELSE Go(m, <<<<"sq", it[2], it[3] + 1>>, <<"st", ss[it[3]]>>>>)
       [] it[1] = "env" -> [m EXCEPT !.K = Pop(@), !.env = it[2]]
       [] it[1] = "ee" -> [m EXCEPT !.K = Pop(@) \o <<<<"e", it[2]>>>>, !.env = it[3]]
       [] it[1] = "ae" -> [m EXCEPT !.K = Pop(@) \o <<<<"ad", it[2]>>>>, !.env = it[3]]
       [] it[1] = "in" -> Go(m, <<<<"env", m.env>>, <<"ee", it[2], it[3]>>>>)
       [] it[1] = "ix" -> Element(p, m, it[2], it[3])
       [] it[1] = "ld" -> PopPush(m, 1, Load(m, m.V[k]))
       [] it[1] = "un" -> PopPush(m, 1, Unary(it[2], m.V[k]))
       [] it[1] = "bi" -> PopPush(m, 2, Binary(it[2], m.V[k-1], m.V[k]))
       [] it[1] = "if" -> [m EXCEPT !.K = Pop(@) \o <<<<"e", IF m.V[k][2] THEN it[2] ELSE it[3]>>>>, !.V = Pop(@)]
       [] it[1] = "ifs" -> LET s == IF m.V[k][2] THEN it[2] ELSE it[3]
                           IN [m EXCEPT !.K = Pop(@) \o (IF s = 0 THEN <<>> ELSE <<<<"st", s>>>>), !.V = Pop(@)]
       [] it[1] = "ifg" -> [m EXCEPT !.K = Pop(@) \o <<<<"go", IF m.V[k][2] THEN it[2] ELSE it[3]>>>>, !.V = Pop(@)]
       [] it[1] = "as" -> LET v == m.V[k]
                              addrs == SubSeq(m.V, k - it[2], k - 1)
                          IN StoreAll([m EXCEPT !.K = Pop(@), !.V = PopN(@, it[2] + 1)], addrs, it[2], v)
       [] it[1] = "sto" -> Store([m EXCEPT !.K = Pop(@), !.V = PopN(@, 2)], m.V[k-1], m.V[k])
       [] it[1] = "stk" -> Store([m EXCEPT !.K = Pop(@), !.V = Pop(@)], m.V[k-1], m.V[k])
       [] it[1] = "drop" -> [m EXCEPT !.K = Pop(@), !.V = Pop(@)]
       [] it[1] = "cvi" -> PopPush(m, 1, Conv("I", m.V[k]))
       [] it[1] = "inc" -> PopPush(m, 1, Add(m.V[k], IntV(1)))
       [] it[1] = "vp" -> LET c == Conv(it[3], m.V[k])
                          IN IF IsErr(c) THEN Fail(m, c[2])
                             ELSE [m EXCEPT !.K = Pop(@), !.V = Pop(@), !.mem = Append(@, c),
                                     !.envs[m.env].b = (it[2] :> <<"var", it[3], Len(m.mem) + 1>>) @@ @]
       [] it[1] = "va" -> LET b == Resolve(p, m, it[2], m.env)
                              a == m.arrs[b[3]]
                              cs == [i \in 1..a.total |->
                                        IF m.mem[a.base + i] = U THEN U ELSE Conv(it[3], m.mem[a.base + i])]
                          IN IF b[1] # "arr" THEN Fail(m, "Not an array")
                             ELSE IF \E i \in 1..a.total : cs[i] = U \/ IsErr(cs[i]) THEN (IF \E i \in 1..a.total : cs[i] # U /\ IsErr(cs[i]) THEN Fail(m, "Undefined element") ELSE Open(m, "unassigned element copied"))
                             ELSE [m EXCEPT !.K = Pop(@), !.mem = @ \o cs,
                                     !.arrs = Append(@, [a EXCEPT !.base = Len(m.mem), !.ty = it[3]]),
                                     !.envs[m.env].b = (it[2] :> <<"arr", it[3], Len(m.arrs) + 1>>) @@ @]
       [] it[1] = "arr" -> AllocArrays(p, m, it[2], it[3])
       [] it[1] = "own" -> [m EXCEPT !.K = Pop(@), !.envs[m.env].b = m.own[it[2]] @@ @]
       [] it[1] = "ret" -> IF it[3] THEN [m EXCEPT !.K = Pop(@), !.env = it[2], !.V = Append(@, m.mem[it[4]])]
                           ELSE [m EXCEPT !.K = Pop(@), !.env = it[2]]
       [] it[1] = "go" -> GotoStep(p, m, it[2])
       [] it[1] = "sw" -> SwitchStep(p, m, it[2])
       [] it[1] = "fo" -> ForStep(p, m, it[2], it[3], it[4])
       [] it[1] = "few" -> IF m.V[k][2]
                           THEN [m EXCEPT !.K = Pop(@) \o <<<<"fo", it[2], it[3], FALSE>>, <<"st", Progs[p].nodes[it[2]][4]>>>>,
                                          !.V = PopN(@, 2)]
                           ELSE [m EXCEPT !.K = Pop(@) \o <<<<"fo", it[2], it[3] + 1, TRUE>>>>, !.V = Pop(@)]
       [] it[1] = "fs" -> ForAgain(p, m, it[2], it[3])
       [] it[1] = "f6" -> For6(m, it[2])
       [] it[1] = "f7" -> For7(p, m, it[2], it[3])
       [] it[1] = "std" -> StdStep(p, m, it[2], it[3], it[4])
       [] it[1] = "stdn" -> StdByName(p, m, it[2], it[3], it[4])
       [] OTHER -> SumStep(m, it)

Advance(p, m) == LET m1 == Step(p, m)
                 IN IF m1.st = "run" /\ m1.K = <<>> THEN [m1 EXCEPT !.st = "end"] ELSE m1

(* ------------------------------ invariants ------------------------------ *)
\* a finished program has nothing left under evaluation
Balanced(m) == m.st = "end" => m.V = <<>> /\ m.env = 0
\* environments refer to older ones only, and labels to live control levels
EnvOK(m) == m.env <= Len(m.envs) /\ \A i \in 1..Len(m.envs) : m.envs[i].up < i
MemOK(m) == \A i \in 1..Len(m.arrs) : m.arrs[i].base + m.arrs[i].total <= Len(m.mem)
=============================================================================
