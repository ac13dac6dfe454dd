------------------------------ MODULE Session -------------------------------
(* Working on one program in one directory: it is compiled, run from the      *)
(* source or from the object program, with and without tracing, in any order. *)
(* State: is there an object program, and which words it has; what the        *)
(* program did the first time.                                                *)
(*                                                                            *)
(* With HISTS unset the module enumerates the histories (module constant      *)
(* MaxLen) and prints them; otherwise it checks the recorded ones:            *)
(*   Recs[h]  a sequence of [act, out, err, rc, obj, tr]: the action, what it *)
(*            printed, its message and status, the object file afterwards,    *)
(*            and the trace: a sequence of <<address, word, next>> (its       *)
(*            beginning and its end), trh: a digest of the whole trace        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT MaxLen
Checking == "HISTS" \in DOMAIN IOEnv
Recs == IF Checking THEN JsonDeserialize(IOEnv.HISTS) ELSE <<>>

\* run the source / the object; d: traced to the standard output, t: trace
\* file named, dt: traced to a file; comp: compile only
Src == {"src", "src-d", "src-t", "src-dt"}
Obj == {"obj", "obj-d", "obj-t", "obj-dt"}
Acts == Src \cup Obj \cup {"comp"}
Mixed(a) == a \in {"src-d", "obj-d"}      \* output and trace share a stream
Traced(a) == a \in {"src-d", "obj-d", "src-dt", "obj-dt"}

VARIABLES h,      \* number of the history, or the history itself
          k,      \* records consumed
          obj,    \* the object program: "" none, else its text
          beh,    \* <<>> or <<out, err, rc>>, what the program does
          trace   \* <<>> or <<trace>>
vars == <<h, k, obj, beh, trace>>

(* ----------------------------- enumeration ------------------------------ *)
Init == IF Checking THEN h \in 1..Len(Recs) /\ k = 0 /\ obj = "" /\ beh = <<>> /\ trace = <<>>
        ELSE h = <<>> /\ k = 0 /\ obj = "" /\ beh = <<>> /\ trace = <<>>
Act(a) == /\ a \in Obj => obj # ""
          /\ h' = Append(h, a) /\ k' = k + 1
          /\ obj' = IF a \in Obj THEN obj ELSE "P"
          /\ UNCHANGED <<beh, trace>>
          /\ IF k' = MaxLen THEN PrintT("@H" \o ToJson(h')) ELSE TRUE
Enumerate == k < MaxLen /\ \E a \in Acts : Act(a)

(* ------------------------------- checking ------------------------------- *)
\* x is contained in y, in order
RECURSIVE Within(_, _, _, _)
Within(x, y, i, j) == IF i > Len(x) THEN TRUE
                      ELSE IF j > Len(y) THEN FALSE
                      ELSE IF x[i] = y[j] THEN Within(x, y, i + 1, j + 1) ELSE Within(x, y, i, j + 1)

\* a trace lists orders one after the other: what follows an order that is no
\* jump stands behind it, and a jump leads where it says
SeqOK(t) == \A i \in 1..Len(t) - 1 : t[i][3] = -1 \/ t[i + 1][1] = t[i][3]

R == Recs[h][k + 1]
Wrong == IF R.act # "comp" /\ beh # <<>> /\ R.rc # beh[3] THEN "exit status differs"
         ELSE IF R.act # "comp" /\ beh # <<>> /\ R.err # beh[2] THEN "message differs"
         ELSE IF R.act # "comp" /\ beh # <<>> /\ ~Mixed(R.act) /\ R.out # beh[1] THEN "output differs"
         ELSE IF Mixed(R.act) /\ beh # <<>> /\ ~Within(beh[1], R.out, 1, 1) THEN "output missing"
         ELSE IF obj # "" /\ R.obj # obj THEN "object program differs"
         ELSE IF Traced(R.act) /\ ~Mixed(R.act) /\ trace # <<>> /\ R.trh # trace[1] THEN "trace differs"
         ELSE IF Traced(R.act) /\ beh # <<>> /\ Len(R.tr) = 0 THEN "trace missing"
         ELSE IF ~Traced(R.act) /\ Len(R.tr) # 0 THEN "trace not asked for"
         ELSE IF ~SeqOK(R.tr) THEN "trace is out of order"
         ELSE ""
Check == /\ k < Len(Recs[h])
         /\ IF Wrong # "" THEN PrintT("@W" \o ToJson(<<h, k + 1, Wrong>>)) /\ k' = Len(Recs[h]) ELSE k' = k + 1
         /\ obj' = R.obj
         /\ beh' = IF R.act = "comp" \/ Mixed(R.act) THEN beh ELSE <<R.out, R.err, R.rc>>
         /\ trace' = IF Traced(R.act) /\ ~Mixed(R.act) THEN <<R.trh>> ELSE trace
         /\ UNCHANGED h

Next == IF Checking THEN Check ELSE Enumerate
Spec == Init /\ [][Next]_vars
\* an object program is run only when there is one
Sound == Checking \/ \A i \in 1..Len(h) : h[i] \in Obj => \E j \in 1..i-1 : h[j] \notin Obj
=============================================================================
