------------------------------- MODULE Driver -------------------------------
(* The command-line driver x1sim as a state machine over its command line and *)
(* surroundings.  A scenario is a sequence of words and the surroundings; the *)
(* machine takes the words one by one, then locates the library, compiles,    *)
(* loads and runs.  What it ends in is the outcome the driver has to show.    *)
(*                                                                            *)
(* Words (see lib/p_driver.py for what stands for them):                      *)
(*   options  -h --help -V --version -d --debug, t1 (--trace=t1.txt),         *)
(*            t2 (--trace t2.txt), tbad (--trace into a missing directory),   *)
(*            bad (-x), badl (--bogus), teos (--trace without a file name)    *)
(*   sources  ok, need (needs a procedure of the library), rt (prints, then a  *)
(*            run-time error), syn (syntax error), na (does not exist), inp   *)
(*            (copies a number from the input), sub (in a directory), nw (its *)
(*            object file cannot be written), dir (a directory)               *)
(*   objects  obj, robj (prints, then a run-time error), dmg (a bad line),    *)
(*            nx (does not exist), ent (no entry)                             *)
(*   others   txt (another extension), none (no extension)                    *)
(*   libraries L1 L2 (different versions of the procedure), Lx (does not      *)
(*            exist)                                                          *)
(* Surroundings:                                                              *)
(*   comp   the compiler: real, absent, fails (1 or 9), killed by a signal,   *)
(*          garbage (exit 0, but its output is no object program)             *)
(*   envlib, homelib, rellib: where a default library is found                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Level          \* how many scenarios: 1 quick, 2 thorough

Decisive == {"-h", "--help", "-V", "--version", "bad", "badl", "teos", "tbad"}
Tracing == {"-d", "--debug"}
Redirect == {"t1", "t2"}
Sources == {"ok", "need", "rt", "syn", "na", "inp", "sub", "nw", "dir"}
Objects == {"obj", "robj", "dmg", "nx", "ent"}
Others == {"txt", "none"}
Libs == {"L1", "L2", "Lx"}
Files == Sources \cup Objects \cup Others \cup Libs
Words == Decisive \cup Tracing \cup Redirect \cup Files

RealComp == [comp |-> "real", envlib |-> "L1", homelib |-> "no", rellib |-> "no"]
Envs == [comp : {"real", "absent", "fail1", "fail9", "killed", "garbage"},
         envlib : {"unset", "L1", "Lx"}, homelib : {"no", "L2"}, rellib : {"no", "R1", "R2"}]

\* every order of everything, and every surrounding of the simple lines
Lines(n, S) == UNION {[1..k -> S] : k \in 0..n}
Short == Lines(2, Words)
OptWords == {"-h", "--version", "-d", "t1", "t2", "tbad", "bad", "ok", "rt", "obj", "dmg", "L1", "need"}
Long == [1..3 -> OptWords]
Longer == [1..4 -> {"--help", "-V", "--debug", "t1", "t2", "need", "robj", "L1", "L2"}]
EnvLines == {<<f>> : f \in Files} \cup {<<f, "L2">> : f \in {"ok", "need", "syn"}} \cup {<<f, "Lx">> : f \in {"ok", "need"}}
            \cup {<<"L1", "need">>, <<"need", "L1", "L2">>, <<"need", "Lx", "L2">>, <<"-d", "t1", "need">>, <<"need", "t1">>, <<>>}
All == {<<l, RealComp>> : l \in Short \cup Long} \cup {<<l, e>> : l \in EnvLines, e \in Envs}
             \cup (IF Level > 1 THEN {<<l, RealComp>> : l \in Longer} \cup {<<l, e>> : l \in [1..2 -> OptWords], e \in Envs} ELSE {})
Scenarios == {s \in All : \A k \in 1..Len(s[1]) - 1 : s[1][k] # "teos"}

VARIABLES sc,     \* the scenario
          i,      \* how many words are taken
          files,  \* files named so far
          dbg,    \* tracing is on
          tr,     \* where the trace goes: "" is the standard output
          trs,    \* trace files opened so far
          st,     \* "args", "lib", "compile", "load", "run", "end"
          lib,    \* library for the compiler: sequence of names
          res     \* outcome
vars == <<sc, i, files, dbg, tr, trs, st, lib, res>>

NoRes == [kind |-> "none"]
\* kind of outcome: help, version, usage, error (before execution), run
\*   out: what the program prints; ok: exit status zero
Out(k, ok, out) == [kind |-> k, ok |-> ok, out |-> out, alt |-> FALSE]
\* the same with the error of a missing library allowed
Alt(o) == [o EXCEPT !.alt = TRUE]

Init == /\ sc \in Scenarios
        /\ i = 0 /\ files = <<>> /\ dbg = FALSE /\ tr = "" /\ trs = {}
        /\ st = "args" /\ lib = <<>> /\ res = NoRes

Done(o) == /\ st' = "end" /\ res' = o

W == sc[1][i + 1]
E == sc[2]

\* --trace at the end of the line lacks its argument; elsewhere it takes the
\* next word (the scenarios have it at the end only)
Arg == /\ st = "args" /\ i < Len(sc[1])
       /\ i' = i + 1
       /\ UNCHANGED <<sc, lib>>
       /\ CASE W \in {"-h", "--help"} -> Done(Out("help", TRUE, "")) /\ UNCHANGED <<files, dbg, tr, trs>>
            [] W \in {"-V", "--version"} -> Done(Out("version", TRUE, "")) /\ UNCHANGED <<files, dbg, tr, trs>>
            [] W \in {"bad", "badl", "teos"} -> Done(Out("usage", FALSE, "")) /\ UNCHANGED <<files, dbg, tr, trs>>
            [] W = "tbad" -> Done(Out("error", FALSE, "")) /\ UNCHANGED <<files, dbg, tr, trs>>
            [] W \in Tracing -> dbg' = TRUE /\ UNCHANGED <<files, tr, trs, st, res>>
            [] W \in Redirect -> tr' = W /\ trs' = trs \cup {W} /\ UNCHANGED <<files, dbg, st, res>>
            [] OTHER -> files' = Append(files, W) /\ UNCHANGED <<dbg, tr, trs, st, res>>

ArgsEnd == /\ st = "args" /\ i = Len(sc[1])
           /\ UNCHANGED <<sc, i, files, dbg, tr, trs, lib>>
           /\ IF files = <<>> THEN Done(Out("usage", FALSE, ""))
              ELSE IF files[1] \in Sources THEN st' = "lib" /\ UNCHANGED res
              ELSE IF files[1] \in Objects
              THEN IF Len(files) > 1 THEN Done(Out("error", FALSE, "")) ELSE st' = "load" /\ UNCHANGED res
              ELSE Done(Out("error", FALSE, ""))

\* the libraries named, or the default one: $X1ALGOL_LIB, then the home
\* directory, then next to the program
Default == IF E.envlib # "unset" THEN <<E.envlib>>
           ELSE IF E.homelib # "no" THEN <<E.homelib>>
           ELSE IF E.rellib # "no" THEN <<E.rellib>>
           ELSE <<>>
Library == /\ st = "lib"
           /\ lib' = IF Len(files) > 1 THEN SubSeq(files, 2, Len(files)) ELSE Default
           /\ IF lib' = <<>> THEN Done(Out("error", FALSE, ""))
              ELSE st' = "compile" /\ UNCHANGED res
           /\ UNCHANGED <<sc, i, files, dbg, tr, trs>>

IsLib(x) == x \in {"L1", "L2", "R1", "R2"}
Missing == \E k \in 1..Len(lib) : ~IsLib(lib[k])

\* which procedure the program gets: the first library that has it
FirstLib == lib[1]
What(f) == CASE f = "ok" -> "ok" [] f = "sub" -> "sub" [] f = "inp" -> "inp" [] f = "rt" -> "rt"
             [] f = "need" -> "need" \o FirstLib [] OTHER -> ""

Compile == /\ st = "compile"
           /\ UNCHANGED <<sc, i, files, dbg, tr, trs, lib>>
           /\ LET f == files[1] IN
              IF f \in {"na", "nw", "dir"} \/ E.comp # "real" THEN Done(Out("error", FALSE, ""))
              ELSE IF f = "syn" THEN Done(Out("error", FALSE, ""))
              ELSE IF f = "need" /\ ~IsLib(FirstLib) THEN Done(Out("error", FALSE, ""))
              ELSE st' = "run" /\ UNCHANGED res

Load == /\ st = "load"
        /\ UNCHANGED <<sc, i, files, dbg, tr, trs, lib>>
        /\ IF files[1] \in {"nx", "dmg", "ent"} THEN Done(Out("error", FALSE, ""))
           ELSE st' = "run" /\ UNCHANGED res

Run == /\ st = "run"
       /\ UNCHANGED <<sc, i, files, dbg, tr, trs, lib>>
       /\ LET f == files[1]
              o == Out("run", f \notin {"rt", "robj"}, IF f \in Objects THEN f ELSE What(f))
          IN Done(IF f \in Sources /\ Missing THEN Alt(o) ELSE o)

Report == /\ st = "end"
          /\ st' = "said"
          /\ PrintT("@D" \o ToJson(<<sc[1], sc[2], res, dbg, tr, trs>>))
          /\ UNCHANGED <<sc, i, files, dbg, tr, trs, lib, res>>

Next == Arg \/ ArgsEnd \/ Library \/ Compile \/ Load \/ Run \/ Report
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TypeOK == st \in {"args", "lib", "compile", "load", "run", "end", "said"} /\ i <= Len(sc[1])
\* success is claimed only for help, version, or a program that ran to its end
OkMeansDone == st = "end" /\ res.ok => res.kind \in {"help", "version", "run"}
\* nothing is run that was not loaded or compiled in this very invocation
NoStale == st = "end" /\ res.kind = "run" =>
             files # <<>> /\ (files[1] \in Sources => E.comp = "real" /\ files[1] \notin {"syn", "na"})
W0 == IF i = 0 THEN "" ELSE sc[1][i]
\* an object file never needs the compiler
ObjNeedsNoCompiler == st = "end" /\ files # <<>> /\ files[1] = "obj" /\ Len(files) = 1 => res.kind # "error" \/ W0 = "tbad"
=============================================================================
