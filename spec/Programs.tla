------------------------------ MODULE Programs ------------------------------
(* The programs under consideration, read from a file:                       *)
(*   Progs[p].nodes  the syntax tree of program p: a sequence of nodes, each *)
(*                   a tuple <<kind, ...>> that refers to its parts by their *)
(*                   numbers; the last node is the program                   *)
(*   Progs[p].input  its input, byte codes                                   *)
(*   Progs[p].out, .rc, .msg  what the implementation did: its output (byte  *)
(*                   codes), exit status, and whether it gave a message      *)
(*   Progs[p].may  the compiler may refuse the program (limits)             *)
(*   Progs[p].clk  the seconds of the day before and after the run           *)
(*   Progs[p].rnd  random numbers: a sequence of [seed, vals]                *)
(*   Progs[p].fuel   how many steps to follow the execution                  *)
EXTENDS Integers, Sequences, Json, IOUtils
Progs == JsonDeserialize(IOEnv.PROGS)
=============================================================================
