------------------------------ MODULE Conform -------------------------------
(* Runs the programs of a file on the machine of Algol60 and compares what   *)
(* the specification says with what the implementation did.                  *)
EXTENDS Algol60, Output

VARIABLES pid, step, m

\* verdict on a finished execution
Verdict(p, mm) ==
  LET R == Progs[p]
      r == Ends(R.out, mm.out, 1, {1}, R.clk)
      outok == r.P # {} /\ (Len(R.out) + 1) \in r.P
  IN IF R.may /\ R.rc = 1 /\ R.out = <<>> /\ R.msg THEN "refused"
     ELSE IF mm.st = "fuel" THEN (IF r.P = {} /\ R.rc \in {0, 1} THEN "output"
                                ELSE IF R.rc \notin {0, 1, 137, 153} THEN "status" ELSE "fuel")
     ELSE IF mm.st = "open" THEN (IF r.P # {} THEN "skip" ELSE "output")
     ELSE IF (mm.st = "end") # (R.rc = 0) THEN "status"
     ELSE IF mm.st = "err" /\ ~R.msg THEN "message"
     ELSE IF ~outok THEN "output"
     ELSE "ok"

Init == /\ pid \in DOMAIN Progs
        /\ step = 0
        /\ m = Init0(pid)
Next == /\ m.st = "run"
        /\ step' = step + 1
        /\ pid' = pid
        /\ m' = LET m1 == Advance(pid, m)
                IN IF m1.st = "run" /\ step >= Progs[pid].fuel THEN [m1 EXCEPT !.st = "fuel"] ELSE m1
        /\ IF m'.st = "run" THEN TRUE
           ELSE PrintT("@V" \o ToJson(<<pid, Verdict(pid, m'), m'.st, m'.why, step',
                              IF Progs[pid].show THEN m'.out ELSE <<>> >>))
Spec == Init /\ [][Next]_<<pid, step, m>>
View == <<pid, step>>
Invariant == Balanced(m) /\ EnvOK(m) /\ MemOK(m)
=============================================================================
