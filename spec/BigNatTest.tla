----------------------------- MODULE BigNatTest -----------------------------
(* Prints results of all operators of BigNat on some arguments: run with and *)
(* without the Java implementations, the outputs have to be the same.        *)
EXTENDS BigNat, TLC
VARIABLE x
S == {<<>>, <<1>>, <<2>>, <<5>>, <<4095>>, <<0, 1>>, <<1, 1>>, <<4095, 4095>>, <<0, 0, 1>>, <<0, 2048, 77, 9>>,
      <<4095, 4095, 4095, 15>>, <<1, 0, 0, 8>>, <<17, 3000, 1, 99, 4000, 1234, 7>>, <<0, 0, 0, 0, 0, 0, 0, 0, 4>>}
N == {0, 1, 2, 5, 11, 12, 13, 24, 40, 67}
M == {1, 2, 5, 10, 4095, 4096, 9999, 100000, 262143}
One(a) == <<BLen(a), BDigits(a), BFromDigits(BDigits(a)), BFromDigits(<<0, 0>> \o BDigits(a)),
            [n \in N |-> <<BShl(a, n), BShr(a, n), BBit(a, n), BLowZero(a, n), BMul10(a, n), BDiv10(a, n, FALSE), BDiv10(a, n, TRUE)>>],
            [n \in M |-> <<BMulSmall(a, n), BMulAddSmall(a, n, n), BDivSmall(a, n), BFromNat(n), BToNat(BFromNat(n))>>]>>
Two(a, b) == <<BAdd(a, b), BCmp(a, b), BMul(a, b), IF BCmp(a, b) >= 0 THEN BSub(a, b) ELSE BSub(b, a),
               IF b = <<>> THEN <<>> ELSE BDiv(a, b)>>
Init == x = 0
Next == x = 0 /\ x' = 1 /\ \A a \in S : PrintT(<<"@", a, One(a), [b \in S |-> Two(a, b)]>>)
Spec == Init /\ [][Next]_x
=============================================================================
