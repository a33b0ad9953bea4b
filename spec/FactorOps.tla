------------------------------ MODULE FactorOps ------------------------------
(* Dependences on the scale factor (property C05).  A dependence is               *)
(* [known, e, s]: an exponent in 48ths (0 when not known) at the scale factor     *)
(* number s: 0 none, 1: 1, 2: 1/2, 3: 1/4, 4: 0.3, 5: 2.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
One == 48
Unknown(s) == [known |-> FALSE, e |-> 0, s |-> s]
Known(e, s) == [known |-> TRUE, e |-> e, s |-> s]
SumOf(op, x, y) == IF op = "mul" THEN x.e + y.e ELSE IF op = "div" THEN x.e - y.e ELSE x.e
Same(x, y) == x.s = y.s /\ x.known = y.known /\ x.e = y.e
\* may the two be combined
Takes(op, x, y) ==
    IF op \in {"add", "sub"} THEN Same(x, y)
    ELSE x.s = y.s /\ x.known = y.known
Both(op, x, y) == IF x.known THEN Known(SumOf(op, x, y), x.s) ELSE Unknown(x.s)
Whole(e, p) == (e * p) % One = 0
Raised(x, p) == IF x.known THEN Known((x.e * p) \div One, x.s) ELSE x
\* the logarithm (base 2) of scale factor number s
LogS(s) == CASE s = 1 -> 0 [] s = 2 -> -1 [] s = 3 -> -2 [] s = 5 -> 1
HasLog(s) == s \in {1, 2, 3, 5}
\* is the conversion factor of x below that of y: "yes", "no", or "open" where rounding decides
Below(x, y) ==
    IF HasLog(x.s) /\ HasLog(y.s)
    THEN LET d == LogS(x.s) * x.e - LogS(y.s) * y.e IN IF d < 0 THEN "yes" ELSE IF d > 0 THEN "no" ELSE "open"
    ELSE IF x.s = y.s THEN IF x.e > y.e THEN "yes" ELSE IF x.e < y.e THEN "no" ELSE "open"
    ELSE "open"
Ordered(x, y) == x.known /\ y.known /\ x.s # 0 /\ y.s # 0
=============================================================================
