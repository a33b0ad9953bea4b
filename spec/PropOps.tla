------------------------------- MODULE PropOps -------------------------------
(* Property constraints by physical value.  Numbers are dyadic, <<m, p>> is     *)
(* m * 2^p.  The scale factor is 2^-k.  A field has an exponent e, a power d of  *)
(* length and is stored comoving or physical; a bound is given in units of 8^u  *)
(* file lengths (to the power d), comoving or physical, or is infinite.         *)
EXTENDS Integers, Sequences, FiniteSets

P2(n) == 2 ^ n
Cmp(x, y) == IF x[2] >= y[2] THEN <<x[1] * P2(x[2] - y[2]), y[1]>>
             ELSE <<x[1], y[1] * P2(y[2] - x[2])>>
Lt(x, y) == Cmp(x, y)[1] < Cmp(x, y)[2]
Le(x, y) == Cmp(x, y)[1] <= Cmp(x, y)[2]

\* physical value = comoving value * a^e,  a = 2^-k
FieldPhys(f, k, v) == <<v, IF f.phys THEN 0 ELSE -k * f.e>>
BoundPhys(f, k, b) == <<b.m, b.p + 3 * b.u * f.d + (IF b.phys THEN 0 ELSE -k * f.e)>>

Above(f, k, v, lo) == CASE lo.inf = 1 -> FALSE [] lo.inf = -1 -> TRUE
                        [] OTHER -> Lt(BoundPhys(f, k, lo), FieldPhys(f, k, v))
Below(f, k, v, hi) == CASE hi.inf = 1 -> TRUE [] hi.inf = -1 -> FALSE
                        [] OTHER -> Le(FieldPhys(f, k, v), BoundPhys(f, k, hi))
Keep(f, k, v, lo, hi) == Above(f, k, v, lo) /\ Below(f, k, v, hi)
=============================================================================
