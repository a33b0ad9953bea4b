------------------------------- MODULE PropMask ------------------------------
(* Exhaustive model: a field with values 0..V, one bound pair in every frame    *)
(* and unit; the selection depends only on the physical bounds, is half open    *)
(* (adjacent intervals partition), and repeated constraints commute.            *)
EXTENDS PropOps, TLC, Json, SequencesExt
CONSTANTS V, MaxK, MaxE, Emit
VARIABLES f, k, lo, hi, sel, steps
vars == <<f, k, lo, hi, sel, steps>>

Fields == [phys : BOOLEAN, e : -MaxE..MaxE, d : {0, 1, -1}]
Bounds == [m : -1..(V + 1), p : {0}, u : {0, 1}, phys : BOOLEAN, inf : {0}]
Init ==
    /\ f \in Fields /\ k \in 0..MaxK
    /\ lo \in Bounds /\ hi \in { b \in Bounds : b.m >= 0 }
    /\ sel = 0..V /\ steps = 0
Constrain ==
    /\ steps < 2 /\ steps' = steps + 1
    /\ sel' = { v \in sel : Keep(f, k, v, lo, hi) }
    /\ UNCHANGED <<f, k, lo, hi>>
Next == Constrain
Spec == Init /\ [][Next]_vars

\* the same physical bound in the other frame or unit
OtherFrame(b) == [b EXCEPT !.phys = ~@, !.p = @ + (IF b.phys THEN k * f.e ELSE -k * f.e)]
OtherUnit(b) == [b EXCEPT !.u = 1 - @, !.p = @ + (IF b.u = 1 THEN 3 * f.d ELSE -3 * f.d)]
FrameIndependent ==
    \A v \in 0..V : LET K0 == Keep(f, k, v, lo, hi) IN
        /\ K0 = Keep(f, k, v, OtherFrame(lo), hi) /\ K0 = Keep(f, k, v, lo, OtherFrame(hi))
        /\ K0 = Keep(f, k, v, OtherUnit(lo), OtherUnit(OtherFrame(hi)))
HalfOpen == \A v \in 0..V :
    ~(Above(f, k, v, lo) /\ Below(f, k, v, lo)) /\ (Above(f, k, v, lo) \/ Below(f, k, v, lo))
Idempotent == steps = 2 => sel = { v \in 0..V : Keep(f, k, v, lo, hi) }
Shrinks == [][sel' \subseteq sel]_vars

EmitCase == (Emit /\ steps = 1) => PrintT("VT " \o ToJson(
    [f |-> f, k |-> k, lo |-> lo, hi |-> hi, sel |-> SetToSortSeq(sel, LAMBDA a, b : a < b)]))
=============================================================================
