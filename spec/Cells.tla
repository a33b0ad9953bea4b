-------------------------------- MODULE Cells --------------------------------
(* Periodic intervals and cell extents along one axis (integers).            *)
(* A region row is <<l, u>>; <<>> leaves the axis unconstrained.              *)
EXTENDS Integers, Sequences

AbsI(x) == IF x < 0 THEN -x ELSE x

(* Upper end after unwrapping an inverted interval.                           *)
Unwrapped(l, u, L) == IF u < l THEN u + L ELSE u
Everything(l, u, L) == AbsI(u - l) > L

(* x (or one of its images) lies strictly inside the region.                  *)
InRow(x, row, L) ==
    \/ row = <<>>
    \/ Everything(row[1], row[2], L)
    \/ \E k \in -3..3 : row[1] < x + k * L /\ x + k * L < Unwrapped(row[1], row[2], L)

(* the closed extent [mn, mx] (or an image) touches the closed region.        *)
TouchRow(mn, mx, row, L) ==
    \/ row = <<>>
    \/ Everything(row[1], row[2], L)
    \/ \E k \in -3..3 : mx + k * L >= row[1] /\ mn + k * L <= Unwrapped(row[1], row[2], L)

(* bounds further than half a box outside the box (twice the value: L may be odd) *)
RefusedRow(row, L) ==
    row # <<>> /\ \E i \in 1..2 : 2 * row[i] < -L \/ 2 * row[i] > 3 * L
=============================================================================
