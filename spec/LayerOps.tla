------------------------------ MODULE LayerOps -------------------------------
(* Colour images of voxel grids and two-dimensional colour maps (property V04).   *)
(* Heights of a unit Gaussian at k half-widths from its centre in 10^-5.           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Abs(v) == IF v < 0 THEN -v ELSE v
Heights == << 39894, 35207, 24197, 12952, 5399, 1753, 443, 87, 13, 2, 0 >>
Gauss(k) == IF Abs(k) > 10 THEN 0 ELSE Heights[Abs(k) + 1]
\* what a layer [c, v] (centre in halves, inverse of the width) shows of a column of voxels
Shown(col, layer) == MapThenSumSet(LAMBDA k : layer.v * Gauss(layer.v * (col[k] - layer.c)), 1..Len(col))
\* S in [lo, hi] as 0..10^4; a constant image is 0
Normed(S, lo, hi) == ((S - lo) * 1000) \div ((hi - lo) \div 10)
Low(S) == CHOOSE v \in S : \A x \in S : v <= x
High(S) == CHOOSE v \in S : \A x \in S : x <= v
Combined(mode, vals) ==
    CASE mode = "lighten" -> High({ vals[i] : i \in 1..Len(vals) })
      [] mode = "add" -> MapThenSumSet(LAMBDA i : vals[i], 1..Len(vals))

\* --- two-dimensional colour maps ---
\* floor of the square root of n < 2^31
RECURSIVE Bisect(_, _, _)
Bisect(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Bisect(n, m, hi) ELSE Bisect(n, lo, m)
Root(n) == Bisect(n, 0, 46341)
\* weight, of 25500, of a colour at q for the point p, both in 255ths
Weight(p, q) == LET r == Root(10000 * ((p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]))) IN IF r >= 25500 THEN 0 ELSE 25500 - r
Weights(p, colors) == MapThenSumSet(LAMBDA i : Weight(p, colors[i].at), 1..Len(colors))
\* channel k (in 10^-4; colours in eighths) of the mean of the colours around p
Mean(p, colors, k) == (1250 * MapThenSumSet(LAMBDA i : Weight(p, colors[i].at) * colors[i].rgba[k], 1..Len(colors))) \div Weights(p, colors)
\* the index in 0..n-1 of a value in 997ths
Index(v, n) == LET u == IF v < 0 THEN 0 ELSE IF v > 997 THEN 997 ELSE v IN (u * (n - 1)) \div 997
=============================================================================
