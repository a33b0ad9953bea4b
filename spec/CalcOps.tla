------------------------------- MODULE CalcOps --------------------------------
(* What the frames and exponents of operands mean for an operation.              *)
(* An operand is [q, e, fr, vt, s]: q - carries cosmology attributes, e - its     *)
(* scale-factor exponent in 24ths, fr - "c" comoving, "p" physical, "n" unknown,  *)
(* vt - may be made comoving, s - its scale factor (a label).                     *)
EXTENDS Integers, Sequences, FiniteSets

\* operations that need equal exponents and keep them
Same == {"add", "subtract", "maximum", "minimum", "fmax", "fmin", "hypot", "remainder", "fmod", "nextafter",
         "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "block", "append", "union1d", "intersect1d",
         "setdiff1d", "linspace", "geomspace", "where", "linspace_step", "select", "choose", "insert", "clip", "unwrap", "pad_with", "copyto",
         "fill_diagonal", "place", "put", "put_along_axis", "putmask", "construct", "setxor1d", "sum_initial", "max_initial",
         "percentile_weights", "ediff_ends"}
\* ... and give a plain number or truth value
SameNone == {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
             "logical_xor", "isclose", "allclose", "array_equal", "array_equiv", "isin", "searchsorted", "digitize"}
\* ... and give a ratio or an angle
SameZero == {"floor_divide", "arctan2"}
Product == {"multiply", "matmul", "vecdot", "dot", "vdot", "inner", "outer", "kron", "cross", "convolve", "correlate",
            "tensordot", "einsum", "trapezoid"}
Quotient == {"divide", "true_divide"}
\* the exponent is that of the first operand
Keep == {"negative", "absolute", "fabs", "conjugate", "positive", "copysign", "sum", "cumsum", "max", "min", "mean", "std",
         "median", "ptp", "sort", "partition", "diff", "ediff1d", "percentile", "quantile", "nanpercentile", "nanquantile",
         "trace", "take", "pad", "tril", "triu", "norm", "around", "fftshift", "ifftshift", "sort_complex", "eigvals", "eigvalsh",
         "reshape", "repeat", "accumulate", "nansum", "nanmax", "nanmin", "nanmean", "nanmedian", "nanstd", "roll", "flip",
         "delete", "apply_over_axes", "svdvals", "einsum_trace", "unique", "compress", "meshgrid1", "squeeze", "gradient",
         "array_split", "cumulative_sum", "average", "rot90", "tile", "broadcast", "expand_dims", "moveaxis", "swapaxes", "diagonal",
         "power_each", "atleast", "resize", "extract", "nan_to_num", "real", "imag", "copy", "frame"}
\* plain numbers: counts, indices, truth values
Count == {"argsort", "argmax", "argmin", "argpartition", "isfinite", "isnan", "isinf", "signbit", "sign", "logical_not", "all", "any",
          "count_nonzero", "nonzero", "where1", "size", "shape", "isreal", "logical_reduce", "rank", "sinc", "exp", "sin", "log",
          "flatnonzero", "rpower", "argwhere", "text", "count"}
Pow == {"power", "sqrt", "square", "cbrt", "reciprocal", "prod", "var", "inv", "det", "nanvar", "multiply_reduce", "matrix_power",
        "divide_reduce", "power_q", "nanprod", "pinv", "fft", "gradient_index"}

\* the last operand is the target of the result
WithOut == {"add_out", "mul_out", "sqrt_out", "sum_out"}
E(o) == IF o.q THEN o.e ELSE 0

\* groups of operands whose exponents must agree
Groups(op) ==
    CASE op \in Same \cup SameNone \cup SameZero -> << {1, 2, 3, 4} >>
      [] op = "divmod" -> << {1, 2} >>
      [] op = "add_out" -> << {1, 2} >>
      [] op = "interp" -> << {1, 2}, {3, 4} >>
      [] op = "interp_period" -> << {1, 2, 4}, {3} >>
      [] op \in {"histogram1", "histogram1_density"} -> << {1, 2} >>
      [] op = "histogram" -> << {1, 3} >>            \* data, weights, edges/range
      [] op = "histogram_density" -> << {1, 3} >>
      [] op = "histogram_bin_edges" -> << {1, 2} >>
      [] op = "histogram2d" -> << {1, 4}, {2, 5} >>    \* x, y, weights, x edges, y edges
      [] op = "histogram2d_density" -> << {1, 4}, {2, 5} >>
      [] OTHER -> <<>>

\* exponent of the k-th result: of args A and of the rational power p/q (in TLC exact by choice of operands)
OutE(op, A, p, q, k) ==
    LET e1 == E(A[1]) e2 == IF Len(A) > 1 THEN E(A[2]) ELSE 0 e3 == IF Len(A) > 2 THEN E(A[3]) ELSE 0 IN
    CASE op \in Same \cup Keep -> e1
      [] op \in SameNone \cup SameZero \cup Count -> 0
      [] op \in Product -> LET RECURSIVE S(_)
                               S(i) == IF i > Len(A) THEN 0 ELSE E(A[i]) + S(i + 1) IN S(1)
      [] op \in Quotient -> e1 - e2
      [] op \in Pow -> (e1 * p) \div q
      [] op \in {"add_out", "sum_out"} -> e1
      [] op = "mul_out" -> e1 + e2
      [] op = "sqrt_out" -> e1 \div 2
      [] op = "solve" -> e2 - e1
      [] op = "lstsq" -> CASE k = 1 -> e2 - e1 [] k = 2 -> 2 * e2 [] k = 3 -> 0 [] OTHER -> e1
      [] op = "divmod" -> IF k = 1 THEN 0 ELSE e1
      [] op = "eig" -> IF k = 1 THEN e1 ELSE 0
      [] op = "svd" -> IF k = 2 THEN e1 ELSE 0
      [] op \in {"interp", "interp_period"} -> e3
      [] op = "average_weights" -> IF k = 1 THEN e1 ELSE e2
      [] op = "histogram" -> IF k = 1 THEN e2 ELSE e1
      [] op = "histogram_density" -> IF k = 1 THEN -e1 ELSE e1
      [] op = "histogram1" -> IF k = 1 THEN 0 ELSE e1
      [] op = "histogram1_density" -> IF k = 1 THEN -e1 ELSE e1
      [] op = "histogram2d1" -> CASE k = 1 -> 0 [] k = 2 -> e1 [] OTHER -> e2
      [] op = "histogram2d1_density" -> CASE k = 1 -> -e1 - e2 [] k = 2 -> e1 [] OTHER -> e2
      [] op = "histogram_bin_edges" -> e1
      [] op = "histogram2d" -> CASE k = 1 -> e3 [] k = 2 -> e1 [] OTHER -> e2
      [] op = "histogram2d_density" -> CASE k = 1 -> -e1 - e2 [] k = 2 -> e1 [] OTHER -> e2
      [] op = "meshgrid" -> IF k = 1 THEN e1 ELSE e2
      [] op = "unique_counts" -> IF k = 1 THEN e1 ELSE 0

\* may the exponents be combined?  (also at the scale factor 1, where all powers are equal)
Agree(op, A) ==
       /\ (op = "power_q" => E(A[2]) = 0 \/ A[2].s = 1) /\ (op = "rpower" => E(A[1]) = 0 \/ A[1].s = 1)   \* exponents are numbers
       /\ (op = "power_each" => E(A[1]) = 0)    \* there is one exponent for the whole result
       /\ \A g \in 1..Len(Groups(op)) :
        \A i, j \in Groups(op)[g] : (i <= Len(A) /\ j <= Len(A) /\ A[i].q /\ A[j].q) => A[i].e = A[j].e
\* operands of different scale factors have no common frame
OneEpoch(A) == \A i, j \in 1..Len(A) : (A[i].q /\ A[j].q) => A[i].s = A[j].s
Mixable(op, A) == op = "power_q" \/ \A i, j \in 1..Len(A) : (E(A[i]) # 0 /\ E(A[j]) # 0) => A[i].s = A[j].s
\* quantities of known and unknown frame cannot be combined
Known(A) == \A i, j \in 1..Len(A) : (A[i].q /\ A[j].q) => ((A[i].fr = "n") <=> (A[j].fr = "n"))
Inputs(op, A) == IF op \in WithOut THEN SubSeq(A, 1, Len(A) - 1) ELSE A
\* values are converted to the frame of what they are written into
Into == {"copyto", "fill_diagonal", "place", "put", "put_along_axis", "putmask"}
Writable(op, A) == (op \in Into /\ A[1].q /\ A[1].fr = "c") => \A i \in 2..Len(A) : A[i].q => A[i].vt
\* the operands that the k-th result is made of
Deps(op, A, k) ==
    CASE op = "meshgrid" -> {k}
      [] op \in {"histogram", "histogram_density"} -> IF k = 1 THEN 1..Len(A) ELSE {1}
      [] op \in {"histogram1", "histogram1_density"} -> IF k = 1 THEN 1..Len(A) ELSE {1}
      [] op = "histogram2d" -> IF k = 1 THEN {3} ELSE {k - 1}
      [] op = "histogram2d1" -> IF k = 1 THEN {} ELSE {k - 1}
      [] op = "histogram2d_density" -> IF k = 1 THEN 1..Len(A) ELSE {k - 1}
      [] op = "histogram2d1_density" -> IF k = 1 THEN {1, 2} ELSE {k - 1}
      [] op = "average_weights" -> {k}
      [] OTHER -> 1..Len(A)
AllVtOf(op, A, k) == \A i \in Deps(op, A, k) : A[i].q => A[i].vt
AllVt(A) == \A i \in 1..Len(A) : A[i].q => A[i].vt

\* a sound result x of operands A with exponent e
Sound(x, A, e) ==
    /\ x.e = e
    /\ x.vt => AllVt(A)
    /\ x.fr = "c" => x.vt
    /\ x.fr = "n" => \A i \in 1..Len(A) : A[i].q => A[i].fr = "n"
=============================================================================
