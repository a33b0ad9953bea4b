------------------------------- MODULE NearOps -------------------------------
(* Distances to neighbours in a periodic box (property V03), in integers.         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
\* squared distance of a and b in a box with edges L
Gap(d, L) == LET r == (IF d < 0 THEN -d ELSE d) % L IN IF r <= L - r THEN r ELSE L - r
Dist2(a, b, L) == MapThenSumSet(LAMBDA i : Gap(a[i] - b[i], L[i]) * Gap(a[i] - b[i], L[i]), 1..Len(a))
\* squared distance of the k-th nearest of the particles to particle i, itself included
Kth(x, i, k, L) ==
    LET d == [ j \in 1..Len(x) |-> Dist2(x[i], x[j], L) ]
        S == { d[j] : j \in 1..Len(x) }
        below(v) == Cardinality({ j \in 1..Len(x) : d[j] < v })
        upto(v) == Cardinality({ j \in 1..Len(x) : d[j] <= v })
    IN CHOOSE v \in S : below(v) < k /\ k <= upto(v)
\* 10^3 s^(2/dim) for the speed-up s
Stretch(s, dim) ==
    CASE s = 1 -> 1000
      [] dim = 1 -> 1000 * s * s
      [] dim = 2 -> 1000 * s
      [] dim = 3 -> (CASE s = 2 -> 1587 [] s = 3 -> 2080 [] s = 4 -> 2520 [] s = 8 -> 4000 [] s = 16 -> 6350)
=============================================================================
