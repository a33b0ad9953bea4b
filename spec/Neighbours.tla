----------------------------- MODULE Neighbours ------------------------------
(* Smoothing lengths found in blocks: block by block, each particle of the block *)
(* gets the distance to its k-th neighbour among all particles of a ring.        *)
(* Invariant: in the end every particle has its own; none is written twice.      *)
(* Refuted: "floor" the last incomplete block left out, "short" one particle of  *)
(* the last block left out, "own" neighbours looked for in the block only,       *)
(* "flat" not periodic, "other" not counting itself.                             *)
EXTENDS NearOps, Json
CONSTANTS L, MaxN, Blocks, Ks, Variant, Emit
VARIABLES x, k, B, block, h, writes
vars == <<x, k, B, block, h, writes>>
N == Len(x)
Init ==
    /\ x \in UNION { { f \in [1..n -> 0..(L - 1)] : \A i \in 1..(n - 1) : f[i] <= f[i + 1] } : n \in 0..MaxN }
    /\ k \in { j \in Ks : j <= Len(x) \/ Len(x) = 0 } /\ B \in Blocks
    /\ block = 0 /\ h = [ i \in 1..Len(x) |-> -1 ] /\ writes = [ i \in 1..Len(x) |-> 0 ]
Number == IF Variant = "floor" THEN N \div B ELSE 1 + N \div B
Start == block * B
End == LET e == (block + 1) * B IN IF e > N THEN (IF Variant = "short" THEN N - 1 ELSE N + 1) ELSE e
In(i) == Start <= i - 1 /\ i - 1 < End
Triple(i) == << x[i] >>
Found(i) ==
    LET all == [ j \in 1..N |-> Triple(j) ]
        box == << IF Variant = "flat" THEN 4 * L ELSE L >>
        mine == SelectSeq([ j \in 1..N |-> << x[j], j >> ], LAMBDA q : In(q[2]))
        m == Cardinality({ j \in 1..Len(mine) : mine[j][2] < i }) + 1
    IN IF Variant = "own" THEN (IF Len(mine) < k THEN -2 ELSE Kth([ j \in 1..Len(mine) |-> << mine[j][1] >> ], m, k, box))
       ELSE IF Variant = "other" THEN (IF k + 1 > N THEN -2 ELSE Kth(all, i, k + 1, box))
       ELSE Kth(all, i, k, box)
Step ==
    /\ block < Number
    /\ h' = [ i \in 1..N |-> IF In(i) THEN Found(i) ELSE h[i] ]
    /\ writes' = [ i \in 1..N |-> IF In(i) THEN writes[i] + 1 ELSE writes[i] ]
    /\ block' = block + 1 /\ UNCHANGED <<x, k, B>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Right == \A i \in 1..N : h[i] = -1 \/ h[i] = Kth([ j \in 1..N |-> Triple(j) ], i, k, <<L>>)
Done == block >= Number
Complete == Done => \A i \in 1..N : writes[i] = 1
Ends == <>Done
EmitCase == (Emit /\ block = 0 /\ N > 0) => PrintT("VT " \o ToJson([x |-> x, k |-> k]))
=============================================================================
