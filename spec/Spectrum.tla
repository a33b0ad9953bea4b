------------------------------ MODULE Spectrum -------------------------------
(* Stitching the spectra of a box folded several times: the folds are visited in *)
(* increasing order, and one bin of the result takes the power of a fold when it *)
(* may (enough modes unless it is the first, not above the cut unless it is the  *)
(* last) and has more modes than what the bin holds.                             *)
(* Invariant: at the end the bin holds the best of the folds that it may have,   *)
(* the earliest of those that are equally good, or nothing when there is none.   *)
(* Also, on every one-dimensional mesh: each mode is in one bin, and the power   *)
(* does not change when the mesh is shifted, mirrored or scaled.                 *)
(* Refuted: "late" last of the equally good, "forget" what the bin holds is not  *)
(* remembered, "fewest" few modes allowed in all folds, "first" enough modes     *)
(* asked of the first as well, "cut" the last cut too, "order" decreasing order. *)
EXTENDS FourierOps, Json
CONSTANTS Folds, MaxCount, Values, Variant, Emit
VARIABLES count, minimal, cut, todo, held, from, mesh
vars == <<count, minimal, cut, todo, held, from, mesh>>
First == CHOOSE f \in Folds : \A g \in Folds : f <= g
LastF == CHOOSE f \in Folds : \A g \in Folds : f >= g
Init ==
    /\ count \in [Folds -> 0..MaxCount] /\ minimal \in 0..MaxCount
    /\ cut \in [Folds -> BOOLEAN]                 \* above the cut of that fold
    /\ todo = Folds /\ held = 0 /\ from = -1
    /\ mesh \in [0..3 -> Values]
May(f, first, last) ==
    /\ count[f] > (IF f = first THEN 0 ELSE minimal)
    /\ (f = last \/ ~cut[f])
Impl(f) ==
    /\ count[f] > (IF (f = First /\ Variant # "first") \/ Variant = "fewest" THEN 0 ELSE minimal)
    /\ ((f = LastF /\ Variant # "cut") \/ ~cut[f])
Visit ==
    /\ todo # {}
    /\ LET f == IF Variant = "order" THEN CHOOSE x \in todo : \A y \in todo : x >= y
                ELSE CHOOSE x \in todo : \A y \in todo : x <= y
           better == IF Variant = "late" THEN count[f] >= held ELSE IF Variant = "forget" THEN count[f] > 0 ELSE count[f] > held
       IN /\ todo' = todo \ {f}
          /\ IF better /\ Impl(f) THEN held' = count[f] /\ from' = f ELSE UNCHANGED <<held, from>>
    /\ UNCHANGED <<count, minimal, cut, mesh>>
Next == Visit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Eligible == { f \in Folds : May(f, First, LastF) }
Best == { f \in Eligible : \A g \in Eligible : count[f] > count[g] \/ (count[f] = count[g] /\ f <= g) }
Correct == todo = {} => IF Eligible = {} THEN from = -1 /\ held = 0 ELSE Best = {from} /\ held = count[from]
Ends == <>(todo = {})

\* the transform, on the first axis
Line(m) == [i \in 1..4 |-> [c |-> <<i - 1, 0, 0>>, m |-> m[i - 1]]]
Turned(m, s) == [i \in 0..3 |-> m[(i + s) % 4]]
Power1(m, lo, hi) == Sum(LAMBDA k : Prod(Dft(4, Line(m), k), Dft(4, Line(m), k)), { k \in { <<i, 0, 0>> : i \in Axis(4) } : InBin(0, k, lo, hi) })
Physics == todo = Folds =>
    /\ \A s \in 1..3 : Power1(Turned(mesh, s), -1, 100) = Power1(mesh, -1, 100) /\ Power1(Turned(mesh, s), 0, 2) = Power1(mesh, 0, 2)
    /\ Power1([i \in 0..3 |-> mesh[3 - i]], 0, 2) = Power1(mesh, 0, 2)
    /\ Power1(mesh, -1, 0) + Power1(mesh, 0, 2) + Power1(mesh, 2, 100) = Power1(mesh, -1, 100)
    /\ Power1(mesh, -1, 100) = 4 * SumTo(LAMBDA i : mesh[i - 1] * mesh[i - 1], 4)       \* Parseval
EmitCase == (Emit /\ todo = Folds) => PrintT("VT " \o ToJson([m |-> [i \in 1..4 |-> mesh[i - 1]]]))
=============================================================================
