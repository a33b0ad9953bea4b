-------------------------------- MODULE Mesh ---------------------------------
(* Deposition by several workers at once (property P01), one axis.  The particles *)
(* are dealt out in blocks, every worker deposits its block in its own mesh, and  *)
(* the meshes are added up in any order.  Checked over all particle positions,    *)
(* foldings, resolutions, numbers of workers and schedules; refuted for           *)
(*   "remainder"  the last block does not take what the division leaves           *)
(*   "overlap"    neighbouring blocks share a particle                            *)
(*   "race"       all workers read and write one mesh without taking turns        *)
(*   "nofold"     the end of the folded box is a cell of its own                  *)
(*   "truncate"   coordinates below zero are not wrapped                          *)
EXTENDS MeshOps, TLC, Json
CONSTANTS B, MaxP, Ress, Folds, Ws, Variant, Emit
VARIABLES ps, n, F, W, pos, priv, grid, merged, held
vars == <<ps, n, F, W, pos, priv, grid, merged, held>>

Weight(i) == 2 ^ (i - 1)
Cells == 0..(n - 1)
Zero == [c \in Cells |-> 0]
Start(w) == (w - 1) * (Len(ps) \div W)
End(w) == IF w = W /\ Variant # "remainder" THEN Len(ps)
          ELSE IF Variant = "overlap" /\ w # W /\ Len(ps) \div W > 0 THEN w * (Len(ps) \div W) + 1
          ELSE w * (Len(ps) \div W)
Where(x) ==
    CASE Variant = "nofold" -> (IF x * F = B THEN n ELSE CellOf(x, B, F, n))
      [] Variant = "truncate" -> (IF x < 0 THEN 0 ELSE CellOf(x, B, F, n))
      [] OTHER -> CellOf(x, B, F, n)

Init ==
    /\ \E k \in 0..MaxP : ps \in [1..k -> -1..(B + 1)]
    /\ n \in Ress /\ F \in Folds /\ W \in Ws
    /\ pos = [w \in 1..W |-> Start(w)]
    /\ priv = [w \in 1..W |-> Zero]
    /\ grid = Zero
    /\ merged = [w \in 1..W |-> FALSE]
    /\ held = [w \in 1..W |-> -1]

Add(g, i) == LET c == Where(ps[i]) IN [d \in Cells |-> IF d = c THEN g[d] + Weight(i) ELSE g[d]]
Deposit(w) ==
    /\ Variant # "race" /\ pos[w] < End(w)
    /\ pos' = [pos EXCEPT ![w] = @ + 1]
    /\ priv' = [priv EXCEPT ![w] = Add(@, pos[w] + 1)]
    /\ UNCHANGED <<ps, n, F, W, grid, merged, held>>
Merge(w) ==
    /\ pos[w] >= End(w) /\ ~merged[w]
    /\ merged' = [merged EXCEPT ![w] = TRUE]
    /\ grid' = [c \in Cells |-> grid[c] + priv[w][c]]
    /\ priv' = [priv EXCEPT ![w] = Zero]
    /\ UNCHANGED <<ps, n, F, W, pos, held>>
Load(w) ==
    /\ Variant = "race" /\ pos[w] < End(w) /\ held[w] = -1
    /\ held' = [held EXCEPT ![w] = grid[Where(ps[pos[w] + 1])]]
    /\ UNCHANGED <<ps, n, F, W, pos, priv, grid, merged>>
Store(w) ==
    /\ Variant = "race" /\ held[w] # -1
    /\ grid' = [grid EXCEPT ![Where(ps[pos[w] + 1])] = held[w] + Weight(pos[w] + 1)]
    /\ pos' = [pos EXCEPT ![w] = @ + 1]
    /\ held' = [held EXCEPT ![w] = -1]
    /\ UNCHANGED <<ps, n, F, W, priv, merged>>
Next == \E w \in 1..W : Deposit(w) \/ Merge(w) \/ Load(w) \/ Store(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == \A w \in 1..W : merged[w]
Total(g) == SumOver(g, Cells)
All == SumOver([i \in 1..Len(ps) |-> Weight(i)], 1..Len(ps))
Left == SumOver([i \in 1..Len(ps) |-> IF \E w \in 1..W : pos[w] < i /\ i <= End(w) THEN Weight(i) ELSE 0], 1..Len(ps))
Conserved == Total(grid) + SumOver([w \in 1..W |-> Total(priv[w])], 1..W) + Left = All
Correct == Done => \A c \in Cells : grid[c] = SumOver([i \in 1..Len(ps) |-> IF CellOf(ps[i], B, F, n) = c THEN Weight(i) ELSE 0], 1..Len(ps))
Finishes == <>Done
EmitCase == (Emit /\ Done) => PrintT("VT " \o ToJson([ps |-> ps, n |-> n, F |-> F, W |-> W, grid |-> [i \in 1..n |-> grid[i - 1]]]))
=============================================================================
