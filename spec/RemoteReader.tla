----------------------------- MODULE RemoteReader ----------------------------
(* Remote (server side) range reads: empty ranges dropped, sorted, overlap    *)
(* refused, touching slices merged, result split and put back in the order    *)
(* requested.                                                                  *)
EXTENDS Ranges, TLC, Json

CONSTANTS MaxN, MaxLen, Emit

VARIABLES rs, pc, kept, order, slices, answer, out
vars == <<rs, pc, kept, order, slices, answer, out>>

R == { r \in (0..MaxN) \X (0..MaxN) : r[1] <= r[2] }
Init ==
    /\ \E len \in 0..MaxLen : rs \in [1..len -> R]
    /\ pc = "drop" /\ kept = <<>> /\ order = <<>> /\ slices = <<>> /\ answer = <<>> /\ out = <<>>

Drop ==
    /\ pc = "drop" /\ kept' = SelectSeq(rs, LAMBDA r : r[2] > r[1]) /\ pc' = "sort"
    /\ UNCHANGED <<rs, order, slices, answer, out>>

\* order[i] = index in kept of the i-th range by start
Perm(s) == SetToSortSeq(1..Len(s), LAMBDA a, b : s[a][1] < s[b][1] \/ (s[a][1] = s[b][1] /\ a < b))
Sort ==
    /\ pc = "sort" /\ order' = Perm(kept)
    /\ pc' = IF \E i, j \in 1..Len(kept) : i # j /\ Overlap(kept[i], kept[j]) THEN "refused" ELSE "merge"
    /\ UNCHANGED <<rs, kept, slices, answer, out>>

Merge ==
    /\ pc = "merge"
    /\ slices' = MergeRuns([i \in 1..Len(order) |-> kept[order[i]]])
    /\ pc' = "request" /\ UNCHANGED <<rs, kept, order, answer, out>>

Request ==
    /\ pc = "request" /\ answer' = Flatten(slices) /\ pc' = "restore"
    /\ UNCHANGED <<rs, kept, order, slices, out>>

\* split the answer by the lengths in sorted order, then undo the sort
RECURSIVE StartOf(_)
StartOf(i) == IF i = 1 THEN 0 ELSE StartOf(i - 1) + kept[order[i - 1]][2] - kept[order[i - 1]][1]
Piece(i) == SubSeq(answer, StartOf(i) + 1, StartOf(i) + kept[order[i]][2] - kept[order[i]][1])
Inv(j) == CHOOSE i \in 1..Len(order) : order[i] = j
Restore ==
    /\ pc = "restore"
    /\ out' = FoldLeft(LAMBDA acc, j : acc \o Piece(Inv(j)), <<>>, [j \in 1..Len(kept) |-> j])
    /\ pc' = "done" /\ UNCHANGED <<rs, kept, order, slices, answer>>

Next == Drop \/ Sort \/ Merge \/ Request \/ Restore
Spec == Init /\ [][Next]_vars

Correct == pc = "done" => out = Flatten(rs)
SlicesNormal == \A i \in 1..Len(slices) :
    /\ slices[i][1] < slices[i][2]
    /\ i < Len(slices) => slices[i][2] < slices[i + 1][1]
RefusedIffOverlap ==
    /\ pc = "refused" => \E i, j \in 1..Len(rs) : i # j /\ Overlap(rs[i], rs[j])
    /\ pc = "done" => ~ \E i, j \in 1..Len(rs) : i # j /\ Overlap(rs[i], rs[j])

EmitCase == (Emit /\ pc \in {"done", "refused"}) =>
    PrintT("VT " \o ToJson([rs |-> rs, out |-> out, slices |-> slices, refused |-> pc = "refused"]))
=============================================================================
