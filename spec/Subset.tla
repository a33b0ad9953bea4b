-------------------------------- MODULE Subset -------------------------------
(* The subset writer as an algorithm on cell metadata: cells are put in storage *)
(* order, ranges are intersected with the blocks of the cells, offsets are      *)
(* cumulative.  Applied twice; the result must describe its own rows and equal   *)
(* the subset by the combined selection.                                         *)
EXTENDS SubsetOps, TLC, Json
CONSTANTS NC, MaxA, MaxB, Emit

VARIABLES disk, f0, file, sel1, sel2, pc
vars == <<disk, f0, file, sel1, sel2, pc>>
Cells == 1..NC
Perms == { p \in [Cells -> Cells] : \A i, j \in Cells : i # j => p[i] # p[j] }

CellOf(id) == id % 10          \* row identity: 10 * running number + cell
RowsOf(p, cnt) == FoldLeft(LAMBDA a, i : a \o [k \in 1..cnt[p[i]] |-> 10 * (Len(a) + k) + p[i]],
                           <<>>, [i \in Cells |-> i])
OffOf(p, cnt, c) ==
    LET pos == CHOOSE i \in Cells : p[i] = c
    IN SumSeq([i \in 1..(pos - 1) |-> cnt[p[i]]])
FileOf(p, ca, cb) ==
    [centre |-> [i \in Cells |-> i],
     counts |-> << [i \in Cells |-> ca[i]], [i \in Cells |-> cb[i]] >>,
     offs |-> << [i \in Cells |-> OffOf(p, ca, i)], [i \in Cells |-> OffOf(p, cb, i)] >>,
     rows |-> << RowsOf(p, ca), RowsOf(p, cb) >>]

\* storage order of the cells, from the summed offsets then the summed counts
SortKey(f, i) == 100 * (f.offs[1][i] + f.offs[2][i]) + (f.counts[1][i] + f.counts[2][i])
CellSort(f) == SetToSortSeq(1..Len(f.centre),
    LAMBDA i, j : SortKey(f, i) < SortKey(f, j) \/ (SortKey(f, i) = SortKey(f, j) /\ i < j))
Sorted(f) == LET s == CellSort(f) IN
    [f EXCEPT !.centre = [i \in Cells |-> f.centre[s[i]]],
              !.counts = [g \in 1..2 |-> [i \in Cells |-> f.counts[g][s[i]]]],
              !.offs = [g \in 1..2 |-> [i \in Cells |-> f.offs[g][s[i]]]]]

\* selections: whole cells, or any rows of group 1 (property constraint)
CellRanges(f, g, cs) ==      \* f sorted
    FoldLeft(LAMBDA a, i : IF f.centre[i] \in cs
        THEN Append(a, <<f.offs[g][i], f.offs[g][i] + f.counts[g][i]>>) ELSE a, <<>>, [i \in Cells |-> i])
RangesFor(f, s, g) ==
    IF s.kind = "cells" THEN CellRanges(f, g, s.set)
    ELSE IF g = 1 THEN RangesOfRows(SetToAscSeq(s.set))
    ELSE RangesOfRows([k \in 1..Len(f.rows[2]) |-> k - 1])

\* cell whose offset is the last not above x (offsets ascending)
CellAt(f, g, x) == 1 + Cardinality({ i \in 2..NC : f.offs[g][i] <= x })
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
NewCounts(f, g, rs) == [c \in Cells |->
    SumSeq([k \in 1..Len(rs) |->
        IF c >= CellAt(f, g, rs[k][1]) /\ c <= CellAt(f, g, rs[k][2])
        THEN Min2(rs[k][2], f.offs[g][c] + f.counts[g][c]) - Max2(rs[k][1], f.offs[g][c])
        ELSE 0])]
Write(f, s) == LET t == Sorted(f)
                   rs == [g \in 1..2 |-> RangesFor(t, s, g)]
                   nc == [g \in 1..2 |-> NewCounts(t, g, rs[g])]
    IN [centre |-> t.centre, counts |-> nc,
        offs |-> [g \in 1..2 |-> [i \in Cells |-> SumSeq(SubSeq(nc[g], 1, i - 1))]],
        rows |-> [g \in 1..2 |-> Pick(t, g, Flatten(rs[g]))]]

Init ==
    /\ disk \in Perms
    /\ \E ca \in [Cells -> 0..MaxA], cb \in [Cells -> 0..MaxB] : f0 = FileOf(disk, ca, cb)
    /\ file = f0 /\ sel1 = [kind |-> "none", set |-> {}] /\ sel2 = sel1 /\ pc = 0
Sels(f) == [kind : {"cells"}, set : SUBSET Cells]
           \cup [kind : {"rows"}, set : SUBSET (0..(Len(f.rows[1]) - 1))]
First == pc = 0 /\ \E s \in Sels(file) : /\ sel1' = s /\ file' = Write(file, s) /\ pc' = 1
                                         /\ UNCHANGED <<disk, f0, sel2>>
Second == pc = 1 /\ \E s \in [kind : {"cells"}, set : SUBSET Cells] :
             /\ sel2' = s /\ file' = Write(file, s) /\ pc' = 2 /\ UNCHANGED <<disk, f0, sel1>>
Next == First \/ Second
Spec == Init /\ [][Next]_vars

Describes == \A g \in 1..2 : CountsDescribeRows(file, g, CellOf) /\ CountsSum(file, g)
CellsKept == Permutation(file, Cells)
Wanted(g) == SelectSeq(f0.rows[g], LAMBDA id :
    LET k == (CHOOSE i \in 1..Len(f0.rows[g]) : f0.rows[g][i] = id) - 1 IN
    /\ sel1.kind = "cells" => CellOf(id) \in sel1.set
    /\ (sel1.kind = "rows" /\ g = 1) => k \in sel1.set
    /\ sel2.kind = "cells" => CellOf(id) \in sel2.set)
Composes == \A g \in 1..2 : file.rows[g] = Wanted(g)

EmitCase == (Emit /\ pc = 2) => PrintT("VT " \o ToJson(
    [disk |-> disk, f0 |-> f0, s1 |-> [kind |-> sel1.kind, set |-> SetToAscSeq(sel1.set)],
     s2 |-> SetToAscSeq(sel2.set), file |-> file]))
=============================================================================
