------------------------------- MODULE Ranges -------------------------------
(* Row ranges: the vocabulary shared by the reader, mask and subset models.  *)
(* A range is <<lo, hi>>, half open; rows are numbered from 0.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RangeRows(r) == [i \in 1..(IF r[2] > r[1] THEN r[2] - r[1] ELSE 0) |-> r[1] + i - 1]

(* The meaning of a list of ranges: the concatenation of their row blocks.   *)
Flatten(rs) == FoldLeft(LAMBDA acc, r : acc \o RangeRows(r), <<>>, rs)

RECURSIVE SumLen(_)
SumLen(rs) == IF rs = <<>> THEN 0
              ELSE (Head(rs)[2] - Head(rs)[1]) + SumLen(Tail(rs))

(* Ascending, possibly empty, possibly touching.                             *)
Ascending(rs) ==
    /\ \A i \in 1..Len(rs) : rs[i][1] <= rs[i][2]
    /\ \A i \in 1..(Len(rs) - 1) : rs[i][2] <= rs[i + 1][1]

Overlap(r, s) == r[1] < s[2] /\ s[1] < r[2] /\ r[1] < r[2] /\ s[1] < s[2]

(* Maximal runs of consecutive rows of a row list, as ranges (used to compare *)
(* long reads: Runs(Flatten(rs)) is a normal form).                           *)
AppendRange(acc, r) ==
    IF r[1] >= r[2] THEN acc
    ELSE IF acc # <<>> /\ acc[Len(acc)][2] = r[1]
         THEN [acc EXCEPT ![Len(acc)] = <<@[1], r[2]>>]
         ELSE Append(acc, r)
MergeRuns(rs) == FoldLeft(AppendRange, <<>>, rs)

(* Ascending row list -> maximal ranges; the empty list is <<0,0>>.          *)
RangesOfRows(rows) ==
    IF rows = <<>> THEN << <<0, 0>> >>
    ELSE MergeRuns([i \in 1..Len(rows) |-> <<rows[i], rows[i] + 1>>])

SetToAscSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
=============================================================================
