------------------------------ MODULE SubsetOps ------------------------------
(* What a subset file must be.  A file is                                       *)
(*   [centre : seq of cell ids, counts, offs : group -> seq, rows : group -> seq *)
(*    of row identities], and cellof gives the cell of a row identity.          *)
EXTENDS Ranges

Rows(f, g) == f.rows[g]
Block(f, g, i) == SubSeq(f.rows[g], f.offs[g][i] + 1, f.offs[g][i] + f.counts[g][i])

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* every cell's block holds exactly the rows of that cell; all rows are in a block
CountsDescribeRows(f, g, cellof(_)) ==
    /\ \A i \in 1..Len(f.centre) :
         /\ f.offs[g][i] >= 0 /\ f.offs[g][i] + f.counts[g][i] <= Len(f.rows[g])
         /\ \A k \in 1..Len(Block(f, g, i)) : cellof(Block(f, g, i)[k]) = f.centre[i]
         /\ Len(Block(f, g, i)) =
              Cardinality({ k \in 1..Len(f.rows[g]) : cellof(f.rows[g][k]) = f.centre[i] })
CountsSum(f, g) == SumSeq(f.counts[g]) = Len(f.rows[g])
Permutation(f, cells) == { f.centre[i] : i \in 1..Len(f.centre) } = cells /\ Len(f.centre) = Cardinality(cells)

\* the rows (positions, from 0, ascending) chosen by sel, as row identities
Pick(f, g, sel) == [ k \in 1..Len(sel) |-> f.rows[g][sel[k] + 1] ]
InCellSet(f, g, cs, cellof(_)) ==
    SelectSeq([k \in 1..Len(f.rows[g]) |-> k - 1], LAMBDA k : cellof(f.rows[g][k + 1]) \in cs)
=============================================================================
