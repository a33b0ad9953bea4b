----------------------------- MODULE RangeReader -----------------------------
(* The chunk-aware range reader as a state machine: merge the chunks touched  *)
(* by an ascending range list, read each merged block once, extract.          *)
(* One action per loop iteration of the implementation.                       *)
EXTENDS Ranges, TLC, Json

CONSTANTS MaxN, MaxC, MaxLen, Emit

VARIABLES n, c, rs,       \* dataset length, chunk size (0: contiguous), request
          pc, k,          \* control state, loop counter
          chunks,         \* merged chunk ranges
          buf,            \* rows read so far, in order
          out             \* extracted rows
vars == <<n, c, rs, pc, k, chunks, buf, out>>

\* all ascending range lists over 0..m with exactly len ranges
RECURSIVE AscLists(_, _, _)
AscLists(from, m, len) ==
    IF len = 0 THEN { <<>> }
    ELSE UNION { { << <<lo, hi>> >> \o t : t \in AscLists(hi, m, len - 1) } :
                 lo \in from..m, hi \in from..m } 

Lists(m, len) == { l \in AscLists(0, m, len) : Ascending(l) }

Init ==
    /\ n \in 0..MaxN
    /\ c \in 0..MaxC
    /\ \E len \in 1..MaxLen : rs \in Lists(n, len)
    /\ pc = IF c = 0 THEN "direct" ELSE "merge"
    /\ k = 1 /\ chunks = <<>> /\ buf = <<>> /\ out = <<>>

Lesser(a, b) == IF a < b THEN a ELSE b
CeilTo(x, m) == ((x + m - 1) \div m) * m

Merge ==
    /\ pc = "merge" /\ k <= Len(rs)
    /\ LET lower == (rs[k][1] \div c) * c
           upper == Lesser(CeilTo(rs[k][2], c), n)
       IN chunks' = IF chunks # <<>> /\ lower <= chunks[Len(chunks)][2]
                    THEN [chunks EXCEPT ![Len(chunks)] = <<@[1], upper>>]
                    ELSE Append(chunks, <<lower, upper>>)
    /\ k' = k + 1 /\ UNCHANGED <<n, c, rs, pc, buf, out>>
MergeDone ==
    /\ pc = "merge" /\ k > Len(rs) /\ pc' = "read" /\ k' = 1
    /\ UNCHANGED <<n, c, rs, chunks, buf, out>>

ReadBlock ==
    /\ pc = "read" /\ k <= Len(chunks)
    /\ buf' = buf \o RangeRows(chunks[k]) /\ k' = k + 1
    /\ UNCHANGED <<n, c, rs, pc, chunks, out>>
ReadDone ==
    /\ pc = "read" /\ k > Len(chunks) /\ pc' = "extract" /\ k' = 1
    /\ UNCHANGED <<n, c, rs, chunks, buf, out>>

\* position in buf of the first row of block j
RECURSIVE Before(_)
Before(j) == IF j = 1 THEN 0 ELSE Before(j - 1) + chunks[j - 1][2] - chunks[j - 1][1]
Covering(r) == CHOOSE j \in 1..Len(chunks) : chunks[j][1] <= r[1] /\ r[2] <= chunks[j][2]

Extract ==
    /\ pc = "extract" /\ k <= Len(rs)
    /\ LET j == Covering(rs[k])
           at == Before(j) + rs[k][1] - chunks[j][1]
       IN out' = out \o SubSeq(buf, at + 1, at + rs[k][2] - rs[k][1])
    /\ k' = k + 1 /\ UNCHANGED <<n, c, rs, pc, chunks, buf>>
ExtractDone ==
    /\ pc = "extract" /\ k > Len(rs) /\ pc' = "done"
    /\ UNCHANGED <<n, c, rs, k, chunks, buf, out>>

Direct ==   \* contiguous dataset: each range straight into the output
    /\ pc = "direct" /\ k <= Len(rs)
    /\ out' = out \o RangeRows(rs[k]) /\ k' = k + 1
    /\ UNCHANGED <<n, c, rs, pc, chunks, buf>>
DirectDone ==
    /\ pc = "direct" /\ k > Len(rs) /\ pc' = "done"
    /\ UNCHANGED <<n, c, rs, k, chunks, buf, out>>

Next == Merge \/ MergeDone \/ ReadBlock \/ ReadDone \/ Extract \/ ExtractDone \/ Direct \/ DirectDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Correct == pc = "done" => out = Flatten(rs)
OnlyInside == \A i \in 1..Len(buf) : buf[i] >= 0 /\ buf[i] < n
ReadOnce == \A i, j \in 1..Len(buf) : buf[i] = buf[j] => i = j
BlocksDisjoint == \A i \in 1..(Len(chunks) - 1) : chunks[i][2] < chunks[i + 1][1]
Covered == pc = "extract" => \A i \in 1..Len(rs) :
              \E j \in 1..Len(chunks) : chunks[j][1] <= rs[i][1] /\ rs[i][2] <= chunks[j][2]
Terminates == <>(pc = "done")

EmitCase == (Emit /\ pc = "done") =>
              PrintT("VT " \o ToJson([n |-> n, c |-> c, rs |-> rs, out |-> out]))
=============================================================================
