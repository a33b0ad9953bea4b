------------------------------- MODULE MaskTrace -----------------------------
(* Verdicts on recorded spatial masks of the implementation.                  *)
(* One line = one mask: the box, per group the extents of every cell (cell    *)
(* volume together with recorded extents or padding), the cell and position   *)
(* of every row, the regions given (first one, then unions), which calls were *)
(* refused, and the rows read back per group.                                  *)
EXTENDS Cells, Ranges, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1

Dims == 1..3
InRegion(pos, reg, L) == \A d \in Dims : InRow(pos[d], reg[d], L[d])
Touches(ext, reg, L) == \A d \in Dims : TouchRow(ext[d][1], ext[d][2], reg[d], L[d])
Refusable(reg, L) == \E d \in Dims : RefusedRow(reg[d], L[d])

Accepted(t) == { i \in 1..Len(t.regions) : ~Refusable(t.regions[i], t.L) }

GroupFails(t, g) ==
    LET acc == Accepted(t)
        rows == 1..Len(g.rowcell)
        got == { g.got[i] + 1 : i \in 1..Len(g.got) }
    IN (IF \E r \in rows : r \notin got /\ \E i \in acc : InRegion(g.rowpos[r], t.regions[i], t.L)
        THEN {"complete"} ELSE {})
       \cup (IF acc = {} /\ got # rows THEN {"refused-region-leaves-mask"} ELSE {})
       \cup (IF ~(got \subseteq rows) \/ g.got # SetToAscSeq({x - 1 : x \in got})
             THEN {"rows-once-in-file-order"} ELSE {})
       \cup (IF acc # {} /\ \E r \in got, s \in rows : s \notin got /\ g.rowcell[r] = g.rowcell[s]
             THEN {"whole-cells"} ELSE {})
       \cup (IF acc # {} /\ \E r \in got : r \in rows /\ \A i \in acc : ~Touches(g.ext[g.rowcell[r] + 1], t.regions[i], t.L)
             THEN {"only-touching-cells"} ELSE {})

Fails(t) ==
    (IF t.exc # "" THEN {"no-unexpected-error"} ELSE
       (IF \E i \in 1..Len(t.regions) : Refusable(t.regions[i], t.L) # t.refused[i]
        THEN {"far-regions-refused"} ELSE {})
       \cup UNION { GroupFails(t, t.groups[k]) : k \in 1..Len(t.groups) })

Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN
         f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
