----------------------------- MODULE SubsetTrace -----------------------------
(* Verdicts on recorded subset writes (one line each): the file before, the     *)
(* selected rows, the file after (cell metadata, rows of every dataset, header   *)
(* counts) and the inventories of everything else before and after.              *)
EXTENDS SubsetOps, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
S(q) == { q[i] : i \in 1..Len(q) }

Content(t) ==
    (IF \E k \in 1..Len(t.datasets) : LET d == t.datasets[k] IN
           d.runs # MergeRuns([i \in 1..Len(t.sel[d.g]) |-> <<t.sel[d.g][i], t.sel[d.g][i] + 1>>])
     THEN {"datasets-hold-the-masked-rows"} ELSE {})
    \cup (IF S(t.before_items) \ S(t.after_items) # {} THEN {"everything-else-kept"} ELSE {})
    \cup (IF S(t.after_items) \ S(t.before_items) # {} THEN {"nothing-added"} ELSE {})

Meta(t) ==
    UNION { LET co(id) == t.cellof[g][id + 1] IN
       (IF ~CountsDescribeRows(t.after, g, co) THEN {"counts-and-offsets-describe-the-rows"} ELSE {})
       \cup (IF ~CountsSum(t.after, g) THEN {"counts-sum-to-rows"} ELSE {})
       \cup (IF t.header[g] # Len(t.after.rows[g]) THEN {"header-count-is-rows-stored"} ELSE {})
       \cup (IF ~t.extents[g] THEN {"extents-stay-with-their-cell"} ELSE {})
       \cup UNION { IF t.regions[k].rows[g] # Pick(t.after, g, InCellSet(t.after, g, S(t.regions[k].cells), co))
                    THEN {"mask-on-subset-selects-retained-rows"} ELSE {} : k \in 1..Len(t.regions) }
       : g \in 1..Len(t.after.rows) }
    \cup (IF ~Permutation(t.after, S(t.before.centre)) THEN {"cells-kept"} ELSE {})
    \cup (IF \E g \in 1..Len(t.after.rows) : t.after.rows[g] # Pick(t.before, g, t.sel[g])
          THEN {"rows-are-the-selected-ones"} ELSE {})

Fails(t) ==
    IF t.op = "refuse" THEN (IF t.exc = "" THEN {"unconstrained-refused"} ELSE {})
    ELSE IF t.exc # "" THEN {"write-succeeds"}
    ELSE Content(t) \cup Meta(t)

Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN
         f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
