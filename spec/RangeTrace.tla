------------------------------ MODULE RangeTrace -----------------------------
(* Verdicts on recorded reads of the implementation.  Each line is one call:  *)
(*  read:  requested ranges and the rows returned (as maximal runs, rle)      *)
(*  rows:  ascending row list and the ranges the implementation made of it    *)
(*  remote: ranges, refused?, slices requested, rows returned                 *)
(*  field: rows of one field read through a mask (see R01)                    *)
EXTENDS Ranges, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1

\* rows returned are logged as a list of runs <<lo,hi>> in the order returned,
\* maximal: consecutive runs never touch in ascending order
SameRows(runs, rs) == runs = MergeRuns(rs)

Fails(t) ==
    CASE t.op = "read" ->
           (IF t.exc # "" THEN {"read-succeeds"} ELSE {})
           \cup (IF t.exc = "" /\ ~SameRows(t.runs, t.rs) THEN {"rows-are-the-requested-ones"} ELSE {})
           \cup (IF t.exc = "" /\ ~t.attrs THEN {"dtype-shape-and-columns"} ELSE {})
      [] t.op = "rows" ->
           IF t.exc # "" THEN {"conversion-succeeds"}
           ELSE (IF t.rs # RangesOfRows(t.rows) THEN {"ranges-of-rows"} ELSE {})
      [] t.op = "remote" ->
           LET ov == \E i, j \in 1..Len(t.rs) : i # j /\ Overlap(t.rs[i], t.rs[j])
           IN (IF ov /\ t.exc = "" THEN {"overlap-refused"} ELSE {})
              \cup (IF ~ov /\ t.exc # "" THEN {"read-succeeds"} ELSE {})
              \cup (IF ~ov /\ t.exc = "" /\ ~SameRows(t.runs, t.rs)
                    THEN {"rows-in-the-requested-order"} ELSE {})
              \cup (IF ~ov /\ t.exc = "" /\ ~(\A i \in 1..Len(t.slices) :
                          /\ t.slices[i][1] < t.slices[i][2]
                          /\ i < Len(t.slices) => t.slices[i][2] < t.slices[i + 1][1])
                    THEN {"slices-sorted-disjoint-nonempty"} ELSE {})
      [] t.op = "field" ->
           (IF t.exc # "" THEN {"read-succeeds"} ELSE {})
           \cup (IF t.exc = "" /\ ~SameRows(t.runs, t.rs) THEN {"rows-are-the-selected-ones"} ELSE {})
           \cup { t.bad[i] : i \in 1..Len(t.bad) }
      [] OTHER -> {"unknown-event"}

Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN
         f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
