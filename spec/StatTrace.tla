------------------------------ MODULE StatTrace ------------------------------
(* Verdicts on statistics files read by the implementation: t.lines is the file, *)
(* t.got what was offered.                                                       *)
EXTENDS StatOps, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Fails(t) ==
    IF t.exc # "" THEN {"file-can-be-read"}
    ELSE LET want == Columns(t.lines)
             D == 1..Len(want)
             G(n) == { i \in 1..Len(t.got) : t.got[i].name = want[n].name } IN
    (IF \E n \in D : G(n) = {} THEN {"every-column-under-its-name"} ELSE {})
    \cup (IF t.listed # [n \in D |-> want[n].name] THEN {"columns-listed-in-order"} ELSE {})
    \cup UNION { LET g == t.got[CHOOSE i \in G(n) : TRUE] IN
                 (IF g.vals # want[n].vals THEN {"every-value-in-order"} ELSE {})
                 \cup (IF g.unit # want[n].unit THEN {"stated-unit"} ELSE {})
                 \cup (IF g.desc # want[n].desc THEN {"stated-description"} ELSE {})
               : n \in { m \in D : G(m) # {} } }
Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
