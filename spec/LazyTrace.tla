------------------------------ MODULE LazyTrace ------------------------------
(* Verdicts on recorded histories of datasets loaded from a changing file.      *)
(* A line: rows of each group, group of each field, steps.  A read step records  *)
(* the decoded content (version on disk, in-place changes, rows), the identity   *)
(* of the object and whether units/attributes are those of the field.            *)
EXTENDS LazyOps, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1

StepFails(t, st, e) ==
    IF e.exc # "" THEN {"no-unexpected-error"}
    ELSE IF e.op # "read" THEN {}
    ELSE IF Cached(st, e) THEN
        (IF e.tok # st.ds[e.d].slot[e.f].tok THEN
            {IF st.ds[e.d].slot[e.f].kind = "user" THEN "assigned-value-is-returned"
             ELSE "later-access-returns-the-same-array"} ELSE {})
        \cup (IF st.ds[e.d].slot[e.f].kind = "disk" /\ e.rows # <<>> /\ (e.ver # ReadVer(st, e) \/ e.muts # ReadMuts(st, e))
              THEN {"datasets-and-fields-are-independent"} ELSE {})
    ELSE (IF e.rows # <<>> /\ (e.ver # st.ver \/ e.muts # 0) THEN {"first-access-reads-the-file"} ELSE {})
         \cup (IF e.rows # st.ds[e.d].sel[t.groupof[e.f]] THEN {"selection-fixed-at-load"} ELSE {})
         \cup (IF ~e.attrs THEN {"attributes-of-the-field"} ELSE {})

RECURSIVE Walk(_, _, _)
Walk(t, st, i) ==
    IF i > Len(t.steps) THEN {}
    ELSE LET e == t.steps[i]
             f == StepFails(t, st, e)
         IN IF f # {} THEN f ELSE Walk(t, Apply(t.allrows, st, e), i + 1)
Fails(t) == Walk(t, Start(Len(t.groupof), t.allrows), 1)

Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN
         f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
