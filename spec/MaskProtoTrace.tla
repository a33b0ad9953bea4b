---------------------------- MODULE MaskProtoTrace ---------------------------
(* Verdicts on recorded histories of one mask: the calls made, whether each    *)
(* was refused, and the selection (and size) seen after each.  Abstract state  *)
(* is advanced by MaskOps!Apply; a step that disagrees names its clause.       *)
EXTENDS MaskOps, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1

StepFails(w, r, e) ==
    (IF e.ok # r.ok THEN {IF r.ok THEN "accepted-when-allowed" ELSE "refused-when-not-allowed"} ELSE {})
    \cup (IF \E s \in Slots(w) : e.sel[s] # SetToAscSeq(r.st.sel[s])
          THEN { CASE ~r.ok -> "refused-call-changes-nothing"
                   [] e.call.op \in {"bool", "ranges", "load"} -> "representation-change-is-neutral"
                   [] OTHER -> "selection-after-" \o e.call.op } ELSE {})
    \cup (IF e.range /\ \E s \in Slots(w) : e.size[s] # Cardinality(r.st.sel[s])
          THEN {"size-of-range-mask"} ELSE {})
    \cup (IF e.call.op = "load" /\ \E g \in 1..Len(w.groups) :
                e.rows[g] # SetToAscSeq(r.st.sel[SlotOf(w, g)])
          THEN {"rows-read-are-the-selection"} ELSE {})

\* stop at the first step with a disagreement
RECURSIVE Walk(_, _, _, _)
Walk(w, st, es, i) ==
    IF i > Len(es) THEN {}
    ELSE LET r == Apply(w, st, es[i].call)
             f == StepFails(w, r, es[i])
         IN IF f # {} THEN f ELSE Walk(w, r.st, es, i + 1)

FailsOpen(t) ==
    (IF t.ok # Maskable(t.type, t.files) THEN {IF t.ok THEN "no-mask-where-cells-say-nothing" ELSE "file-can-be-masked"} ELSE {})
    \cup (IF t.ok /\ t.rows # t.size THEN {"everything-selected-at-first"} ELSE {})
    \cup (IF ~t.readable THEN {"file-as-usable-as-before"} ELSE {})
Fails(t) == IF t.op = "open" THEN FailsOpen(t) ELSE
            (IF t.exc # "" THEN {"no-unexpected-error"} ELSE {})
            \cup Walk(t.w, Everything(t.w), t.steps, 1)

Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN
         f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
