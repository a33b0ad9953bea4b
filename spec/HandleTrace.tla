----------------------------- MODULE HandleTrace -----------------------------
(* Verdicts on recorded sessions: after each call, the number of files left open *)
(* by the library, whether the user's handle is still open, how many times the   *)
(* file was opened by the call, and whether it worked.                            *)
EXTENDS HandleOps, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1

StepFails(st, n, e) ==
    (IF e.left # 0 THEN {"no-handle-left-open"} ELSE {})
    \cup (IF e.uopen # n.uopen THEN {"user-handle-belongs-to-user"} ELSE {})
    \cup (IF e.opens > 0 /\ ~MayOpen(st, e) THEN
            {IF NeedsFile(st, e) THEN "open-handle-is-used" ELSE "opened-only-when-needed"} ELSE {})
    \cup (IF ~e.fail /\ ~e.worked THEN {"reading-works-after-handle-closed"} ELSE {})

RECURSIVE Walk(_, _, _)
Walk(st, es, i) ==
    IF i > Len(es) THEN {}
    ELSE LET n == Apply(st, es[i])
             f == StepFails(st, n, es[i])
         IN IF f # {} THEN f ELSE Walk(n, es, i + 1)
Fails(t) == Walk(Start, t.steps, 1)
Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN
         f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
