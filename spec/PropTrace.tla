------------------------------ MODULE PropTrace ------------------------------
(* Verdicts on recorded property constraints: one line is one mask, with the    *)
(* constraints applied in turn and the rows read back per group at the end.     *)
EXTENDS PropOps, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1

\* rows of group g kept by all accepted constraints on it
Kept(t, g) == { r \in 1..t.n[g] : \A i \in 1..Len(t.calls) :
    LET c == t.calls[i] IN
      (t.shared \/ c.g = g) /\ ~c.bad =>
         LET f == t.fields[c.f] IN Keep(f, t.k, t.vals[c.g][c.f][r], c.lo, c.hi) }

Fails(t) ==
    IF t.exc # "" THEN {"no-unexpected-error"}
    ELSE (IF \E i \in 1..Len(t.calls) : t.calls[i].bad /\ t.calls[i].ok
          THEN {"incompatible-bounds-refused"} ELSE {})
      \cup (IF \E i \in 1..Len(t.calls) : ~t.calls[i].bad /\ ~t.calls[i].ok
          THEN {"compatible-bounds-accepted"} ELSE {})
      \cup UNION { LET got == { t.rows[g][i] + 1 : i \in 1..Len(t.rows[g]) } IN
                   (IF \E r \in got : r \notin Kept(t, g) THEN {"only-rows-inside-the-bounds"} ELSE {})
                   \cup (IF \E r \in Kept(t, g) : r \notin got THEN {"every-row-inside-the-bounds"} ELSE {})
                   : g \in 1..Len(t.n) }
Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN
         f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
