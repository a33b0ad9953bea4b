------------------------------ MODULE NearTrace ------------------------------
(* Verdicts on generated smoothing lengths.  t.x: coordinates (integers), t.L the *)
(* box, t.k neighbours looked for, t.s the speed-up, t.dim, t.h: 10^3 (h gamma)^2 *)
(* in units of the coordinates.  "clusters": t.sizes and t.at: many copies of     *)
(* clusters of particles far apart; t.members[c] the particles of cluster c and    *)
(* t.h of some of them [c, i, h].                                                 *)
EXTENDS NearOps, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Abs(v) == IF v < 0 THEN -v ELSE v
Close(v, want) == Abs(v - want) <= 2 + want \div 2500
Want(x, i, t) == Kth(x, i, t.k, t.L) * Stretch(t.s, t.dim)
Frame(t) == (IF t.comoving # t.want.comoving THEN {"frame-of-lengths"} ELSE {})
            \cup (IF t.e # 1 THEN {"exponent-of-lengths"} ELSE {})
            \cup (IF ~t.unit THEN {"unit-of-lengths"} ELSE {})
Fails(t) ==
    IF t.exc # "" THEN {"makes-lengths"}
    ELSE CASE t.op = "near" ->
           (IF Len(t.h) # Len(t.x) THEN {"a-length-per-particle"}
            ELSE IF \E i \in 1..Len(t.x) : ~Close(t.h[i], Want(t.x, i, t)) THEN {"reaches-the-neighbours"} ELSE {}) \cup Frame(t)
         [] t.op = "clusters" ->
           (IF t.count # t.total THEN {"a-length-per-particle"}
            ELSE IF \E j \in 1..Len(t.h) : ~Close(t.h[j].h, Want(t.members[t.h[j].c], t.h[j].i, t)) THEN {"reaches-the-neighbours"} ELSE {}) \cup Frame(t)
Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
