----------------------------- MODULE FrameTrace -------------------------------
(* Verdicts on recorded histories of conversions.  Every operation is recorded   *)
(* with what all arrays then look like: rows (physical values), frame, exponent, *)
(* convertibility, compression and unit.                                         *)
EXTENDS FrameOps, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1

Obs(o, i) == o.obs[i]
Sel(rows, sel) == [k \in 1..Len(sel) |-> rows[sel[k]]]
Copies == {"copy", "unit", "frame", "construct"}

\* what array d is after a successful operation
Result(S, o) ==
    LET x == S[o.s] y == [x EXCEPT !.rows = Sel(x.rows, o.sel)] IN
    CASE o.op \in {"copy", "view"} -> y
      [] o.op = "unit" -> [y EXCEPT !.u = o.u]
      [] o.op \in {"frame", "construct"} ->
           [y EXCEPT !.fr = IF o.fr = "" THEN x.fr ELSE o.fr, !.u = IF o.u = "" THEN x.u ELSE o.u]
      [] OTHER -> x

Shares(S, o) == o.op = "view" \/ (o.op = "construct" /\ (o.fr = "" \/ o.fr = S[o.s].fr))
Allowed(S, o) ==
    CASE o.op \in {"frame", "construct", "inframe", "value"} -> o.fr = "" \/ CanFrame(S[o.s], o.fr)
      [] o.op = "badunit" -> FALSE
      [] OTHER -> TRUE

After(S, o) ==
    CASE o.op = "new" -> [S EXCEPT ![o.d] = [live |-> TRUE, ok |-> TRUE, cls |-> o.n, rows |-> o.x.rows, fr |-> o.x.fr,
                             e |-> o.x.e, vt |-> o.x.vt, comp |-> o.x.comp, u |-> o.x.u]]
      [] ~o.ok -> IF o.op = "inframe"   \* the units may have been converted before it was refused
                  THEN [i \in DOMAIN S |-> IF i = o.s THEN [S[i] EXCEPT !.u = Obs(o, i).u]
                          ELSE IF S[i].live /\ S[i].cls = S[o.s].cls THEN [S[i] EXCEPT !.ok = (@ /\ o.u = "")] ELSE S[i]]
                  ELSE S
      [] o.op \in {"copy", "view", "unit", "frame", "construct"} ->
           [S EXCEPT ![o.d] = [Result(S, o) EXCEPT !.cls = IF Shares(S, o) THEN S[o.s].cls ELSE o.n]]
      [] o.op \in {"inframe", "inunit"} ->
           [i \in DOMAIN S |->
              IF i = o.s THEN [S[i] EXCEPT !.fr = IF o.fr = "" THEN S[i].fr ELSE o.fr, !.u = IF o.u = "" THEN S[i].u ELSE o.u]
              ELSE IF S[i].live /\ S[i].cls = S[o.s].cls THEN [S[i] EXCEPT !.ok = FALSE] ELSE S[i]]
      [] OTHER -> S

Looks(x, ob) == x.rows = ob.rows
Attrs(x, ob) == x.fr = ob.fr /\ x.e = ob.e /\ x.vt = ob.vt /\ x.comp = ob.comp
OpFails(S, o) ==
    LET T == After(S, o) t == IF o.op \in {"inframe", "inunit"} THEN o.s ELSE o.d IN
    IF o.op # "new" /\ ~S[o.s].ok THEN {}
    ELSE
    (IF o.op # "new" /\ o.ok /\ ~Allowed(S, o) THEN {"impossible-conversion-refused"} ELSE {})
    \cup (IF o.op # "new" /\ ~o.ok /\ Allowed(S, o) THEN {"possible-conversion-accepted"} ELSE {})
    \cup (IF \E i \in DOMAIN T : T[i].live /\ T[i].ok /\ i # t /\ ~(Looks(T[i], Obs(o, i)) /\ Attrs(T[i], Obs(o, i)) /\ T[i].u = Obs(o, i).u)
          THEN {"others-unchanged"} ELSE {})
    \cup (IF t > 0 /\ T[t].live /\ T[t].ok THEN
            (IF ~Looks(T[t], Obs(o, t)) THEN {"same-physical-quantity"} ELSE {})
            \cup (IF ~Attrs(T[t], Obs(o, t)) THEN {"attributes-kept"} ELSE {})
            \cup (IF T[t].u # Obs(o, t).u THEN {"unit-as-requested"} ELSE {})
          ELSE {})
    \cup (IF o.op = "value" /\ o.ok /\ o.vals # S[o.s].rows THEN {"same-physical-quantity"} ELSE {})
    \cup (IF o.op = "compat" /\ o.vals # <<IF S[o.s].fr = "c" \/ o.unity THEN 1 ELSE 0,
                                          IF S[o.s].fr # "c" \/ o.unity THEN 1 ELSE 0>>
          THEN {"frame-flag-tells"} ELSE {})

Nothing == [live |-> FALSE, ok |-> TRUE, cls |-> 0, rows |-> <<>>, fr |-> "n", e |-> 0, vt |-> FALSE, comp |-> "", u |-> ""]
RECURSIVE Fold(_, _, _)
Fold(t, S, i) ==
    IF i > Len(t.ops) THEN {}
    ELSE LET f == OpFails(S, t.ops[i]) IN
         IF f # {} THEN f ELSE Fold(t, After(S, t.ops[i]), i + 1)
Fails(t) == IF t.exc # "" THEN {"no-unexpected-error"} ELSE Fold(t, [i \in 1..t.n |-> Nothing], 1)
Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN
         f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
