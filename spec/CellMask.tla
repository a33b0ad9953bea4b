------------------------------- MODULE CellMask ------------------------------
(* Selecting one cell against a region along one axis, step by step as the    *)
(* implementation does it: bounds check, whole-box shortcut, unwrapping of    *)
(* inverted bounds, overlap with three periodic copies.                       *)
EXTENDS Cells, TLC, Json, FiniteSets

CONSTANTS MaxCells, Size, Drift, Emit

VARIABLES nc, cell, mn, mx, l, u,    \* inputs
          lo, hi,                    \* bounds being normalised
          pc, sel
vars == <<nc, cell, mn, mx, l, u, lo, hi, pc, sel>>
Box == nc * Size

Init ==
    /\ nc \in 1..MaxCells /\ cell \in 0..(nc - 1)
    /\ \E a, b \in 0..Drift : mn = cell * Size - a /\ mx = (cell + 1) * Size + b
    /\ l \in (-(Box \div 2) - 2)..((3 * Box) \div 2 + 2)
    /\ u \in (-(Box \div 2) - 2)..((3 * Box) \div 2 + 2)
    /\ lo = l /\ hi = u /\ pc = "check" /\ sel = FALSE

Check == /\ pc = "check"
         /\ pc' = IF RefusedRow(<<l, u>>, Box) THEN "refused"
                  ELSE IF Everything(l, u, Box) THEN "all" ELSE "unwrap"
         /\ UNCHANGED <<nc, cell, mn, mx, l, u, lo, hi, sel>>
KeepAll == /\ pc = "all" /\ sel' = TRUE /\ pc' = "done"
           /\ UNCHANGED <<nc, cell, mn, mx, l, u, lo, hi>>
Unwrap == /\ pc = "unwrap" /\ pc' = "overlap"
          /\ lo' = IF u < l /\ 2 * l > Box THEN l - Box ELSE l
          /\ hi' = IF u < l /\ ~(2 * l > Box) /\ 2 * u < Box THEN u + Box ELSE u
          /\ UNCHANGED <<nc, cell, mn, mx, l, u, sel>>
Touching == /\ pc = "overlap" /\ pc' = "done"
            /\ sel' = \E k \in -1..1 : mx + k * Box > lo /\ mn + k * Box < hi
            /\ UNCHANGED <<nc, cell, mn, mx, l, u, lo, hi>>
Next == Check \/ KeepAll \/ Unwrap \/ Touching
Spec == Init /\ [][Next]_vars

(* particles of the cell sit anywhere within its recorded extent *)
Parts == mn..mx
Wanted == \E p \in Parts : InRow(p, <<l, u>>, Box)
Complete == (pc = "done" /\ Wanted) => sel
Precise == (pc = "done" /\ sel) => TouchRow(mn, mx, <<l, u>>, Box)
UnwrapsOk == pc = "overlap" => lo <= hi

(* the file of the replay holds particles at both ends and the middle *)
Some == {mn, mx, cell * Size + Size \div 2}
EmitCase == (Emit /\ pc \in {"done", "refused"}) => PrintT("VT " \o ToJson(
    [nc |-> nc, cell |-> cell, a |-> cell * Size - mn, b |-> mx - (cell + 1) * Size, l |-> l, u |-> u,
     refused |-> pc = "refused",
     must |-> \E p \in Some : InRow(p, <<l, u>>, Box),
     may |-> TouchRow(mn, mx, <<l, u>>, Box)]))
=============================================================================
