------------------------------- MODULE MaskOps -------------------------------
(* Abstract semantics of a mask: what is selected, and which calls are         *)
(* accepted.  A world w is [kind, groups], a group [cell, val]: the cell and   *)
(* the (integer) property value of every row.  All groups of a catalogue share *)
(* the same rows: one slot.  State: [sel: slot -> rows, con: last constraint].  *)
EXTENDS Ranges

Rows(w, g) == 0..(Len(w.groups[g].cell) - 1)
Slots(w) == IF w.kind = "soap" THEN {1} ELSE 1..Len(w.groups)
SlotOf(w, g) == IF w.kind = "soap" THEN 1 ELSE g
SlotRows(w, s) == Rows(w, s)
ToSet0(s) == { s[i] : i \in 1..Len(s) }

\* which files can be masked at all: cells do not describe the rows of the others
Maskable(type, files) == type \in {"SOAP", "SOAPSubset"} \/ (type \in {"FullVolume", "VolumeSubset"} /\ files = 1)
Everything(w) == [sel |-> [s \in Slots(w) |-> SlotRows(w, s)], con |-> "none"]

InCells(w, s, cs) == { r \in SlotRows(w, s) : w.groups[s].cell[r + 1] \in cs }
Within(w, g, lo, hi) ==
    { r \in Rows(w, g) : lo < w.groups[g].val[r + 1] /\ w.groups[g].val[r + 1] <= hi }

(* Result of a call: [ok, st].  Refused calls leave the state alone.           *)
Refuse(st) == [ok |-> FALSE, st |-> st]
Accept(st) == [ok |-> TRUE, st |-> st]
Apply(w, st, c) ==
    CASE c.op = "spatial" ->
           LET cs == ToSet0(c.cells) IN
           IF c.bad THEN Refuse(st)
           ELSE IF st.con = "none"
                THEN Accept([sel |-> [s \in Slots(w) |-> InCells(w, s, cs)], con |-> "spatial"])
           ELSE IF st.con = "spatial" /\ c.union
                THEN Accept([sel |-> [s \in Slots(w) |-> st.sel[s] \cup InCells(w, s, cs)],
                             con |-> "spatial"])
           ELSE Refuse(st)
      [] c.op = "property" ->
           IF c.bad THEN Refuse(st)
           ELSE Accept([sel |-> [st.sel EXCEPT ![SlotOf(w, c.g)] =
                                   @ \cap Within(w, c.g, c.lo, c.hi)], con |-> "property"])
      [] c.op = "index" ->
           IF st.con = "none" /\ w.kind = "soap"
           THEN Accept([sel |-> [s \in Slots(w) |-> ToSet0(c.idx)], con |-> "index"])
           ELSE Refuse(st)
      [] c.op \in {"bool", "ranges", "load"} -> Accept(st)
=============================================================================
