----------------------------- MODULE MaskProtocol ----------------------------
(* The mask as a state machine over calls, with the representation it is kept  *)
(* in.  MaskImpl refines this.                                                  *)
EXTENDS MaskOps
CONSTANT Calls(_)          \* the calls offered in a world
VARIABLES w, st, rep, last \* last: <<call, accepted?>>

Init0(worlds) == w \in worlds /\ st = Everything(w) /\ rep = "range" /\ last = <<>>

RepAfter(c, ok) ==
    CASE c.op = "bool" -> {"bool"}
      [] c.op \in {"ranges", "load"} -> {"range"}
      [] c.op = "property" -> IF ok THEN {"bool"} ELSE {rep, "bool"}
      [] OTHER -> {rep}

Do(c) == LET r == Apply(w, st, c) IN
    /\ st' = r.st /\ last' = <<c, r.ok>>
    /\ rep' \in RepAfter(c, r.ok)
    /\ UNCHANGED w
Next == \E c \in Calls(w) : Do(c)

(* The guarantees, as properties of every step.                                *)
RefusedUnchanged == [][last'[2] = FALSE => st' = st]_<<w, st, rep, last>>
RepNeutral == [][last'[1].op \in {"bool", "ranges", "load"} => st' = st]_<<w, st, rep, last>>
OnlyUnionGrows ==
    [][(~\A s \in Slots(w) : st'.sel[s] \subseteq st.sel[s]) =>
          last'[1].op = "spatial" /\ last'[1].union /\ st.con = "spatial"]_<<w, st, rep, last>>
PropertyOwnGroup ==
    [][last'[1].op = "property" => \A s \in Slots(w) :
          s # SlotOf(w, last'[1].g) => st'.sel[s] = st.sel[s]]_<<w, st, rep, last>>
SharedRows == w.kind = "soap" => Slots(w) = {1}
InRows == \A s \in Slots(w) : st.sel[s] \subseteq SlotRows(w, s)
=============================================================================
