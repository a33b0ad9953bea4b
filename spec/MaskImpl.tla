------------------------------- MODULE MaskImpl ------------------------------
(* The mask as it is kept: a cell mask, and per slot either a list of ranges   *)
(* with a size or a boolean array, converted back and forth by the calls.      *)
(* Checked to refine MaskProtocol; its behaviours are emitted for replay.      *)
EXTENDS MaskOps, TLC, Json

CONSTANTS Depth, Emit, Kinds

VARIABLES w, cellmask, mask, size, rangemode, constrained, last, hist
vars == <<w, cellmask, mask, size, rangemode, constrained, last, hist>>

Cells == 0..2
\* file order of rows: cell by cell in storage order <<1, 0, 2>>
Disk == <<1, 0, 2>>
Worlds == { x \in {
   [kind |-> "snap", groups |-> << [cell |-> <<1, 1, 0, 2>>, val |-> <<1, 2, 1, 3>>],
                                   [cell |-> <<1, 2, 2>>, val |-> <<2, 1, 2>>] >>],
   [kind |-> "soap", groups |-> << [cell |-> <<1, 0, 0, 2>>, val |-> <<2, 1, 3, 2>>],
                                   [cell |-> <<1, 0, 0, 2>>, val |-> <<1, 1, 2, 2>>] >>] }
   : x.kind \in Kinds }
Regions == { <<0>>, <<1, 2>>, <<2>> }
CallsOf(x) ==
    [op : {"spatial"}, cells : Regions, union : BOOLEAN, bad : {FALSE}]
    \cup [op : {"spatial"}, cells : {<<0>>}, union : {TRUE}, bad : {TRUE}]
    \cup [op : {"property"}, g : {1, 2}, lo : {0, 1}, hi : {2}, bad : {FALSE}]
    \cup [op : {"property"}, g : {1}, lo : {0}, hi : {1}, bad : {TRUE}]
    \cup [op : {"index"}, idx : {<<2, 0>>, <<1>>, <<>>}]
    \cup [op : {"bool", "ranges", "load"}]

Count(x, s, c) == Cardinality(InCells(x, s, {c}))
Offset(x, s, c) ==
    LET pos == CHOOSE i \in 1..3 : Disk[i] = c
    IN FoldLeft(LAMBDA a, i : IF i < pos THEN a + Count(x, s, Disk[i]) ELSE a, 0, <<1, 2, 3>>)
\* ranges of the cells of a cell mask, in storage order (zero-length ones included)
CellRanges(x, s, cm) ==
    FoldLeft(LAMBDA a, i : IF Disk[i] \in cm[s]
        THEN Append(a, <<Offset(x, s, Disk[i]), Offset(x, s, Disk[i]) + Count(x, s, Disk[i])>>)
        ELSE a, <<>>, <<1, 2, 3>>)
BoolOfRanges(rs) == ToSet0(Flatten(rs))
AsBool(m, rm) == [s \in DOMAIN m |-> IF rm THEN BoolOfRanges(m[s]) ELSE m[s]]

NoMask == [s \in 1..2 |-> <<>>]
Init ==
    /\ w \in Worlds
    /\ cellmask = [s \in Slots(w) |-> Cells]
    /\ mask = [s \in Slots(w) |-> CellRanges(w, s, [t \in Slots(w) |-> Cells])]
    /\ size = [s \in Slots(w) |-> Cardinality(SlotRows(w, s))]
    /\ rangemode = TRUE /\ constrained = "none" /\ last = <<>> /\ hist = <<>>

SetCells(cm) ==
    /\ cellmask' = cm
    /\ IF rangemode
       THEN /\ mask' = [s \in Slots(w) |-> CellRanges(w, s, cm)]
            /\ size' = [s \in Slots(w) |-> SumLen(CellRanges(w, s, cm))]
       ELSE /\ mask' = [s \in Slots(w) |-> BoolOfRanges(CellRanges(w, s, cm))]
            /\ UNCHANGED size
    /\ UNCHANGED rangemode

Spatial(c) ==
    /\ c.op = "spatial"
    /\ IF ~c.bad /\ constrained = "none"
       THEN /\ SetCells([s \in Slots(w) |-> ToSet0(c.cells)])
            /\ constrained' = "spatial" /\ last' = <<c, TRUE>>
       ELSE IF ~c.bad /\ constrained = "spatial" /\ c.union
       THEN /\ SetCells([s \in Slots(w) |-> cellmask[s] \cup ToSet0(c.cells)])
            /\ constrained' = "spatial" /\ last' = <<c, TRUE>>
       ELSE /\ last' = <<c, FALSE>>
            /\ UNCHANGED <<cellmask, mask, size, rangemode, constrained>>
    /\ UNCHANGED w

Property(c) ==
    /\ c.op = "property"
    /\ rangemode' = FALSE
    /\ LET b == AsBool(mask, rangemode) IN
       IF c.bad THEN /\ mask' = b /\ last' = <<c, FALSE>> /\ UNCHANGED constrained
       ELSE /\ mask' = [b EXCEPT ![SlotOf(w, c.g)] = @ \cap Within(w, c.g, c.lo, c.hi)]
            /\ constrained' = "property" /\ last' = <<c, TRUE>>
    /\ UNCHANGED <<w, cellmask, size>>

Index(c) ==
    /\ c.op = "index"
    /\ IF constrained = "none" /\ w.kind = "soap"
       THEN LET rows == SetToAscSeq(ToSet0(c.idx)) IN
            /\ IF rangemode
               THEN /\ mask' = [s \in Slots(w) |-> RangesOfRows(rows)]
                    /\ size' = [s \in Slots(w) |-> Len(c.idx)]
               ELSE mask' = [s \in Slots(w) |-> mask[s] \cap ToSet0(rows)] /\ UNCHANGED size
            /\ constrained' = "index" /\ last' = <<c, TRUE>>
       ELSE last' = <<c, FALSE>> /\ UNCHANGED <<mask, size, constrained>>
    /\ UNCHANGED <<w, cellmask, rangemode>>

ToBool(c) ==
    /\ c.op = "bool" /\ rangemode' = FALSE /\ mask' = AsBool(mask, rangemode)
    /\ last' = <<c, TRUE>> /\ UNCHANGED <<w, cellmask, size, constrained>>
ToRanges(c) ==
    /\ c.op \in {"ranges", "load"} /\ rangemode' = TRUE
    /\ IF rangemode THEN UNCHANGED <<mask, size>>
       ELSE /\ mask' = [s \in Slots(w) |-> RangesOfRows(SetToAscSeq(mask[s]))]
            /\ size' = [s \in Slots(w) |-> Cardinality(mask[s])]
    /\ last' = <<c, TRUE>> /\ UNCHANGED <<w, cellmask, constrained>>

View == AsBool(mask, rangemode)
Next ==
    /\ Len(hist) < Depth
    /\ \E c \in CallsOf(w) :
         /\ \/ Spatial(c) \/ Property(c) \/ Index(c) \/ ToBool(c) \/ ToRanges(c)
         /\ hist' = IF Emit
               THEN Append(hist, [call |-> c, ok |-> last'[2], range |-> rangemode',
                                  sel |-> [s \in Slots(w) |-> SetToAscSeq(AsBool(mask', rangemode')[s])]])
               ELSE hist
Spec == Init /\ [][Next]_vars

A == INSTANCE MaskProtocol WITH st <- [sel |-> View, con |-> constrained],
        rep <- IF rangemode THEN "range" ELSE "bool", Calls <- CallsOf
AbsSpec == A!Init0(Worlds) /\ [][A!Next]_<<w, [sel |-> View, con |-> constrained], rangemode, last>>
P1 == A!RefusedUnchanged
P2 == A!RepNeutral
P3 == A!OnlyUnionGrows
P4 == A!PropertyOwnGroup
InRows == A!InRows
\* the reported size of a range mask is the number of rows selected
SizeRight == rangemode => \A s \in Slots(w) : size[s] = Cardinality(View[s]) /\ size[s] = SumLen(mask[s])

EmitCase == (Emit /\ Len(hist) = Depth) => PrintT("VT " \o ToJson([kind |-> w.kind, groups |-> w.groups, hist |-> hist]))
=============================================================================
