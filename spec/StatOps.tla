------------------------------- MODULE StatOps -------------------------------
(* A statistics file as a sequence of lines, and what a reader must offer (T01). *)
(* A line is [k, text, unit, toks]: kind (title/name/unit/comment/names/row/      *)
(* blank), a description, a unit, and the separate texts of names and rows.       *)
(* Column i is described by the i-th "name" line and the unit line below it, is   *)
(* called by the i-th text of the last line of the header, and holds the i-th     *)
(* text of every row.                                                            *)
EXTENDS MetaOps

NoUnitLine == "dimensionless"
Line(k, text, unit, toks) == [k |-> k, text |-> text, unit |-> unit, toks |-> toks]
IsHeader(l) == l.k \notin {"row", "blank"}
Filter(q, P(_)) == SelectSeq(q, P)

\* everything up to the first full stop
RECURSIVE UpToDot(_)
UpToDot(s) == IF s = "" \/ Ch(s, 1) = "." THEN "" ELSE Ch(s, 1) \o UpToDot(SubSeq(s, 2, Len(s)))
Called(s) == LowerCase(Replace(Replace(s, ".", ""), " ", "_"))

IsName(l) == l.k = "name"
IsRow(l) == l.k = "row"
IsNames(l) == l.k = "names"
Positions(ls) == { i \in 1..Len(ls) : ls[i].k = "name" }
Nth(ls, n) == CHOOSE i \in Positions(ls) : Cardinality({ j \in Positions(ls) : j <= i }) = n
UnitOf(ls, i) ==    \* the unit line between this name line and the next, if any
    LET below == { j \in 1..Len(ls) : j > i /\ ls[j].k = "unit" /\ ~ \E p \in Positions(ls) : i < p /\ p < j } IN
    IF below = {} THEN NoUnitLine ELSE ls[CHOOSE j \in below : \A m \in below : m <= j].unit

Columns(ls) ==
    LET rows == SelectSeq(ls, IsRow)
        names == SelectSeq(ls, IsNames)[1].toks IN
    [ n \in 1..Cardinality(Positions(ls)) |->
        LET i == Nth(ls, n) IN
        [name |-> Called(names[n]), desc |-> UpToDot(ls[i].text), unit |-> UnitOf(ls, i),
         vals |-> [r \in 1..Len(rows) |-> rows[r].toks[n]]] ]
=============================================================================
