-------------------------------- MODULE Stat ---------------------------------
(* The reader of statistics files as a state machine over the lines of the file: *)
(* it keeps the columns described so far, then the names, then the rows.  Every  *)
(* file of the bounds is read, and what is offered at the end must be what the   *)
(* file states (Columns).  Broken readers are refuted by the same invariant:     *)
(*   "shared"    units kept by description                                       *)
(*   "firsttype" the first row decides which texts a column can hold             *)
(*   "blankrow"  a blank line counts as a row                                    *)
(*   "needsrow"  a file without rows cannot be read                              *)
EXTENDS StatOps, TLC, Json
CONSTANTS MaxCols, MaxRows, Variant, Emit

Descs == {"Mass", "Time. Since start"}
Units == {"", "dimensionless", "u1", "u2"}      \* "" : no unit line
Texts == {"1", "2.5", "nan"}
Labels == <<"Step", "Total Mass", "z">>

VARIABLES ls, at, cols, names, rows, failed
vars == <<ls, at, cols, names, rows, failed>>

ColLines(c, i) ==
    <<Line("name", c[i].d, "", <<>>)>> \o (IF c[i].u = "" THEN <<>> ELSE <<Line("unit", "", c[i].u, <<>>)>>)
RECURSIVE AllCols(_, _)
AllCols(c, i) == IF i > Len(c) THEN <<>> ELSE ColLines(c, i) \o AllCols(c, i + 1)

Files ==
    UNION { { <<Line("comment", "Global statistics", "", <<>>)>> \o AllCols(c, 1)
                \o <<Line("comment", "", "", <<>>), Line("names", "", "", SubSeq(Labels, 1, n))>>
                \o [ i \in 1..Len(b) |-> IF b[i] = 0 THEN Line("blank", "", "", <<>>)
                                         ELSE Line("row", "", "", v[i]) ]
              : c \in [1..n -> [d : Descs, u : Units]],
                v \in [1..m -> [1..n -> Texts]],
                b \in { q \in [1..m -> {0, 1}] : \A i \in 1..m : q[i] = 0 => i = m } }
          : n \in 1..MaxCols, m \in 0..MaxRows }

Init == ls \in Files /\ at = 1 /\ cols = <<>> /\ names = <<>> /\ rows = <<>> /\ failed = FALSE

Here == ls[at]
Step(k) == at <= Len(ls) /\ Here.k = k /\ at' = at + 1 /\ UNCHANGED <<ls, failed>>
Comment == Step("comment") /\ UNCHANGED <<cols, names, rows>>
Name == Step("name") /\ cols' = Append(cols, [desc |-> UpToDot(Here.text), unit |-> NoUnitLine]) /\ UNCHANGED <<names, rows>>
Unit ==
    /\ Step("unit")
    /\ cols' = [ i \in 1..Len(cols) |->
                   IF i = Len(cols) \/ (Variant = "shared" /\ cols[i].desc = cols[Len(cols)].desc)
                   THEN [cols[i] EXCEPT !.unit = Here.unit] ELSE cols[i] ]
    /\ UNCHANGED <<names, rows>>
Names == Step("names") /\ names' = Here.toks /\ UNCHANGED <<cols, rows>>
Fits(first, t) == first # "1" \/ t = "1"
Row ==
    /\ at <= Len(ls) /\ Here.k = "row"
    /\ at' = at + 1
    /\ failed' = (failed \/ (Variant = "firsttype" /\ rows # <<>>
                              /\ \E i \in 1..Len(names) : ~Fits(rows[1][i], Here.toks[i]))
                         \/ (Variant = "firsttype" /\ \E i \in 1..Len(names) : Here.toks[i] = "nan" /\ rows = <<>>))
    /\ rows' = Append(rows, Here.toks)
    /\ UNCHANGED <<ls, cols, names>>
Blank == Step("blank") /\ rows' = (IF Variant = "blankrow" THEN Append(rows, [i \in 1..Len(names) |-> "0"]) ELSE rows)
         /\ UNCHANGED <<cols, names>>
Finish ==
    /\ at = Len(ls) + 1 /\ at' = at + 1
    /\ failed' = (failed \/ (Variant = "needsrow" /\ rows = <<>>))
    /\ UNCHANGED <<ls, cols, names, rows>>
Next == Comment \/ Name \/ Unit \/ Names \/ Row \/ Blank \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Offered == [ n \in 1..Len(cols) |->
               [name |-> Called(names[n]), desc |-> cols[n].desc, unit |-> cols[n].unit,
                vals |-> [r \in 1..Len(rows) |-> rows[r][n]]] ]
Over == at > Len(ls) + 1
Correct == Over => ~failed /\ Offered = Columns(ls)
\* what has been read is always a prefix of the answer
Progress == Len(cols) <= Cardinality(Positions(ls)) /\ \A n \in 1..Len(cols) : cols[n].desc = Columns(ls)[n].desc
Reads == <>Over
EmitCase == (Emit /\ at = 1) => PrintT("VT " \o ToJson([lines |-> ls]))
=============================================================================
