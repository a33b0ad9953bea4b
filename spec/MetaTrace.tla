------------------------------ MODULE MetaTrace ------------------------------
(* Verdicts on how a file's groups, fields, columns and header are exposed.      *)
EXTENDS MetaOps, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
S(q) == { q[i] : i \in 1..Len(q) }

FieldFails(t, f, got) ==
    LET g == { x \in S(got) : x.name = Snake(f.name) } IN
    IF g = {} THEN {"every-field-under-its-name"}
    ELSE LET x == CHOOSE y \in g : TRUE IN
         (IF f.columns = <<>> /\ x.id # f.id THEN {"own-dataset"} ELSE {})
         \cup (IF f.columns # <<>> /\ (\/ Len(x.columns) # Len(f.columns)
                                       \/ \E k \in 1..Len(f.columns) : ~ColumnOK(f.columns, k, x.columns[k].name))
               THEN {"columns-under-their-labels"} ELSE {})
         \cup (IF f.columns # <<>> /\ \E k \in 1..Len(x.columns) : x.columns[k].id # f.id + k - 1
               THEN {"own-column"} ELSE {})
         \cup (IF x.dims # f.exps THEN {"dimensions-of-attributes"} ELSE {})
         \cup (IF x.log # UnitLog(f.exps, t.units) THEN {"units-of-attributes"} ELSE {})
         \cup (IF x.a # f.a THEN {"scale-factor-exponent-of-attributes"} ELSE {})
         \cup (IF x.physical # f.physical THEN {"frame-of-attributes"} ELSE {})
         \cup (IF x.convertible # f.convertible THEN {"convertibility-of-attributes"} ELSE {})
         \cup (IF ~x.text THEN {"description-and-compression"} ELSE {})

AttrFails(t, f, got) ==
    LET n == Snake(f.name)
        g == { x \in S(got) : x.name = n } IN
    IF g = {} THEN {"every-group-attribute-under-its-name"}
    ELSE LET x == CHOOSE y \in g : TRUE IN
         (IF x.id # f.id THEN {"own-attribute"} ELSE {})
         \cup (IF x.dims # AttrExps(n) \/ x.log # UnitLog(AttrExps(n), t.units) \/ x.a # AttrA(n)
               THEN {"units-of-group-attributes"} ELSE {})

GroupFails(t, k, g) ==
    LET o == { x \in S(t.offered) : x.name = GroupName(k, g.path) } IN
    IF o = {} THEN {"every-group-under-its-name"}
    ELSE LET x == CHOOSE y \in o : TRUE IN
         UNION { FieldFails(t, g.fields[i], x.fields) : i \in 1..Len(g.fields) }
         \cup UNION { AttrFails(t, g.attrs[i], x.attrs) : i \in 1..Len(g.attrs) }
         \cup (IF { y.name : y \in S(x.fields) } # { Snake(f.name) : f \in S(g.fields) } THEN {"no-other-fields"} ELSE {})

FileFails(t) ==
    LET k == Kind(t.outtype) IN
    IF t.exc # "" THEN {"no-unexpected-error"}
    ELSE IF k = "refused" THEN (IF t.class # "refused" THEN {"unknown-kind-refused"} ELSE {})
    ELSE (IF t.class # k THEN {"metadata-follows-output-type"} ELSE {})
         \cup UNION { GroupFails(t, k, t.groups[i]) : i \in 1..Len(t.groups) }
         \cup (IF { x.name : x \in S(t.offered) } # { GroupName(k, g.path) : g \in S(t.groups) }
               THEN {"no-other-groups"} ELSE {})

\* header items: numbers as odd mantissa and power of two (after conversion to SI), strings as
\* they are; observed under the documented names
HeadFails(t) ==
    IF t.exc # "" THEN {"no-unexpected-error"}
    ELSE UNION { LET sp == HeadSpec(w.attr, w.sub)
                     shift == UnitLog(sp.exps, t.units) \div 4
                     vals == IF w.absent = "" THEN w.vals ELSE Absent(w.attr, w.absent)
                     want == [i \in 1..Len(vals) |->
                                IF vals[i].s # "" \/ vals[i].m = 0 THEN vals[i]
                                ELSE [vals[i] EXCEPT !.e = @ + shift]]
                 IN { "header-" \o w.attr : n \in { x \in sp.names :
                        ~ \E g \in S(t.got) : g.name = x /\ g.vals = want /\ g.a = sp.a } }
                 : w \in S(t.want) }

\* neutrino species: each massive species as often as its degeneracy, then the massless ones
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
RECURSIVE Species(_, _)
Species(m, d) == IF m = <<>> THEN <<>> ELSE Rep(Head(m), Head(d)) \o Species(Tail(m), Tail(d))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
NuFails(t) ==
    LET can == t.whole /\ t.neff \div 100 = Sum(t.deg) + t.nur IN
    IF ~can THEN (IF t.refused THEN {} ELSE {"impossible-neutrinos-refused"})
    ELSE IF t.refused THEN {"possible-neutrinos-accepted"}
    ELSE IF t.masses # Species(t.mnu, t.deg) \o Rep(0, t.nur) THEN {"neutrino-masses"} ELSE {}

Fails(t) == CASE t.op = "file" -> FileFails(t) [] t.op = "head" -> HeadFails(t) [] t.op = "nu" -> NuFails(t)

Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN
         f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
