----------------------------- MODULE LazyFields ------------------------------
(* All histories of loads, mask calls, reads, assignments, deletions, in-place   *)
(* changes and rewrites of the file, in an implementation-shaped model: property *)
(* slots (`_name` attributes) and getters holding a reference to the mask array  *)
(* of the moment of the load (an index into a heap of arrays, so that a mask     *)
(* call changing an array in place would be seen).  Checked: the returned        *)
(* content is what LazyOps prescribes.                                           *)
EXTENDS LazyOps, TLC, Json

CONSTANTS NF, NR, MaxDs, MaxLen, MaxVer, MaxMut, InPlace, Emit

Rows == 0..(NR - 1)
VARIABLES abs, heap, mref, caps, slots, ntok, last, hist
vars == <<abs, heap, mref, caps, slots, ntok, last, hist>>

Init ==
    /\ abs = Start(NF, <<Rows>>)
    /\ heap = <<Rows>>          \* arrays ever created by the mask
    /\ mref = 1                  \* the mask's current array
    /\ caps = <<>>               \* per dataset: captured array (0: no mask)
    /\ slots = <<>>              \* per dataset and field: `_name`
    /\ ntok = 1
    /\ last = [ok |-> TRUE]
    /\ hist = <<>>

Log(e) == hist' = IF Emit THEN Append(hist, e) ELSE hist
Len0 == Len(hist) < MaxLen

Rewrite ==
    /\ abs.ver < MaxVer
    /\ LET e == [op |-> "rewrite"] IN abs' = Apply(<<Rows>>, abs, e) /\ Log(e)
    /\ last' = [ok |-> TRUE]
    /\ UNCHANGED <<heap, mref, caps, slots, ntok>>

MaskCall ==
    \E keep \in SUBSET heap[mref] :
        /\ keep # heap[mref]
        /\ IF InPlace THEN heap' = [heap EXCEPT ![mref] = keep] /\ UNCHANGED mref
           ELSE heap' = Append(heap, keep) /\ mref' = Len(heap) + 1
        /\ LET e == [op |-> "mask", sel |-> <<keep>>] IN abs' = Apply(<<Rows>>, abs, e) /\ Log(e)
        /\ last' = [ok |-> TRUE]
        /\ UNCHANGED <<caps, slots, ntok>>

Load ==
    \E m \in BOOLEAN :
        /\ Len(caps) < MaxDs
        /\ caps' = Append(caps, IF m THEN mref ELSE 0)
        /\ slots' = Append(slots, [f \in 1..NF |-> NONE])
        /\ LET e == [op |-> "load", masked |-> m] IN abs' = Apply(<<Rows>>, abs, e) /\ Log(e)
        /\ last' = [ok |-> TRUE]
        /\ UNCHANGED <<heap, mref, ntok>>

Read ==
    \E d \in 1..Len(caps), f \in 1..NF :
        LET e == [op |-> "read", d |-> d, f |-> f, tok |-> ntok]
            fresh == [kind |-> "disk", ver |-> abs.ver, muts |-> 0, tok |-> ntok,
                      rows |-> IF caps[d] = 0 THEN Rows ELSE heap[caps[d]]]
            got == IF slots[d][f] # NONE THEN slots[d][f] ELSE fresh
        IN /\ slots' = [slots EXCEPT ![d][f] = got]
           /\ ntok' = ntok + 1
           /\ abs' = Apply(<<Rows>>, abs, e)
           /\ last' = [ok |-> /\ got.ver = ReadVer(abs, e) /\ got.muts = ReadMuts(abs, e)
                              /\ Cached(abs, e) => got.tok = abs.ds[d].slot[f].tok
                              /\ got.kind = "disk" => got.rows = abs.ds[d].sel[1]]
           /\ Log([op |-> "read", d |-> d, f |-> f])
           /\ UNCHANGED <<heap, mref, caps>>

Assign ==
    \E d \in 1..Len(caps), f \in 1..NF :
        LET e == [op |-> "assign", d |-> d, f |-> f, tok |-> ntok]
        IN /\ slots' = [slots EXCEPT ![d][f] = [kind |-> "user", ver |-> 0, muts |-> 0, tok |-> ntok, rows |-> {}]]
           /\ ntok' = ntok + 1
           /\ abs' = Apply(<<Rows>>, abs, e)
           /\ last' = [ok |-> TRUE]
           /\ Log([op |-> "assign", d |-> d, f |-> f])
           /\ UNCHANGED <<heap, mref, caps>>

Delete ==
    \E d \in 1..Len(caps), f \in 1..NF :
        LET e == [op |-> "delete", d |-> d, f |-> f]
        IN /\ slots' = [slots EXCEPT ![d][f] = NONE]
           /\ abs' = Apply(<<Rows>>, abs, e)
           /\ last' = [ok |-> TRUE]
           /\ Log(e)
           /\ UNCHANGED <<heap, mref, caps, ntok>>

Mutate ==   \* the user changes an array they were given, in place
    \E d \in 1..Len(caps), f \in 1..NF :
        /\ slots[d][f].kind = "disk" /\ slots[d][f].muts < MaxMut
        /\ LET e == [op |-> "mutate", d |-> d, f |-> f]
           IN /\ slots' = [slots EXCEPT ![d][f].muts = @ + 1]
              /\ abs' = Apply(<<Rows>>, abs, e)
              /\ last' = [ok |-> TRUE]
              /\ Log(e)
              /\ UNCHANGED <<heap, mref, caps, ntok>>

Next == Len0 /\ (Rewrite \/ MaskCall \/ Load \/ Read \/ Assign \/ Delete \/ Mutate)
Spec == Init /\ [][Next]_vars

ReadsRight == last.ok
SlotsAgree == \A d \in 1..Len(slots) : \A f \in 1..NF :
    /\ slots[d][f].kind = abs.ds[d].slot[f].kind
    /\ slots[d][f].tok = abs.ds[d].slot[f].tok
    /\ slots[d][f].muts = abs.ds[d].slot[f].muts
\* identities only matter up to renaming: canonical order of tokens in use
Canon == LET toks == { slots[d][f].tok : d \in 1..Len(slots), f \in 1..NF }
             rank(t) == Cardinality({ u \in toks : u <= t })
         IN [d \in 1..Len(slots) |-> [f \in 1..NF |-> [slots[d][f] EXCEPT !.tok = rank(@)]]]
View == <<abs.ver, abs.msel, [d \in 1..Len(caps) |-> abs.ds[d].sel],
          [d \in 1..Len(caps) |-> IF caps[d] = 0 THEN {} ELSE heap[caps[d]]],
          [d \in 1..Len(caps) |-> caps[d] = mref], heap[mref], Canon, last, hist>>
Bound == ntok <= 12 /\ Len(heap) <= 6
EmitCase == (Emit /\ Len(hist) = MaxLen) => PrintT("VT " \o ToJson([steps |-> hist]))
=============================================================================
