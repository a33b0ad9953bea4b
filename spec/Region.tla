------------------------------- MODULE Region --------------------------------
(* From a particle in a periodic box to the pixels of an image of a region, the  *)
(* way the front ends do it: wrap into the box, leave out what is not in the     *)
(* slab, measure from the corner of the region, wrap again, and visit the copies *)
(* that can be in the region.  Quarter pixels; coordinates are odd, so nothing   *)
(* is on an edge.  Rotated particles are not wrapped: the box is not periodic.   *)
(* Invariant: the pixels hit are those that the definition of an image gives.    *)
(* Refuted: "square" image not cut to the region, "corner" the corner wrapped    *)
(* with the region, "and" slab not seen to wrap, "slab" slab compared before     *)
(* wrapping, "one" only one copy, "turn" rotated about the origin.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Boxes, Spans, Lows, Variant, Emit
VARIABLES box, x, z, lo, len, long, zlo, zhi, turned, c, at, zat, shift, hits, stage
vars == <<box, x, z, lo, len, long, zlo, zhi, turned, c, at, zat, shift, hits, stage>>
Pixel(v) == v \div 4
Up(v, y) == (v + y - 1) \div y
Pixels == Up(len, 4)                     \* pixels of the region on this axis
Square == Up(long, 4)                    \* of the image that the backend makes
Init ==
    /\ box \in Boxes /\ x \in { 2 * k + 1 : k \in -4..8 } /\ z \in {1, 5, 11}
    /\ lo \in { l - 6 : l \in Lows } /\ len \in Spans /\ long \in { s \in Spans : s >= len /\ s % 4 = 0 }
    /\ zlo \in {-2, 0, 4} /\ zhi \in { h \in {2, 6, 10, 14} : box = 0 \/ h - zlo <= box } /\ zhi > zlo
    /\ turned \in BOOLEAN /\ (turned => box = 0) /\ c \in (IF turned THEN {0, 4, 8} ELSE {0})
    /\ at = x /\ zat = z /\ shift = 0 /\ hits = {} /\ stage = "start"

Place ==     \* rotate by half a turn, or wrap
    /\ stage = "start"
    /\ at' = IF turned THEN (IF Variant = "turn" THEN -at ELSE 2 * c - at) ELSE IF box = 0 THEN at ELSE at % box
    /\ zat' = IF box = 0 \/ Variant = "slab" THEN zat ELSE zat % box
    /\ stage' = "slab"
    /\ UNCHANGED <<box, x, z, lo, len, long, zlo, zhi, turned, c, shift, hits>>
InSlab ==
    IF box = 0 THEN zlo <= zat /\ zat <= zhi
    ELSE LET l == zlo % box  h == zhi % box IN
         IF h <= l /\ Variant # "and" THEN zat <= h \/ zat >= l ELSE l <= zat /\ zat <= h
Slab ==
    /\ stage = "slab"
    /\ stage' = IF InSlab THEN "corner" ELSE "end"
    /\ UNCHANGED <<box, x, z, lo, len, long, zlo, zhi, turned, c, at, zat, shift, hits>>
Corner ==
    /\ stage = "corner"
    /\ at' = LET corner == IF Variant = "corner" THEN lo % long ELSE lo
             IN IF box = 0 THEN at - corner ELSE (at - corner) % box
    /\ shift' = IF box = 0 THEN 0 ELSE -1
    /\ stage' = "deposit"
    /\ UNCHANGED <<box, x, z, lo, len, long, zlo, zhi, turned, c, zat, hits>>
Last == IF box = 0 \/ Variant = "one" THEN 0 ELSE Up(long, box)
Deposit ==
    /\ stage = "deposit" /\ shift <= Last
    /\ LET p == Pixel(at + shift * box) IN
       hits' = IF p \in 0..(Square - 1) THEN hits \cup {<<p, shift>>} ELSE hits
    /\ shift' = shift + 1
    /\ UNCHANGED <<box, x, z, lo, len, long, zlo, zhi, turned, c, at, zat, stage>>
Cut ==
    /\ stage = "deposit" /\ shift > Last
    /\ hits' = IF Variant = "square" THEN hits ELSE { h \in hits : h[1] < Pixels }
    /\ stage' = "end"
    /\ UNCHANGED <<box, x, z, lo, len, long, zlo, zhi, turned, c, at, zat, shift>>
Next == Place \/ Slab \/ Corner \/ Deposit \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what the image is: for every copy of the particle whose depth is in the slab
Copies == IF box = 0 THEN {0} ELSE -12..12
There == IF turned THEN 2 * c - x ELSE x
Meant == IF \E k \in Copies : zlo <= z + k * box /\ z + k * box <= zhi
         THEN { <<Pixel(There + k * box - lo), k>> : k \in Copies } ELSE {}
Seen == { h \in Meant : h[1] >= 0 /\ h[1] < Pixels }
Correct == stage = "end" => /\ Cardinality(hits) = Cardinality(Seen)
                            /\ { h[1] : h \in hits } = { h[1] : h \in Seen }
Ends == <>(stage = "end")
EmitCase == (Emit /\ stage = "start" /\ x % 4 = 1) =>
            PrintT("VT " \o ToJson([box |-> box, x |-> x, z |-> z, lo |-> lo, len |-> len, long |-> long,
                                    zlo |-> zlo, zhi |-> zhi, turned |-> turned, c |-> c]))
=============================================================================
