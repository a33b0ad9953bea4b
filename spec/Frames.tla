------------------------------- MODULE Frames --------------------------------
(* Implementation-shaped model of arrays with frames and units: stored values    *)
(* (as logarithms) in buffers that views share, conversions that scale the       *)
(* buffer, copies that allocate one.  Ghosts: the physical value every array     *)
(* denotes (phys), the class of arrays that may share memory with it (cls) and   *)
(* whether it still has to denote phys (ok).                                     *)
EXTENDS FrameOps, TLC, Json
CONSTANTS N, Exps, Variant, Emit
\* Variant: "code" | "construct-in-place" | "copy-shares" | "no-check" | "flag-only"
VARIABLES h, store, phys, cls, ok, hist, last
vars == <<h, store, phys, cls, ok, hist, last>>
View == <<h, store, phys, cls, ok>>
H == 1..N
LA == -1   \* log2 of the scale factor
UU == 3    \* log2 of the ratio of the two units
Dead == [live |-> FALSE, b |-> 0, fr |-> "n", u |-> 0, e |-> 0, vt |-> FALSE]
Live == { i \in H : h[i].live }
Usable == { i \in Live : ok[i] }   \* what an array holds is unspecified after a sharing one was converted
Shift(x) == UU * x.u + (IF x.fr = "c" THEN x.e * LA ELSE 0)
Phys(i) == store[h[i].b] + Shift(h[i])

Init ==
    /\ \E e \in Exps, fr \in {"c", "p", "n"}, vt \in BOOLEAN :
         LET x == [live |-> TRUE, b |-> 1, fr |-> fr, u |-> 0, e |-> e, vt |-> vt] IN
         /\ Consistent(x)
         /\ h = [i \in H |-> IF i = 1 THEN x ELSE Dead]
         /\ store = [b \in H |-> IF b = 1 THEN 5 - Shift(x) ELSE 0]
         /\ hist = <<[op |-> "new", e |-> e, fr |-> fr, vt |-> vt]>>
    /\ phys = [i \in H |-> IF i = 1 THEN 5 ELSE 0]
    /\ cls = [i \in H |-> i] /\ ok = [i \in H |-> TRUE] /\ last = [op |-> "new", s |-> 0, d |-> 0]

\* a buffer not used by any array other than d
Fresh(d) == CHOOSE b \in H : \A i \in Live \ {d} : h[i].b # b
FreshCls(d) == CHOOSE k \in H : \A i \in Live \ {d} : cls[i] # k
Did(op, s, d, x) ==
    /\ last' = [op |-> op, s |-> s, d |-> d]
    /\ hist' = Append(hist, [op |-> op, s |-> s, d |-> d, x |-> x])
Refused(op, s, d, x) == Did(op, s, d, x) /\ UNCHANGED <<h, store, phys, cls, ok>>

\* d becomes y with stored value v in buffer b and class k
Put(s, d, y, b, v, k) ==
    /\ h' = [h EXCEPT ![d] = [y EXCEPT !.b = b]]
    /\ store' = [store EXCEPT ![b] = v]
    /\ phys' = [phys EXCEPT ![d] = phys[s]]
    /\ cls' = [cls EXCEPT ![d] = k]
    /\ ok' = [ok EXCEPT ![d] = ok[s]]

\* the same quantity in another frame or unit
Conv(x, v, fr, u) == LET y == [x EXCEPT !.fr = fr, !.u = u]
                     IN [x |-> y, v |-> v + Shift(x) - Shift(y)]

CopyTo(op, s, d, fr, u) ==
    LET c == Conv(h[s], store[h[s].b], fr, u)
        share == Variant = "copy-shares" /\ c.v = store[h[s].b]
    IN Put(s, d, c.x, IF share THEN h[s].b ELSE Fresh(d), c.v, FreshCls(d)) /\ Did(op, s, d, fr)

Copy == \E s \in Usable, d \in H : s # d /\ CopyTo("copy", s, d, h[s].fr, h[s].u)
CopyUnit == \E s \in Usable, d \in H : s # d /\ CopyTo("unit", s, d, h[s].fr, 1 - h[s].u)
CopyFrame == \E s \in Usable, d \in H, fr \in {"c", "p"} :
    /\ s # d
    /\ IF CanFrame(h[s], fr) \/ (Variant = "no-check" /\ h[s].fr # "n")
       THEN CopyTo("frame", s, d, fr, h[s].u) ELSE Refused("frame", s, d, fr)
MakeView == \E s \in Usable, d \in H :
    s # d /\ Put(s, d, h[s], h[s].b, store[h[s].b], cls[s]) /\ Did("view", s, d, "")
Construct == \E s \in Usable, d \in H, fr \in {"c", "p"} :
    /\ s # d
    /\ IF ~CanFrame(h[s], fr) THEN Refused("construct", s, d, fr)
       ELSE IF h[s].fr = fr
       THEN Put(s, d, h[s], h[s].b, store[h[s].b], cls[s]) /\ Did("construct", s, d, fr)
       ELSE IF Variant = "construct-in-place"
       THEN LET c == Conv(h[s], store[h[s].b], fr, h[s].u)
            IN Put(s, d, c.x, h[s].b, c.v, FreshCls(d)) /\ Did("construct", s, d, fr)
       ELSE CopyTo("construct", s, d, fr, h[s].u)

InPlace(op, s, fr, u, x) ==
    LET c == Conv(h[s], store[h[s].b], fr, u) IN
    /\ h' = [h EXCEPT ![s] = c.x]
    /\ store' = [store EXCEPT ![h[s].b] = IF Variant = "flag-only" /\ fr = "p" THEN store[h[s].b] ELSE c.v]
    /\ ok' = [i \in H |-> ok[i] /\ ~(i \in Live /\ i # s /\ cls[i] = cls[s] /\ c.v # store[h[s].b])]
    /\ UNCHANGED <<phys, cls>>
    /\ Did(op, s, s, x)
InFrame == \E s \in Usable, fr \in {"c", "p"} :
    IF CanFrame(h[s], fr) THEN InPlace("inframe", s, fr, h[s].u, fr) ELSE Refused("inframe", s, s, fr)
InUnit == \E s \in Usable : InPlace("inunit", s, h[s].fr, 1 - h[s].u, "")

Next == Copy \/ CopyUnit \/ CopyFrame \/ MakeView \/ Construct \/ InFrame \/ InUnit
Spec == Init /\ [][Next]_vars

DenotesPhys == \A i \in Live : ok[i] => Phys(i) = phys[i]
AllConsistent == \A i \in Live : Consistent(h[i])
OnlyTarget == [][ \A i \in Live : (i # last'.d /\ ~(last'.op \in {"inframe", "inunit"} /\ cls[i] = cls[last'.s]))
                     => h'[i] = h[i] /\ store'[h[i].b] = store[h[i].b] ]_vars
EmitStep == Emit => PrintT("VT " \o ToJson(hist'))
=============================================================================
