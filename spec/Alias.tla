-------------------------------- MODULE Alias ---------------------------------
(* Implementation-shaped model of how operands are handled: values in buffers    *)
(* that views share, attributes (frame, unit) per array.  Binary operations      *)
(* bring copies of their operands to one frame; conversions by copy copy first;  *)
(* calls on data sets derive arrays from cached ones; a call that is refused may *)
(* already have prepared its operands.                                           *)
EXTENDS AliasOps, TLC, Json
CONSTANTS N, Depth, Variant, Emit
\* Variant: "code" | "returns-same" | "prepare-in-place" | "convert-other" | "wrap-in-place"
\*          | "refuse-late" | "out-replaces" | "view-attributes"
VARIABLES h, store, own, n, hist, last
vars == <<h, store, own, n, hist, last>>
View == <<h, store, own, n>>
H == 1..N
Frames == {"c", "p"}
LA == 1    \* log2 of the ratio of the two frames
Conv(v, f, g) == IF f = g THEN v ELSE IF g = "p" THEN v + LA ELSE v - LA

Init ==
    /\ \E f \in [H -> Frames] :
         /\ h = [i \in H |-> [b |-> i, fr |-> f[i]]]
         /\ hist = <<[op |-> "new", fr |-> f]>>
    /\ store = [b \in 1..(2 * N) |-> IF b <= N THEN 4 * b ELSE 0]
    /\ own = [i \in H |-> {i}] /\ n = 0
    /\ last = [kind |-> "none", d |-> 0, own |-> <<>>]

Used(hh) == { hh[i].b : i \in H }
Free(k) == CHOOSE b \in 1..(2 * N) : b \notin Used(h) /\ b # k
Step(op, i, j, d, kind, from) ==
    /\ n < Depth
    /\ n' = n + 1
    /\ own' = After(own, kind, from, d, N + 1 + n)
    /\ last' = [kind |-> kind, d |-> d, own |-> own]
    /\ hist' = Append(hist, [op |-> op, i |-> i, j |-> j, d |-> d])

\* conversion by copy
To == \E i \in H, d \in H, f \in Frames :
    /\ i # d
    /\ IF Variant = "returns-same" /\ h[i].fr = f
       THEN h' = [h EXCEPT ![d] = h[i]] /\ UNCHANGED store
       ELSE LET b == Free(0) IN
            /\ h' = [h EXCEPT ![d] = [b |-> b, fr |-> f]]
            /\ store' = [store EXCEPT ![b] = Conv(store[h[i].b], h[i].fr, f)]
    /\ Step("to", i, i, d, "make", {})
View1 == \E i \in H, d \in H :
    /\ i # d /\ h' = [h EXCEPT ![d] = h[i]] /\ UNCHANGED store
    /\ Step("view", i, i, d, "make", {i})
\* i + j: the second brought to the frame of the first
Binary == \E i \in H, j \in H, d \in H :
    LET b == Free(0)
        w == Conv(store[h[j].b], h[j].fr, h[i].fr)
        s1 == IF Variant = "prepare-in-place" THEN [store EXCEPT ![h[j].b] = w] ELSE store
        h1 == IF Variant = "prepare-in-place" THEN [h EXCEPT ![j].fr = h[i].fr] ELSE h
    IN /\ h' = [h1 EXCEPT ![d] = [b |-> b, fr |-> h[i].fr]]
       /\ store' = [s1 EXCEPT ![b] = store[h[i].b] + w]
       /\ Step("binary", i, j, d, "make", {})
\* i += j
InPlace == \E i \in H, j \in H :
    LET w == Conv(store[h[j].b], h[j].fr, h[i].fr)
        s1 == IF Variant = "convert-other" THEN [store EXCEPT ![h[j].b] = w] ELSE store
    IN /\ i # j
       /\ h' = IF Variant = "convert-other" THEN [h EXCEPT ![j].fr = h[i].fr] ELSE h
       /\ store' = [s1 EXCEPT ![h[i].b] = s1[h[i].b] + w]
       /\ Step("inplace", i, j, i, "write", {})
\* f(i, j, out=d)
Out == \E i \in H, j \in H, d \in H :
    LET w == Conv(store[h[j].b], h[j].fr, h[i].fr) IN
    /\ d # i /\ d # j
    /\ h' = IF Variant = "out-replaces" THEN [h EXCEPT ![d].fr = h[i].fr, ![i].fr = h[d].fr] ELSE [h EXCEPT ![d].fr = h[i].fr]
    /\ store' = [store EXCEPT ![h[d].b] = store[h[i].b] + w]
    /\ Step("out", i, j, d, "write", {})
InFrame == \E i \in H, f \in Frames :
    /\ h' = IF Variant = "view-attributes" THEN [k \in H |-> IF h[k].b = h[i].b THEN [h[k] EXCEPT !.fr = f] ELSE h[k]]
            ELSE [h EXCEPT ![i].fr = f]
    /\ store' = [store EXCEPT ![h[i].b] = Conv(@, h[i].fr, f)]
    /\ Step("inframe", i, i, i, "write", {})
\* a call that derives arrays from what it is given (the first operand modulo the second)
Read == \E i \in H, j \in H :
    /\ store' = IF Variant = "wrap-in-place" THEN [store EXCEPT ![h[i].b] = @ % 3] ELSE store
    /\ UNCHANGED h
    /\ Step("read", i, j, 0, "read", {})
\* a call that is refused: it names no register that may change
Refused == \E i \in H, j \in H :
    /\ i # j
    /\ IF Variant = "refuse-late"
       THEN h' = [h EXCEPT ![j].fr = h[i].fr] /\ store' = [store EXCEPT ![h[j].b] = Conv(@, h[j].fr, h[i].fr)]
       ELSE UNCHANGED <<h, store>>
    /\ Step("refused", i, j, 0, "read", {})

Next == To \/ View1 \/ Binary \/ InPlace \/ Out \/ InFrame \/ Read \/ Refused
Spec == Init /\ [][Next]_vars

OnlyTargets == [][ LET k == last' IN \A i \in H :
    /\ (store'[h'[i].b] # store[h[i].b] => i \in MayVal(own, k.kind, k.d))
    /\ (h'[i].fr # h[i].fr => i \in MayAtt([x \in H |-> x], k.kind, k.d)) ]_vars
\* arrays that are not views of each other have memory of their own
Private == \A i \in H, j \in H : own[i] \cap own[j] = {} => h[i].b # h[j].b
Bounded == \A b \in DOMAIN store : store[b] \in -64..256
EmitStep == (Emit /\ n' = Depth) => PrintT("VT " \o ToJson(hist'))
=============================================================================
