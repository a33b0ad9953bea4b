------------------------------ MODULE HandleOps ------------------------------
(* Who opens and closes files (property D02).                                    *)
(* State: uopen  is the user's handle on the file open?                          *)
(*        gen    generation of the user's handle (each open gives a new one)     *)
(*        objs   living datasets and masks: the user handle generation they were *)
(*               given (0: made from a path) and which fields they hold          *)
EXTENDS Naturals, Sequences, FiniteSets

Start == [uopen |-> FALSE, gen |-> 0, objs |-> <<>>]

\* does object o work through the user's handle at this moment?
Uses(st, o) == st.uopen /\ st.objs[o].gen = st.gen
GivenOpen(st, e) == IF "via" \in DOMAIN e THEN e.via = "handle" ELSE Uses(st, e.o)

Apply(st, e) ==
    LET g == IF "via" \in DOMAIN e /\ e.via = "handle" THEN st.gen ELSE 0
        add(k) == [st EXCEPT !.objs = Append(@, [kind |-> k, gen |-> g, have |-> {}])]
    IN CASE e.op = "uopen"  -> [st EXCEPT !.uopen = TRUE, !.gen = @ + 1]
         [] e.op = "uclose" -> [st EXCEPT !.uopen = FALSE]
         [] e.op \in {"load", "loadmasked"} -> IF e.fail THEN st ELSE add("data")
         [] e.op = "mask"   -> IF e.fail THEN st ELSE add("mask")
         [] e.op = "read" /\ ~e.fail -> [st EXCEPT !.objs[e.o].have = @ \cup {e.f}]
         [] e.op = "del"    -> [st EXCEPT !.objs[e.o].have = @ \ {e.f}]
         [] OTHER -> st

\* number of times the operation may open the file itself
NeedsFile(st, e) ==
    CASE e.op \in {"uclose", "del"} -> FALSE
      [] e.op = "uopen" -> FALSE      \* the user's own, not counted
      [] e.op = "read" -> e.f \notin st.objs[e.o].have
      [] OTHER -> TRUE
MayOpen(st, e) == NeedsFile(st, e) /\ ~GivenOpen(st, e)
=============================================================================
