-------------------------------- MODULE Names --------------------------------
(* Field names grown character by character over a small alphabet: laws of the   *)
(* naming map, checked on every name, and the names are replayed into the code.  *)
EXTENDS MetaOps, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLE s
Alphabet == {"a", "z", "B", "7", "_"}
Init == s \in {"a", "B", "z"}
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = s \o c
Spec == Init /\ [][Next]_s
Idempotent == Snake(Snake(s)) = Snake(s)
OnlyCaseAndUnderscores == Strip(Snake(s)) = LowerCase(Strip(s))
NoCapitals == Caps(Snake(s)) = 0
EmitCase == Emit => PrintT("VT " \o ToJson([name |-> s, snake |-> Snake(s)]))
=============================================================================
