------------------------------- MODULE Writer --------------------------------
(* Implementation-shaped model of the snapshot writer: assignments checked and   *)
(* stored, deletions, and a write that walks over the types in order, checking   *)
(* each, then generates or compares identifiers, then produces the file.         *)
(* Two types: 1 (coordinates, velocities and masses move together here: field 1  *)
(* and 2 vary, 3 follows 1) and 2 ("stars": fields 1, 2 follow 3; 3 and 4 vary). *)
EXTENDS WriterOps, TLC, Json

CONSTANTS MaxId, Wide, Variant, Emit
\* Variant: "code" | "missing-only" (generate only for types without identifiers)
\*        | "store-first" (an assignment is stored before it is checked)
\*        | "per-type" (identifiers compared within each type only)

VARIABLES S, file, last
vars == <<S, file, last>>
Kinds == <<"dark_matter", "stars">>
T2 == 1..2

Dummy(n, w) == [rows |-> [i \in 1..(n * (IF w = 0 THEN 1 ELSE w)) |-> i], n |-> n, w |-> w, e |-> 0]
Shapes(f) == IF f \in {1, 2} THEN { Dummy(n, 3) : n \in 1..2 } \cup (IF Wide /\ f = 1 THEN {Dummy(2, 2)} ELSE {})
             ELSE { Dummy(n, 0) : n \in 1..2 }
IdSeqs == UNION { [1..n -> 0..MaxId] : n \in 1..2 }
IdSlot(s) == [rows |-> s, n |-> Len(s), w |-> 0, e |-> 0]
Varying == {<<1, 1>>, <<1, 2>>, <<2, 3>>, <<2, 4>>}
NoFile == [ok |-> FALSE, ids |-> <<>>]
View == <<S>>
Idle == [op |-> "none", ok |-> TRUE]

\* fields that follow another one
Follow(st) ==
    [st EXCEPT ![1][3] = IF Is(st[1][1]) THEN Dummy(st[1][1].n, 0) ELSE NONE,
               ![2][1] = IF Is(st[2][3]) THEN Dummy(st[2][3].n, 3) ELSE NONE,
               ![2][2] = IF Is(st[2][3]) THEN Dummy(st[2][3].n, 3) ELSE NONE]

Init == S = [t \in T2 |-> Unset] /\ file = NoFile /\ last = Idle

Assign ==
    \E v \in Varying :
      LET t == v[1] f == v[2] IN
      \E x \in Shapes(f) \cup {NONE} :
        /\ S' = Follow([S EXCEPT ![t][f] = x])
        /\ last' = Idle /\ UNCHANGED file

BadAssign ==   \* wrong dimensions or scale factor: refused
    \E v \in Varying :
        /\ S' = IF Variant = "store-first" THEN Follow([S EXCEPT ![v[1]][v[2]] = Dummy(1, 0)]) ELSE S
        /\ last' = [op |-> "bad", ok |-> FALSE] /\ UNCHANGED file

AssignIds ==
    \E t \in T2, s \in IdSeqs :
        LET x == IdSlot(s) good == ValidIds(x) IN
        /\ S' = IF good \/ Variant = "store-first" THEN [S EXCEPT ![t][IDS] = x] ELSE S
        /\ last' = [op |-> "ids", ok |-> good] /\ UNCHANGED file

DeleteIds ==
    \E t \in T2 : S' = [S EXCEPT ![t][IDS] = NONE] /\ last' = Idle /\ UNCHANGED file

\* one pass over the types, as the implementation does it
RECURSIVE Generated(_, _, _)
Generated(st, ts, next) ==
    IF ts = <<>> THEN st
    ELSE LET t == Head(ts) n == Rows(st, t) IN
         IF Variant = "missing-only" /\ Is(st[t][IDS]) THEN Generated(st, Tail(ts), next)
         ELSE Generated([st EXCEPT ![t][IDS] = IdSlot([i \in 1..n |-> next + i - 1])], Tail(ts), next + n)

InOrder(T) == IF T = {1, 2} THEN <<1, 2>> ELSE IF T = {} THEN <<>> ELSE <<CHOOSE t \in T : TRUE>>

Write ==
    LET T == Used(S, Kinds)
        consistent == \A t \in T : Consistent(S[t], Kinds[t])
        gen == ~AllHaveIds(S, T)
        st == IF gen THEN Generated(S, InOrder(T), 1) ELSE S
        unique == gen \/ Variant = "per-type" \/ Distinct([t \in T |-> S[t][IDS].rows], T)
        ok == consistent /\ unique
    IN /\ T # {}
       /\ S' = IF consistent THEN st ELSE S
       /\ file' = IF ok THEN [ok |-> TRUE, ids |-> [t \in T2 |-> st[t][IDS].rows]] ELSE file
       /\ last' = [op |-> "write", ok |-> ok]

Next == Assign \/ BadAssign \/ AssignIds \/ DeleteIds \/ Write
Spec == Init /\ [][Next]_vars

\* ---- checked ---------------------------------------------------------------
RefusedKeeps == [][ last'.op \in {"bad", "ids"} /\ ~last'.ok => S' = S ]_vars
WriteIff == [][ last'.op = "write" => (last'.ok <=> CanWrite(S, Kinds)) ]_vars
WrittenIds == [][ last'.op = "write" /\ last'.ok => IdsOk(S, Kinds, file'.ids) ]_vars
RefusedNoFile == [][ last'.op = "write" /\ ~last'.ok => file' = file ]_vars
WriteTwice == [][ last'.op = "write" /\ last'.ok =>   \* writing again gives the same
                    LET T == Used(S', Kinds) IN
                      T = Used(S, Kinds) /\ AllHaveIds(S', T) /\ CanWrite(S', Kinds)
                      /\ \A t \in T : S'[t][IDS].rows = file'.ids[t] ]_vars

Brief(st) == [t \in T2 |-> [f \in 1..IDS |-> [n |-> st[t][f].n, w |-> st[t][f].w,
                rows |-> IF f = IDS THEN st[t][f].rows ELSE <<>>]]]
EmitWrite == Emit /\ last'.op = "write" =>
    PrintT("VT " \o ToJson([s |-> Brief(S), ok |-> last'.ok, gen |-> ~AllHaveIds(S, Used(S, Kinds))]))
=============================================================================
