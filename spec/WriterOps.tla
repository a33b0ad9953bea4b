----------------------------- MODULE WriterOps -------------------------------
(* Abstract writer of initial conditions: what is assigned, when a snapshot may *)
(* be written, and what it then contains.                                       *)
(*                                                                              *)
(* A state maps every type to its slots.  A slot is NONE or a record            *)
(* [rows: contents (physical values or identifiers, flattened), n: number of    *)
(* rows, w: width (0 for one-dimensional), e: scale-factor exponent].           *)
(* Field numbers: 1 coordinates, 2 velocities, 3 masses, 4 smoothing lengths,   *)
(* 5 internal energy, IDS particle identifiers.                                 *)
EXTENDS Integers, Sequences, FiniteSets

NONE == [rows |-> <<>>, n |-> -1, w |-> 0, e |-> 0]
IDS == 6
Required(kind) ==
    CASE kind = "gas" -> {1, 2, 3, 4, 5, IDS}
      [] kind = "stars" -> {1, 2, 3, 4, IDS}
      [] OTHER -> {1, 2, 3, IDS}

Unset == [f \in 1..IDS |-> NONE]
Is(x) == x.n # -1
Used(S, kinds) == { t \in DOMAIN S : \E f \in Required(kinds[t]) : Is(S[t][f]) }

\* every required field present (identifiers may be missing), all of one length,
\* one velocity per coordinate
Complete(sl, kind) == \A f \in Required(kind) \ {IDS} : Is(sl[f])
SameLength(sl, kind) ==
    \A f, g \in Required(kind) : Is(sl[f]) /\ Is(sl[g]) => sl[f].n = sl[g].n
SameShape(sl) == sl[1].n = sl[2].n /\ sl[1].w = sl[2].w
Consistent(sl, kind) == Complete(sl, kind) /\ SameLength(sl, kind) /\ SameShape(sl)

RowSet(x) == { x.rows[i] : i \in 1..Len(x.rows) }
RECURSIVE SumN(_, _)
SumN(F, T) == IF T = {} THEN 0
              ELSE LET t == CHOOSE t \in T : TRUE IN F[t] + SumN(F, T \ {t})
Distinct(ids, T) ==   \* ids: type -> sequence
    Cardinality(UNION { { ids[t][i] : i \in 1..Len(ids[t]) } : t \in T })
      = SumN([t \in T |-> Len(ids[t])], T)
Positive(ids, T) == \A t \in T : \A i \in 1..Len(ids[t]) : ids[t][i] > 0
ValidIds(x) == Distinct([t \in {1} |-> x.rows], {1}) /\ Positive([t \in {1} |-> x.rows], {1})

AllHaveIds(S, T) == \A t \in T : Is(S[t][IDS])

CanWrite(S, kinds) ==
    LET T == Used(S, kinds) IN
    /\ \A t \in T : Consistent(S[t], kinds[t])
    /\ AllHaveIds(S, T) => Distinct([t \in T |-> S[t][IDS].rows], T)

Rows(S, t) == S[t][1].n

\* identifiers allowed in the file written from S
IdsOk(S, kinds, ids) ==
    LET T == Used(S, kinds) IN
    /\ \A t \in T : Len(ids[t]) = Rows(S, t)
    /\ Distinct(ids, T) /\ Positive(ids, T)
    /\ AllHaveIds(S, T) => \A t \in T : ids[t] = S[t][IDS].rows
=============================================================================
