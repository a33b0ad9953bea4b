------------------------------- MODULE MeshOps -------------------------------
(* Deposition on a periodic mesh, folded (property P01).  Coordinates are        *)
(* integers, a box edge is `b` long, folding cuts every edge in F, and a folded  *)
(* box has n cells along each edge.                                              *)
EXTENDS Integers, Sequences, FiniteSets

CellOf(x, b, F, n) == (((x * F) % b) * n) \div b
\* a point within rounding of a cell edge: the cell that starts there or the one that ends there
OnEdge(x, b, F, n) == (((x * F) % b) * n) % b = 0
CellsOf(x, s, b, F, n) ==
    IF s = 0 THEN { CellOf(x, b, F, n) }
    ELSE LET c == CellOf(x, b, F, n) IN IF OnEdge(x, b, F, n) THEN { c, (c + n - 1) % n } ELSE { c }

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Masses(q) == SumOver([i \in 1..Len(q) |-> q[i].m], 1..Len(q))
=============================================================================
