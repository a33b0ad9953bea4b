------------------------------ MODULE MeshTrace ------------------------------
(* Verdicts on meshes made by the implementation.  t.ps holds the particles      *)
(* [x, s, m]: coordinates, which of them are only known to within rounding, and  *)
(* the weight; t.b the edges, t.n and t.F resolution and folding; t.grids the     *)
(* meshes obtained from these particles in several ways (serially, in parallel,  *)
(* in another order, as physical densities), each as a list [c, m] of occupied    *)
(* cells and the weight in them.                                                 *)
EXTENDS MeshOps, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Sharp(p) == p.s = <<0, 0, 0>>
Places(t, p) == { <<i, j, k>> : i \in CellsOf(p.x[1], p.s[1], t.b[1], t.F, t.n),
                                j \in CellsOf(p.x[2], p.s[2], t.b[2], t.F, t.n),
                                k \in CellsOf(p.x[3], p.s[3], t.b[3], t.F, t.n) }
Blurred(t) == { i \in 1..Len(t.ps) : ~Sharp(t.ps[i]) }
\* all ways to put the blurred particles
Placings(t) == LET D == Blurred(t)
                  A == UNION { Places(t, t.ps[i]) : i \in D } IN
              { f \in [D -> A] : \A i \in D : f[i] \in Places(t, t.ps[i]) }
Grid(t, f) ==
    LET at == [i \in 1..Len(t.ps) |-> IF i \in Blurred(t) THEN f[i] ELSE CHOOSE c \in Places(t, t.ps[i]) : TRUE]
        cells == { at[i] : i \in { j \in 1..Len(t.ps) : t.ps[j].m # 0 } } IN
    { [c |-> c, m |-> SumOver([i \in 1..Len(t.ps) |-> IF at[i] = c THEN t.ps[i].m ELSE 0], 1..Len(t.ps))] : c \in cells }
S(q) == { q[i] : i \in 1..Len(q) }
GridFails(t, g, want) ==
    IF g.exc # "" THEN {"deposits-any-particles"}
    ELSE (IF Masses(g.cells) # Masses(t.ps) THEN {"total-weight"} ELSE {})
         \cup (IF S(g.cells) \notin want THEN {"each-in-its-cell"} ELSE {})
         \cup (IF g.e # t.e THEN {"exponent-of-a-density"} ELSE {})
         \cup (IF g.comoving # t.comoving THEN {"frame-of-the-coordinates"} ELSE {})
Fails(t) == LET want == { Grid(t, f) : f \in Placings(t) } IN
            UNION { GridFails(t, t.grids[i], want) : i \in 1..Len(t.grids) }
Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
