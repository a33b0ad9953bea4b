------------------------------- MODULE Layers --------------------------------
(* Several rendering functions over a grid of voxels, added up voxel by voxel       *)
(* along each line of sight, then coloured and combined.                            *)
(* Refuted: "last" a line shows its last voxel only, "turned" lines of sight        *)
(* exchanged, "first" a layer left out, "front" summed along another axis,          *)
(* "carry" sums not begun anew for each line.                                       *)
EXTENDS LayerOps, Json
CONSTANTS N1, N2, N3, Values, M, Variant, Emit
VARIABLES data, l, i, j, k, out, image
vars == <<data, l, i, j, k, out, image>>
Layer(m) == [c |-> m - 1, v |-> 1]
Init ==
    /\ data \in [1..N1 -> [1..N2 -> [1..N3 -> Values]]]
    /\ l = 1 /\ i = 1 /\ j = 1 /\ k = 1 /\ out = 0
    /\ image = [m \in 1..M |-> [x \in 1..N1 |-> [y \in 1..N2 |-> -1]]]
At(x, y, z) == IF Variant = "front" THEN data[z][y][x] ELSE data[x][y][z]
Step ==
    /\ l <= M
    /\ LET v == Gauss(At(i, j, k) - Layer(l).c)
           sum == IF Variant = "last" THEN v ELSE out + v
       IN IF k < N3
          THEN k' = k + 1 /\ out' = sum /\ UNCHANGED <<i, j, l, image>>
          ELSE /\ k' = 1 /\ out' = (IF Variant = "carry" THEN sum ELSE 0)
               /\ image' = (IF Variant = "turned" THEN [image EXCEPT ![l][j][i] = sum] ELSE [image EXCEPT ![l][i][j] = sum])
               /\ IF j < N2 THEN j' = j + 1 /\ UNCHANGED <<i, l>>
                  ELSE /\ j' = 1
                       /\ IF i < N1 THEN i' = i + 1 /\ UNCHANGED l ELSE i' = 1 /\ l' = l + 1
    /\ UNCHANGED data
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Done == l > M
Used == IF Variant = "first" THEN 2..M ELSE 1..M
Light(x, y) == High({ image[m][x][y] : m \in Used })
Correct == Done => \A x \in 1..N1 : \A y \in 1..N2 :
    /\ \A m \in Used : image[m][x][y] = Shown(data[x][y], Layer(m))
    /\ Light(x, y) = Combined("lighten", [ m \in 1..M |-> Shown(data[x][y], Layer(m)) ])
Ends == <>Done
EmitCase == (Emit /\ l = 1 /\ i = 1 /\ j = 1 /\ k = 1) => PrintT("VT " \o ToJson([data |-> data]))
=============================================================================
