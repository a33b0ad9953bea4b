------------------------------ MODULE ImageTrace -----------------------------
(* Verdicts on images made by the implementation.  t.parts: [x, w, m, on]:        *)
(* coordinates, kernel, weight and whether the particle is selected; t.rot: the   *)
(* rotation [on, R, c]; t.box: edges in pixels (0: not periodic); t.lo, t.len,    *)
(* t.long, t.res: lower corner and lengths of the region, its longest side and    *)
(* the number of pixels along that; t.slab: [on, lo, hi]; t.plane: [on, z]; t.dim: *)
(* 2 or 3; t.sten: stencils [f, w, H, v]; t.got: the images [px, shape, comoving,  *)
(* e, unit].                                                                      *)
EXTENDS ImageOps, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1

Key(f, w) == <<f, w>>
Table(t) == [ k \in { Key(t.sten[i].f, t.sten[i].w) : i \in 1..Len(t.sten) } |->
                LET i == CHOOSE j \in 1..Len(t.sten) : Key(t.sten[j].f, t.sten[j].w) = k IN
                [H |-> t.sten[i].H, v |-> t.sten[i].v] ]
Placed(t, p) == IF t.rot.on THEN Turn(t.rot.R, t.rot.c, p.x) ELSE p.x
Seen(t) == { i \in 1..Len(t.parts) : t.parts[i].on /\
                (t.slab.on => InSlab(Placed(t, t.parts[i])[3], t.slab.lo, t.slab.hi, t.box[3])) }
Shape(t) == [ i \in 1..t.dim |-> Pixels(t.res, t.len[i], t.long) ]

\* stencils of a particle: one per copy that a slice can see, one otherwise
Fs(t, x) ==
    LET f == <<Inside(x[1] - t.lo[1]), Inside(x[2] - t.lo[2])>> IN
    IF t.plane.on THEN { Append(f, d) : d \in Depths(x[3], t.plane.z, t.box[3], t.reach) }
    ELSE { Append(f, IF t.dim = 3 THEN Inside(x[3] - t.lo[3]) ELSE 0) }

Share(t, T, i, px) ==   \* what particle i leaves in pixel px
    LET p == t.parts[i]
        x == Placed(t, p)
        c(k) == PixelOf(x[k] - t.lo[k])
        One(f) ==
            IF Key(f, p.w) \notin DOMAIN T THEN 0
            ELSE LET s == T[Key(f, p.w)]
                     H == s.H
                     A(k) == Along(px[k], c(k), t.box[k], H)
                     V(d) == IF t.dim = 2 THEN s.v[d[1] + H + 1][d[2] + H + 1] ELSE s.v[d[1] + H + 1][d[2] + H + 1][d[3] + H + 1]
                 IN IF t.dim = 2 THEN MapThenSumSet(V, A(1) \X A(2)) ELSE MapThenSumSet(V, A(1) \X A(2) \X A(3))
    IN p.m * MapThenSumSet(One, Fs(t, x))

Want(t, T, px) == MapThenSumSet(LAMBDA i : Share(t, T, i, px), Seen(t))
At(g, px) == IF Len(px) = 2 THEN g.px[px[1] + 1][px[2] + 1] ELSE g.px[px[1] + 1][px[2] + 1][px[3] + 1]
All(t) == LET s == Shape(t) IN
          IF t.dim = 2 THEN (0..(s[1] - 1)) \X (0..(s[2] - 1)) ELSE (0..(s[1] - 1)) \X (0..(s[2] - 1)) \X (0..(s[3] - 1))

ImageFails(t) ==
    LET T == Table(t)
        wants == [ px \in All(t) |-> Want(t, T, px) ]
        One(g) ==
            IF g.exc # "" THEN {"makes-an-image"}
            ELSE IF g.shape # Shape(t) THEN {"shape-of-the-image"}
            ELSE (IF \E px \in All(t) : Abs(At(g, px) - wants[px]) > t.tol THEN {"each-particle-once"} ELSE {})
                 \cup (IF g.comoving # t.comoving THEN {"frame-of-the-image"} ELSE {})
                 \cup (IF g.e # t.e THEN {"exponent-of-the-image"} ELSE {})
                 \cup (IF ~g.unit THEN {"unit-of-the-image"} ELSE {})
    IN UNION { One(t.got[i]) : i \in 1..Len(t.got) }

\* one kernel: nothing outside its reach, its whole weight, and the same from all sides
Gap(i, f) == IF 100 * i > f THEN 100 * i - f ELSE IF 100 * (i + 1) < f THEN f - 100 * (i + 1) ELSE 0
Window(t) == (-t.H)..t.H
V2(v, H, i, j) == v[i + H + 1][j + H + 1]
V3(v, H, i, j, k) == v[i + H + 1][j + H + 1][k + H + 1]
KernelFails(t) ==
    IF t.exc # "" THEN {"makes-an-image"}
    ELSE LET W == Window(t)
             H == t.H
             px == IF t.dim = 2 THEN W \X W ELSE W \X W \X W
             V(v, d) == IF t.dim = 2 THEN V2(v, H, d[1], d[2]) ELSE V3(v, H, d[1], d[2], d[3])
             total == MapThenSumSet(LAMBDA d : V(t.v, d), px)
             Far(d) == \E k \in 1..t.dim : Gap(d[k], t.f[k]) > t.kw
             Mirror(d) == [k \in 1..t.dim |-> -d[k]]
             Swap(d) == IF t.dim = 2 THEN <<d[2], d[1]>> ELSE <<d[3], d[1], d[2]>>
         IN (IF \E d \in px : V(t.v, d) < 0 THEN {"no-negative-weight"} ELSE {})
            \cup (IF \E d \in px : Far(d) /\ V(t.v, d) # 0 THEN {"nothing-outside-the-kernel"} ELSE {})
            \cup (IF t.total > 0 /\ Abs(total - 1000000) > t.total THEN {"full-weight"} ELSE {})
            \cup (IF \E d \in px : Abs(V(t.v, d) - V(t.mirrored, Mirror(d))) > t.tol THEN {"same-from-both-sides"} ELSE {})
            \cup (IF \E d \in px : Abs(V(t.v, d) - V(t.swapped, Swap(d))) > t.tol THEN {"same-along-all-axes"} ELSE {})

\* nearest neighbours: every pixel shows one of the particles nearest to it
NearFails(t) ==
    IF t.exc # "" THEN {"makes-an-image"}
    ELSE IF t.shape # Shape(t) THEN {"shape-of-the-image"}
    ELSE LET Sep(d, b) == IF b = 0 THEN Abs(d) ELSE LET r == d % (100 * b) IN IF r <= 100 * b - r THEN r ELSE 100 * b - r
             D(i, px) == LET x == Placed(t, t.parts[i]) IN
                 LET u == Sep(x[1] - t.lo[1] - 100 * px[1] - 50, t.box[1])
                     v == Sep(x[2] - t.lo[2] - 100 * px[2] - 50, t.box[2])
                     w == Sep(x[3] - t.plane.z, t.box[3]) IN u * u + v * v + w * w
             on == { i \in 1..Len(t.parts) : t.parts[i].on }
             OK(px) == LET g == t.px[px[1] + 1][px[2] + 1] IN g \in on /\ \A j \in on : D(g, px) <= D(j, px)
         IN (IF \E px \in All(t) : ~OK(px) THEN {"nearest-particle"} ELSE {})
            \cup (IF t.gotco # t.comoving THEN {"frame-of-the-image"} ELSE {})

\* the same pixels obtained in two ways
SameFails(t) ==
    IF t.exc # "" THEN {"makes-an-image"}
    ELSE IF Len(t.a) # Len(t.b) \/ \E i \in 1..Len(t.a) : Abs(t.a[i] - t.b[i]) > t.tol THEN {t.clause} ELSE {}

Fails(t) == CASE t.op = "image" -> ImageFails(t) [] t.op = "kernel" -> KernelFails(t)
              [] t.op = "near" -> NearFails(t) [] t.op = "same" -> SameFails(t)
Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
