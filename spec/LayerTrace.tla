------------------------------ MODULE LayerTrace -----------------------------
(* Verdicts on coloured renders and colour maps (property V04).                     *)
(* render: t.data[i][j][k] in halves; t.layers [c, v (width 1/v), rgb];            *)
(* t.norm "fixed" (t.lo, t.hi), "each" (every layer over its own range) or      *)
(* "shared" (all over the range of the first); t.got: images (all) or one image       *)
(* [i][j][channel], in 10^-4.                                                         *)
(* map: t.colors [at, rgba], queries t.q [h, v, rgba] in 997ths and 10^-4.             *)
(* picture: t.grid[row][col] (eighths), the same queries.                              *)
EXTENDS LayerOps, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Sums(t) == [ m \in 1..Len(t.layers) |-> [ i \in 1..Len(t.data) |-> [ j \in 1..Len(t.data[i]) |-> Shown(t.data[i][j], t.layers[m]) ] ] ]
Shades(S) == UNION { { S[i][j] : j \in 1..Len(S[i]) } : i \in 1..Len(S) }
Lo(t, S, m) == CASE t.norm = "fixed" -> t.lo [] t.norm = "each" -> Low(Shades(S[m])) [] t.norm = "shared" -> Low(Shades(S[1]))
Hi(t, S, m) == CASE t.norm = "fixed" -> t.hi [] t.norm = "each" -> High(Shades(S[m])) [] t.norm = "shared" -> High(Shades(S[1]))
\* how far rounding of the heights may move a normalised value
Slack(t, S, m) == LET d == Hi(t, S, m) - Lo(t, S, m) IN
    (10 + (120000 + 10000 * t.layers[m].v * Len(t.data[1][1])) \div d) * (2 + High({ Abs(v) : v \in Shades(S[m]) }) \div d)
Steep(t, S) == \A m \in 1..Len(t.layers) : Hi(t, S, m) - Lo(t, S, m) >= 4000
Colour(t, S, m, i, j, ch) == (t.layers[m].rgb[ch] * Normed(S[m][i][j], Lo(t, S, m), Hi(t, S, m))) \div 10000
Render(t) ==
    LET S == Sums(t) n1 == Len(t.data) n2 == Len(t.data[1]) M == Len(t.layers) IN
    IF ~Steep(t, S) THEN {}
    ELSE LET slack == MapThenSumSet(LAMBDA m : Slack(t, S, m), 1..M) IN
         IF t.mode = "all"
         THEN IF t.shape # << M, n1, n2, 3 >> THEN {"shape-of-image"}
              ELSE IF \E m \in 1..M, i \in 1..n1, j \in 1..n2, ch \in 1..3 :
                        Abs(t.got[m][i][j][ch] - Colour(t, S, m, i, j, ch)) > slack THEN {"layer-shows-its-function"} ELSE {}
         ELSE IF t.shape # << n1, n2, 3 >> THEN {"shape-of-image"}
              ELSE IF \E i \in 1..n1, j \in 1..n2, ch \in 1..3 :
                        Abs(t.got[i][j][ch] - Combined(t.mode, [ m \in 1..M |-> Colour(t, S, m, i, j, ch) ])) > slack THEN {"layers-combined"} ELSE {}
\* a map made of colours; grid points are 255ths
Near(a, b) == \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= 25
Fits(t, p, q) == Weights(p, t.colors) < 2500 \/ Near(q.rgba, [ k \in 1..4 |-> Mean(p, t.colors, k) ])
Map(t) ==
    LET right(q) == Fits(t, << Index(q.h, 256), Index(q.v, 256) >>, q)
        turned(q) == Fits(t, << Index(q.v, 256), Index(q.h, 256) >>, q)
        all == \A i \in 1..Len(t.q) : right(t.q[i])
        allT == \A i \in 1..Len(t.q) : turned(t.q[i])
    IN IF all THEN {} ELSE IF allT THEN {"colour-axes-in-order"} ELSE {"colour-of-values"}
Plotted(t) == IF \E i \in 1..Len(t.q) : ~Fits(t, << t.q[i].h, t.q[i].v >>, t.q[i]) THEN {"colour-in-the-plot"} ELSE {}
Picture(t) ==
    LET rows == Len(t.grid) cols == Len(t.grid[1])
        right(q) == Near(q.rgba, t.grid[Index(q.v, rows) + 1][Index(q.h, cols) + 1])
        turned(q) == Near(q.rgba, t.grid[Index(q.h, rows) + 1][Index(q.v, cols) + 1])
        all == \A i \in 1..Len(t.q) : right(t.q[i])
        allT == \A i \in 1..Len(t.q) : turned(t.q[i])
    IN IF all THEN {} ELSE IF allT THEN {"colour-axes-in-order"} ELSE {"colour-of-values"}
Shape(t) == IF t.shape # t.want \o << 4 >> THEN {"shape-of-colours"} ELSE {}
Same(t) == IF Len(t.a) # Len(t.b) THEN {t.clause} ELSE IF \E i \in 1..Len(t.a) : Abs(t.a[i] - t.b[i]) > t.tol THEN {t.clause} ELSE {}
\* one dashed line per centre and one curve per function, in the colour of its layer
Options(t) ==
    IF Len(t.lines) # Len(t.layers) \/ Len(t.curves) # Len(t.layers) THEN {"a-curve-per-function"}
    ELSE IF \E m \in 1..Len(t.layers) :
              \/ t.lines[m].x # t.layers[m].c \/ ~Near(t.lines[m].rgb, t.layers[m].rgb)
              \/ ~Near(t.curves[m].rgb, t.layers[m].rgb)
              \/ \E k \in 1..Len(t.curves[m].y) : Abs(t.curves[m].y[k] - t.layers[m].v * Gauss(t.curves[m].k[k])) > 120 * t.layers[m].v THEN {"a-curve-per-function"}
    ELSE {}
Fails(t) ==
    IF t.exc # "" THEN {"makes-an-image"}
    ELSE CASE t.op = "render" -> Render(t)
           [] t.op = "options" -> Options(t)
           [] t.op = "map" -> IF Shape(t) # {} THEN Shape(t) ELSE Map(t)
           [] t.op = "plotted" -> Plotted(t)
           [] t.op = "picture" -> IF Shape(t) # {} THEN Shape(t) ELSE Picture(t)
           [] t.op = "same" -> Same(t)
Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
