---------------------------- MODULE SpectrumTrace ----------------------------
(* Verdicts on power spectra made by the implementation.                          *)
(* "spectrum": t.kind ("mesh" or "waves"), t.n, t.f, t.A, t.B (the two fields),   *)
(* t.edges, t.roots, t.noise (10^4 over the number of particles, or 0), and for   *)
(* every bin t.counts, t.power (10^4 P / V), t.wave (1000 times the mean          *)
(* wavenumber); t.frames what each result said of itself.                         *)
(* "stitch": t.folds (increasing), t.ns, t.A, t.B (one field per fold), t.minimal, *)
(* t.frac (per cent, or 0), t.tracker, t.power, t.wave, t.centres.                *)
EXTENDS FourierOps, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Near(x, y, d) == Abs(x - y) <= d

Total(t, n, f, A, B, i) ==
    IF t.kind = "mesh" THEN MeshPower(n, f, A, B, t.edges[i], t.edges[i + 1]) ELSE WavePower(n, f, A, B, t.edges[i], t.edges[i + 1])
Bins(t) == 1..(Len(t.edges) - 1)
CountOf(t, n, f, i) == Count(n, f, t.edges[i], t.edges[i + 1])
PowerOf(t, n, f, A, B, i, c) == IF c = 0 THEN 0 ELSE Total(t, n, f, A, B, i) \div c
MeanOf(t, n, f, i, c) == IF c = 0 THEN 0 ELSE Wavenumbers(n, f, t.roots, t.edges[i], t.edges[i + 1]) \div c

SpectrumFails(t) ==
    IF ~GoodRoots(t.roots) THEN {"TRACE-roots"}
    ELSE IF t.exc # "" THEN {"makes-a-spectrum"}
    ELSE IF Len(t.counts) # Len(t.edges) - 1 THEN {"a-value-per-bin"}
    ELSE LET c == [ i \in Bins(t) |-> CountOf(t, t.n, t.f, i) ] IN
         (IF \E i \in Bins(t) : t.counts[i] # c[i] THEN {"each-mode-once"} ELSE {})
         \cup (IF \E i \in Bins(t) : ~Near(t.power[i], PowerOf(t, t.n, t.f, t.A, t.B, i, c[i]) - t.noise, 2) THEN {"power-of-the-modes"} ELSE {})
         \cup (IF \E i \in Bins(t) : ~Near(t.wave[i], MeanOf(t, t.n, t.f, i, c[i]), 2 + 2^t.f) THEN {"mean-wavenumber"} ELSE {})
         \cup (IF \E i \in 1..Len(t.frames) : t.frames[i].comoving # t.comoving THEN {"frame-of-the-spectrum"} ELSE {})
         \cup (IF \E i \in 1..Len(t.frames) : t.frames[i].e # t.frames[i].want THEN {"exponent-of-the-spectrum"} ELSE {})
         \cup (IF \E i \in 1..Len(t.frames) : ~t.frames[i].unit THEN {"unit-of-the-spectrum"} ELSE {})

\* 2 pi = 6.2832; the cut is somewhere between the resolution and the Nyquist wavenumber
Largest(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
StitchFails(t) ==
    IF ~GoodRoots(t.roots) THEN {"TRACE-roots"}
    ELSE IF t.exc # "" THEN {"makes-a-spectrum"}
    ELSE IF Len(t.tracker) # Len(t.edges) - 1 THEN {"a-value-per-bin"}
    ELSE
    LET F == 1..Len(t.folds)
        c == [ j \in F |-> [ i \in Bins(t) |-> CountOf(t, t.ns[j], t.folds[j], i) ] ]
        w == [ j \in F |-> [ i \in Bins(t) |-> MeanOf(t, t.ns[j], t.folds[j], i, c[j][i]) ] ]
        Enough(j, i) == c[j][i] > (IF j = 1 THEN 0 ELSE t.minimal)
        frac == IF t.frac = 0 THEN 100 ELSE t.frac
        best(j) == Largest({ w[j][i] : i \in { k \in Bins(t) : Enough(j, k) } })
        low(j) == LET r == (1000 * t.ns[j] * 2^t.folds[j] * 100) \div 628      \* resolution
                      m == IF t.frac # 0 /\ best(j) < r THEN best(j) ELSE r IN (m \div 100) * frac
        high(j) == LET r == 500 * t.ns[j] * 2^t.folds[j]                         \* Nyquist
                       m == IF t.frac # 0 /\ best(j) < r THEN best(j) ELSE r IN (m \div 100) * frac
        Surely(j, i) == Enough(j, i) /\ (j = Len(t.folds) \/ w[j][i] < low(j) - low(j) \div 50 - 5)
        May(j, i) == Enough(j, i) /\ (j = Len(t.folds) \/ w[j][i] <= high(j) + high(j) \div 50 + 5)
        Took(j, i) == /\ t.tracker[i] = 2^t.folds[j]
                      /\ Near(t.power[i], PowerOf(t, t.ns[j], t.folds[j], t.A[j], t.B[j], i, c[j][i]) - t.noise, 2)
                      /\ Near(t.wave[i], w[j][i], 2 + 2^t.folds[j])
        Nothing(i) == t.tracker[i] = 1 /\ t.power[i] = 0 /\ Near(t.wave[i], t.centres[i], 5)
        OK(i) == \/ \E j \in F : Took(j, i) /\ May(j, i) /\ \A g \in F : Surely(g, i) => c[j][i] >= c[g][i]
                 \/ Nothing(i) /\ ~\E g \in F : Surely(g, i)
    IN (IF \E i \in Bins(t) : ~OK(i) THEN {"best-fold-of-each-bin"} ELSE {})
       \cup (IF \E i \in 1..Len(t.frames) : t.frames[i].comoving # t.comoving THEN {"frame-of-the-spectrum"} ELSE {})
       \cup (IF \E i \in 1..Len(t.frames) : t.frames[i].e # t.frames[i].want THEN {"exponent-of-the-spectrum"} ELSE {})
       \cup (IF \E i \in 1..Len(t.frames) : ~t.frames[i].unit THEN {"unit-of-the-spectrum"} ELSE {})

Fails(t) == CASE t.op = "spectrum" -> SpectrumFails(t) [] t.op = "stitch" -> StitchFails(t)
Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
