----------------------------- MODULE FourierOps ------------------------------
(* Discrete Fourier modes and power spectra (property P02), in integers.          *)
(* Wavenumbers are triples of integers in units of 2 pi / L; folding the box f    *)
(* times multiplies them by 2^f.  Bins are given by integers e1 < e2 < ...: a     *)
(* squared wavenumber N is in bin i when e_i < N <= e_(i+1).  Power is in units   *)
(* of the volume, times 10^4.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Axis(n) == (-(n \div 2))..(n - 1 - (n \div 2))
Modes(n) == Axis(n) \X Axis(n) \X Axis(n)
Same(n, k, q) == \A i \in 1..3 : (k[i] - q[i]) % n = 0
N2(f, k) == 4^f * (k[1]*k[1] + k[2]*k[2] + k[3]*k[3])
InBin(f, k, lo, hi) == LET N == N2(f, k) IN lo < N /\ N <= hi
Count(n, f, lo, hi) == Cardinality({ k \in Modes(n) : InBin(f, k, lo, hi) })

Sum(Op(_), S) == MapThenSumSet(Op, S)
SumTo(Op(_), n) == MapThenSumSet(Op, 1..n)

\* powers of i
Re(p) == CASE p % 4 = 0 -> 1 [] p % 4 = 2 -> -1 [] OTHER -> 0
Im(p) == CASE p % 4 = 1 -> 1 [] p % 4 = 3 -> -1 [] OTHER -> 0

\* transform of a mesh of 1, 2 or 4 cells along each axis; cells is a sequence of [c, m]
Dot(k, c) == k[1]*c[1] + k[2]*c[2] + k[3]*c[3]
Dft(n, cells, k) ==
    <<SumTo(LAMBDA i : cells[i].m * Re(-(4 \div n) * Dot(k, cells[i].c)), Len(cells)),
      SumTo(LAMBDA i : cells[i].m * Im(-(4 \div n) * Dot(k, cells[i].c)), Len(cells))>>
Mass(cells) == SumTo(LAMBDA i : cells[i].m, Len(cells))

\* transform of a sum of waves a cos(k x + p pi/2), in halves
Wave(n, ws, k) ==
    <<SumTo(LAMBDA i : ws[i].a * ((IF Same(n, k, ws[i].k) THEN Re(ws[i].p) ELSE 0)
                                  + (IF Same(n, [j \in 1..3 |-> -k[j]], ws[i].k) THEN Re(-ws[i].p) ELSE 0)), Len(ws)),
      SumTo(LAMBDA i : ws[i].a * ((IF Same(n, k, ws[i].k) THEN Im(ws[i].p) ELSE 0)
                                  + (IF Same(n, [j \in 1..3 |-> -k[j]], ws[i].k) THEN Im(-ws[i].p) ELSE 0)), Len(ws))>>

Zero(k) == k = <<0, 0, 0>>
Prod(x, y) == x[1]*y[1] + x[2]*y[2]
\* 10^4 times the sum of the power of the modes in a bin
MeshPower(n, f, A, B, lo, hi) ==
    LET S == Sum(LAMBDA k : Prod(Dft(n, A, k), Dft(n, B, k)), { k \in Modes(n) : ~Zero(k) /\ InBin(f, k, lo, hi) })
    IN (10000 * S) \div (Mass(A) * Mass(B))
WavePower(n, f, A, B, lo, hi) ==     \* amplitudes in hundredths
    Sum(LAMBDA k : Prod(Wave(n, A, k), Wave(n, B, k)), { k \in Modes(n) : ~Zero(k) /\ InBin(f, k, lo, hi) }) \div 4

\* a thousand times the sum of the wavenumbers in a bin; roots[N + 1] is 1000 sqrt(N)
Wavenumbers(n, f, roots, lo, hi) ==
    Sum(LAMBDA k : roots[N2(0, k) + 1] * 2^f, { k \in Modes(n) : InBin(f, k, lo, hi) })
GoodRoots(roots) == \A i \in 1..Len(roots) : LET r == roots[i]  N == 1000000 * (i - 1) IN r * r <= N /\ N < (r + 1) * (r + 1)
=============================================================================
