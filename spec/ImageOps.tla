------------------------------ MODULE ImageOps -------------------------------
(* What a gridded image of particles is (properties V01, V02).                   *)
(* Coordinates are hundredths of a pixel.  A kernel is a stencil: the share of    *)
(* the weight (in millionths) that a particle at a given place inside its pixel   *)
(* leaves in that pixel and in its neighbours.  An image is the sum of the        *)
(* stencils of the particles and, in a periodic box, of all their copies.         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
PixelOf(x) == x \div 100          \* floor, also below zero
Inside(x) == x % 100


\* offsets from which pixel i sees a particle in pixel c or one of its copies every b pixels
Along(i, c, b, H) == { d \in (-H)..H : IF b = 0 THEN i - c = d ELSE (i - c - d) % b = 0 }
\* distances (in hundredths of a pixel, at most lim) of the copies from a plane
Depths(z, plane, b, lim) ==
    LET d == z - plane IN
    { x \in 0..lim : IF b = 0 THEN Abs(d) = x ELSE (d - x) % (100 * b) = 0 \/ (d + x) % (100 * b) = 0 }

\* rotation by a signed permutation matrix about a centre
Turn(R, c, x) == [ i \in 1..3 |-> c[i] + R[i][1] * (x[1] - c[1]) + R[i][2] * (x[2] - c[2]) + R[i][3] * (x[3] - c[3]) ]

\* pixels along an axis of a region r long, when the longest is `long` and has n pixels
Pixels(n, r, long) == (n * r + long - 1) \div long

\* is z in the slab, in a box b pixels deep (0: not periodic)
InSlab(z, lo, hi, b) ==
    IF b = 0 THEN lo <= z /\ z <= hi
    ELSE LET B == 100 * b IN hi - lo >= B \/ (z - lo) % B <= hi - lo
=============================================================================
