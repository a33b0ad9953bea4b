------------------------------ MODULE FrameOps -------------------------------
(* What a conversion may do to an array.  A frame is "c" (comoving), "p"         *)
(* (physical) or "n" (unknown).  Arrays that share memory form a class: changing *)
(* one of them in place leaves the others of the class unspecified, and must     *)
(* leave every other array alone.                                                *)
EXTENDS Integers, Sequences, FiniteSets
CanFrame(x, fr) == x.fr # "n" /\ (fr = "c" => x.vt \/ x.fr = "c")
Consistent(x) == (x.fr = "n" => ~x.vt) /\ (~x.vt => x.fr # "c")
=============================================================================
