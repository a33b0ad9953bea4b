------------------------------- MODULE Stencil -------------------------------
(* Depositing one kernel on one axis of a periodic image, the way the backends   *)
(* do it: the particle is moved into the first box, its copies that can reach    *)
(* the image are visited one by one, and for each the pixels the kernel can      *)
(* reach.  Eighths of pixels; a kernel w wide gives w - d to a pixel whose centre   *)
(* is d away, and everything to its own pixel when it is less than a pixel wide. *)
(* Invariant: the image holds every copy of the particle exactly once.           *)
(* Refuted: "short" last pixel left out, "copies" last copy left out, "early"    *)
(* copies behind the image not visited, "skip" kernels that reach in from the    *)
(* right skipped, "nowrap" particle not moved into the box first.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Res, Boxes, Widths, Variant, Emit
VARIABLES n, b, p, w, shift, image, done
vars == <<n, b, p, w, shift, image, done>>
Ceil(x, y) == (x + y - 1) \div y
Lo(x, y) == IF x < y THEN x ELSE y
Hi(x, y) == IF x > y THEN x ELSE y
Abs(x) == IF x < 0 THEN -x ELSE x
Whole == 1000
Single == w < 8
Weight(i, q) == IF Single THEN (IF q \div 8 = i THEN Whole ELSE 0)
                ELSE IF Abs(8 * i + 4 - q) < w THEN w - Abs(8 * i + 4 - q) ELSE 0
First == IF b = 0 THEN 0 ELSE IF Variant = "early" THEN 0 ELSE -1
Last == IF b = 0 THEN 0 ELSE IF Variant = "copies" THEN Ceil(8 * n, b) - 1 ELSE Ceil(8 * n, b)
Start(x) == IF b = 0 \/ Variant = "nowrap" THEN x ELSE x % b

Init ==
    /\ n \in Res /\ b \in Boxes /\ w \in { x \in Widths : b = 0 \/ x <= b }
    /\ p \in -19..(8 * n + 19)
    /\ shift = First /\ image = [i \in 0..(n - 1) |-> 0] /\ done = FALSE
Visit ==
    /\ ~done /\ shift <= Last
    /\ LET q == Start(p) + shift * b
           c == q \div 8
           cs == 1 + w \div 8
           max == n - 1
           reach == ~(c + cs < 0 \/ (IF Variant = "skip" THEN c > max ELSE c - cs > max))
           visited == IF ~reach THEN {} ELSE IF Single THEN { i \in 0..max : i = c }
                      ELSE Hi(0, c - cs)..(Lo(c + cs + (IF Variant = "short" THEN 0 ELSE 1), max + 1) - 1)
       IN image' = [i \in 0..(n - 1) |-> IF i \in visited THEN image[i] + Weight(i, q) ELSE image[i]]
    /\ shift' = shift + 1
    /\ UNCHANGED <<n, b, p, w, done>>
Finish == ~done /\ shift > Last /\ done' = TRUE /\ UNCHANGED <<n, b, p, w, shift, image>>
Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Copies == IF b = 0 THEN {0} ELSE -20..20
RECURSIVE SumOf(_, _)
SumOf(i, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN Weight(i, p + k * b) + SumOf(i, S \ {k})
Correct == done => \A i \in 0..(n - 1) : image[i] = SumOf(i, Copies)
NeverTooMuch == \A i \in 0..(n - 1) : image[i] <= SumOf(i, Copies)
Ends == <>done
EmitCase == (Emit /\ done /\ p % 2 = 1 /\ b % 8 = 0) =>
            PrintT("VT " \o ToJson([n |-> n, b |-> b \div 8, c |-> p \div 8, q |-> (p % 8) \div 2, w |-> w]))
=============================================================================
