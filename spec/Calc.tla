-------------------------------- MODULE Calc ----------------------------------
(* Implementation-shaped model of arithmetic on quantities with frames: operands *)
(* are brought to a common frame, the exponents are combined by the rule of the  *)
(* operation, the operation is done on the stored numbers and the frame,         *)
(* exponent and convertibility are attached to the result (in place: to the      *)
(* target).  phys is the physical value each register has to denote.             *)
EXTENDS CalcOps, TLC, Json
CONSTANTS N, Depth, Variant, Emit
\* Variant: "code" | "no-convert" | "convert-wrong-way" | "exponent-of-first" | "any-vt" | "target-keeps-frame"
VARIABLES r, phys, last, hist
vars == <<r, phys, last, hist>>
View == <<r, phys, last, Len(hist)>>
R == 1..N
ONE == 64                                   \* fixed point; the scale factor is 1/2
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
\* v times (1/2)^k
Half(v, k) == IF k >= 0 THEN v \div P2(k) ELSE v * P2(-k)
Store(v, e, fr) == IF fr = "c" THEN Half(v, -e) ELSE v
Denotes(x) == IF x.fr = "c" THEN Half(x.v, x.e) ELSE x.v
Quantity(v, e, fr, vt) == [q |-> TRUE, e |-> e, fr |-> fr, vt |-> vt, s |-> 1, v |-> Store(v, e, fr)]
Number(v) == [q |-> FALSE, e |-> 0, fr |-> "n", vt |-> TRUE, s |-> 0, v |-> v]
Frames == { <<"c", TRUE>>, <<"p", TRUE>>, <<"p", FALSE>> }
Init ==
    /\ phys \in [R -> {ONE, 2 * ONE, 4 * ONE}]
    /\ r \in { f \in [R -> { Quantity(v, e, fv[1], fv[2]) : v \in {ONE, 2 * ONE, 4 * ONE}, e \in {-1, 0, 1}, fv \in Frames }
                            \cup { Number(2 * ONE) }] :
               \A i \in R : Denotes(f[i]) = phys[i] /\ (i = 1 => f[i].q) }
    /\ last = [op |-> "init", bad |-> FALSE]
    /\ hist = << [op |-> "init", x |-> [i \in R |-> [q |-> r[i].q, e |-> r[i].e, fr |-> r[i].fr, vt |-> r[i].vt, v |-> phys[i] \div ONE]]] >>

To(x, fr) == IF ~x.q \/ x.fr = fr THEN x ELSE [x EXCEPT !.fr = fr, !.v = Store(Denotes(x), x.e, fr)]
Prep(A) ==
    LET Q == { i \in DOMAIN A : A[i].q } frs == { A[i].fr : i \in Q } IN
    IF Cardinality(frs) < 2 \/ Variant = "no-convert" THEN A
    ELSE IF \A i \in Q : A[i].vt THEN [i \in DOMAIN A |-> To(A[i], "c")]
    ELSE IF Variant = "convert-wrong-way" THEN A
    ELSE [i \in DOMAIN A |-> To(A[i], "p")]
FrameOf(A) == LET Q == { i \in DOMAIN A : A[i].q } IN
    IF Q = {} THEN "n"
    ELSE IF Cardinality({ A[i].fr : i \in Q }) = 1 THEN A[CHOOSE i \in Q : TRUE].fr
    ELSE IF \A i \in Q : A[i].vt THEN "c" ELSE "p"

F(op, a, b) ==
    CASE op = "add" -> a + b [] op = "subtract" -> a - b
      [] op = "multiply" -> (a * b) \div ONE [] op = "divide" -> (a * ONE) \div b
      [] op = "maximum" -> IF a > b THEN a ELSE b
      [] op = "less" -> IF a < b THEN 1 ELSE 0 [] op = "equal" -> IF a = b THEN 1 ELSE 0
Exact(op, i, j) == (op = "divide" => phys[j] > 0 /\ (phys[i] * ONE) % phys[j] = 0)
\* additive operations of quantities with plain numbers are not specified
Specified(op, i, j) == ~(op \in Same \cup SameNone /\ r[i].q # r[j].q)

Bin(op, i, j, d) ==
    /\ r[i].q \/ r[j].q
    /\ Specified(op, i, j) /\ Exact(op, i, j)
    /\ LET A == <<r[i], r[j]>>  B == Prep(A)
           refuse == ~Agree(op, A) /\ Variant # "exponent-of-first"
           e == OutE(op, A, 1, 1, 1)
           v == F(op, B[1].v, B[2].v)
           fr == IF Variant = "target-keeps-frame" /\ d = i THEN r[i].fr ELSE FrameOf(A)
           vt == IF Variant = "any-vt" THEN (A[1].vt \/ A[2].vt) ELSE AllVt(A)
           x == [q |-> TRUE, e |-> e, fr |-> fr, vt |-> vt, s |-> 1, v |-> v]
           p == F(op, phys[i], phys[j])
       IN /\ hist' = Append(hist, [op |-> op, i |-> i, j |-> j, d |-> d])
          /\ IF refuse THEN last' = [op |-> op, bad |-> Agree(op, A)] /\ UNCHANGED <<r, phys>>
             ELSE IF op \in SameNone
             THEN last' = [op |-> op, bad |-> v # p \/ ~Agree(op, A)] /\ UNCHANGED <<r, phys>>
             ELSE /\ r' = [r EXCEPT ![d] = x] /\ phys' = [phys EXCEPT ![d] = p]
                  /\ last' = [op |-> op, bad |-> ~Agree(op, A) \/ ~Sound(x, A, e)]
Convert(i, fr) ==
    /\ r[i].q /\ (fr = "c" => r[i].vt)
    /\ r' = [r EXCEPT ![i] = To(r[i], fr)]
    /\ hist' = Append(hist, [op |-> "frame" \o fr, i |-> i, j |-> i, d |-> i])
    /\ last' = [op |-> "frame", bad |-> FALSE] /\ UNCHANGED phys
Small(x, p) == p \in (-16 * ONE)..(16 * ONE) /\ p % 8 = 0 /\ x.e \in -3..3
Next ==
    /\ Len(hist) <= Depth
    /\ \/ \E op \in {"add", "subtract", "multiply", "divide", "maximum", "less", "equal"}, i \in R, j \in R, d \in R : Bin(op, i, j, d)
       \/ \E i \in R, fr \in {"c", "p"} : Convert(i, fr)
    /\ \A i \in R : Small(r'[i], phys'[i])
Spec == Init /\ [][Next]_vars
DenotesPhys == \A i \in R : Denotes(r[i]) = phys[i]
NothingBad == ~last.bad
Consistent == \A i \in R : r[i].q => (r[i].fr = "c" => r[i].vt)
EmitStep == Emit => PrintT("VT " \o ToJson(hist'))
=============================================================================
