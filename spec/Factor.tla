-------------------------------- MODULE Factor --------------------------------
(* Registers holding dependences, under every operation.  Beside each register    *)
(* its form: how often each atom (initial register) enters it, and which do.      *)
(* Refuted: "adds" quotients add exponents, "mixed" scale factors are not         *)
(* compared, "zero" unknown dependences count as none, "value" sums compare the   *)
(* conversion factors only, "inplace" the left operand becomes the result, "once" *)
(* powers of one half leave the exponent.                                         *)
EXTENDS FactorOps, Json
CONSTANTS Exponents, Scales, Powers, Depth, Variant, Emit
Pows == { p - 100 : p \in Powers }      \* no negative numbers in configurations
Exps == { e - 100 : e \in Exponents }
Regs == 1..2
VARIABLES reg, atom, form, from, n, hist, lastSum
vars == <<reg, atom, form, from, n, hist, lastSum>>
Deps == { Unknown(s) : s \in Scales } \cup { Known(e, s) : e \in Exps, s \in Scales }
Init ==
    /\ reg \in [Regs -> Deps] /\ atom = reg
    /\ form = [i \in Regs |-> [j \in Regs |-> IF i = j THEN One ELSE 0]]
    /\ from = [i \in Regs |-> {i}]
    /\ n = 0 /\ hist = <<>> /\ lastSum = <<>>
MayTake(op, x, y) ==
    CASE Variant = "mixed" -> x.known = y.known
      [] Variant = "zero" -> x.s = y.s
      [] Variant = "value" /\ op = "add" -> x.s = y.s /\ x.known = y.known /\ (~x.known \/ LogS(x.s) * x.e = LogS(y.s) * y.e)
      [] OTHER -> Takes(op, x, y)
Result(op, x, y) ==
    IF Variant = "zero" THEN Known(SumOf(op, x, y), x.s)
    ELSE IF Variant = "adds" /\ op = "div" /\ x.known THEN Known(x.e + y.e, x.s)
    ELSE Both(op, x, y)
Forms(op, x, y) == [j \in Regs |-> IF op = "mul" THEN form[x][j] + form[y][j] ELSE IF op = "div" THEN form[x][j] - form[y][j] ELSE form[x][j]]
Binary(op, x, y, d) ==
    /\ hist' = Append(hist, [op |-> op, x |-> x, y |-> y, d |-> d, p |-> 0])
    /\ IF MayTake(op, reg[x], reg[y])
       THEN LET r == Result(op, reg[x], reg[y]) IN
            /\ reg' = (IF Variant = "inplace" THEN [reg EXCEPT ![d] = r, ![x] = r] ELSE [reg EXCEPT ![d] = r])
            /\ form' = [form EXCEPT ![d] = Forms(op, x, y)]
            /\ from' = [from EXCEPT ![d] = from[x] \cup from[y]]
            /\ lastSum' = (IF op = "add" THEN << form[x], form[y] >> ELSE <<>>)
       ELSE UNCHANGED <<reg, form, from>> /\ lastSum' = <<>>
    /\ UNCHANGED atom
Power(x, p, d) ==
    /\ Whole(reg[x].e, p) /\ \A j \in Regs : Whole(form[x][j], p)
    /\ hist' = Append(hist, [op |-> "pow", x |-> x, y |-> x, d |-> d, p |-> p])
    /\ reg' = [reg EXCEPT ![d] = IF Variant = "once" /\ p = 24 THEN reg[x] ELSE Raised(reg[x], p)]
    /\ form' = [form EXCEPT ![d] = [j \in Regs |-> (form[x][j] * p) \div One]]
    /\ from' = [from EXCEPT ![d] = from[x]]
    /\ lastSum' = <<>> /\ UNCHANGED atom
Next ==
    /\ n < Depth /\ n' = n + 1
    /\ \/ \E op \in {"mul", "div", "add"}, x, y, d \in Regs : Binary(op, x, y, d)
       \/ \E x, d \in Regs, p \in Pows : Power(x, p, d)
Spec == Init /\ [][Next]_vars
Value(f) == (f[1] * atom[1].e + f[2] * atom[2].e) \div One
\* every register is what arithmetic with exponents gives
Exact == \A i \in Regs : (reg[i].known /\ \A j \in from[i] : atom[j].known) => reg[i].e = Value(form[i])
\* it is known iff all that entered it was, and all of that was at its scale factor
Sound == \A i \in Regs : \A j \in from[i] : atom[j].known = reg[i].known /\ atom[j].s = reg[i].s
Alike == (lastSum # <<>> /\ \A j \in Regs : atom[j].known) => Value(lastSum[1]) = Value(lastSum[2])
Kept == [][\A i \in Regs : i # hist'[Len(hist')].d => reg'[i] = reg[i]]_vars
EmitPath == (Emit /\ n = Depth) => PrintT("VT " \o ToJson([atom |-> atom, hist |-> hist]))
=============================================================================
