------------------------------ MODULE CalcTrace -------------------------------
(* Verdicts on recorded programs.  regs: the operands at the start; every call   *)
(* says which registers it was given, whether it was refused (and whether the    *)
(* same call on the physical values is), and what its results look like: whether *)
(* they denote the result of the call on the physical values (agree) and their   *)
(* attributes.  changed: operands that were altered without being the target.    *)
EXTENDS CalcOps, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1

Args(S, o) == [i \in 1..Len(o.args) |-> S[o.args[i]]]
Fails1(t, S, o) ==
    LET A == Inputs(o.op, Args(S, o))
        agree == Agree(o.op, A) /\ Mixable(o.op, A)
        legal == agree /\ OneEpoch(A) /\ Writable(o.op, A)
    IN (IF o.changed # <<>> THEN {"inputs-unchanged"} ELSE {})
       \cup (IF o.orefused \/ ~Known(A) THEN {}   \* not defined
             ELSE (IF o.refused /\ legal THEN {"valid-combination-accepted"} ELSE {})
                  \cup (IF ~o.refused /\ ~agree THEN {"different-exponents-refused"} ELSE {})
                  \cup (IF o.refused \/ ~agree THEN {}
                        ELSE UNION { LET x == o.outs[k] e == OutE(o.op, A, o.p, o.q, k) IN
                            (IF ~x.agree THEN {"frame-independent-value"} ELSE {})
                            \cup (IF x.q /\ x.e # e THEN {"exponent-of-result"} ELSE {})
                            \cup (IF ~x.q /\ e # 0 THEN {"result-is-quantity"} ELSE {})
                            \cup (IF x.q /\ x.vt /\ ~AllVtOf(o.op, A, k) THEN {"convertible-only-if-operands-are"} ELSE {})
                            \cup (IF x.q /\ x.fr = "c" /\ ~x.vt THEN {"consistent-attributes"} ELSE {})
                            \cup (IF x.q /\ x.fr = "n" /\ (\E i \in 1..Len(A) : A[i].q /\ A[i].fr # "n") /\ ~x.bare
                                  THEN {"frame-known"} ELSE {})
                          : k \in 1..Len(o.outs) }))
\* registers from then on
After(S, o) == IF o.refused \/ o.d = 0 THEN S ELSE [S EXCEPT ![o.d] = o.outs[1]]
RECURSIVE Fold(_, _, _)
Fold(t, S, i) ==
    IF i > Len(t.ops) THEN [f |-> {}, i |-> 0]
    ELSE LET f == Fails1(t, S, t.ops[i]) IN
         IF f # {} THEN [f |-> f, i |-> i] ELSE Fold(t, After(S, t.ops[i]), i + 1)
Fails(t) == Fold(t, t.regs, 1)
Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN
         f.f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f.f), at |-> f.i]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
