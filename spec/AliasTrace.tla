------------------------------ MODULE AliasTrace ------------------------------
(* Verdicts on recorded programs: regs registers; every call names the registers *)
(* it was given, its kind, its target or destination, the registers whose memory *)
(* the result may use (from), the register whose very array it may be (is), and  *)
(* those whose value (val) or attributes (att)    *)
(* were different afterwards.                                                    *)
EXTENDS AliasOps, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Fails1(o, own, obj) ==
    LET bad == (Rng(o.val) \ MayVal(own, o.kind, o.d)) \cup (Rng(o.att) \ MayAtt(obj, o.kind, o.d)) IN
    IF bad = {} THEN {}
    ELSE IF o.kind = "write" /\ o.poke THEN {"result-is-independent"}
    ELSE IF o.kind = "write" THEN {"only-target-changes"} ELSE {"inputs-unchanged"}
RECURSIVE Fold(_, _, _, _)
Fold(t, own, obj, i) ==
    IF i > Len(t.ops) THEN [f |-> {}, i |-> 0]
    ELSE LET o == t.ops[i]
             f == Fails1(o, own, obj) IN
         IF f # {} THEN [f |-> f, i |-> i] ELSE Fold(t, After(own, o.kind, Rng(o.from), o.d, t.regs + i), AfterObj(obj, o.kind, o.is, o.d, t.regs + i), i + 1)
Fails(t) == Fold(t, [i \in 1..t.regs |-> {i}], [i \in 1..t.regs |-> i], 1)
Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN
         f.f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f.f), at |-> f.i]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
