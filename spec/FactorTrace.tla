----------------------------- MODULE FactorTrace ------------------------------
(* Verdicts on recorded histories of dependences (property C05).                  *)
(* t.atoms: initial registers; t.steps: [op, x, y, d, p, ok, err, got, after,     *)
(* bools, given]; after: every register as observed after the step:               *)
(* [known, e (of the expression), s, f (exponent of the conversion factor),       *)
(* hasf, z (redshift right)].                                                     *)
EXTENDS FactorOps, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Plain(o) == [known |-> o.known, e |-> o.e, s |-> o.s]
Seen(o) ==
    (IF o.known /\ o.s # 0 THEN (IF ~o.hasf \/ o.f # (IF o.s = 1 THEN 0 ELSE o.e) THEN {"conversion-factor-is-the-power"} ELSE {})
     ELSE IF o.hasf THEN {"no-factor-without-dependence"} ELSE {})
    \cup (IF o.z THEN {} ELSE {"redshift-of-scale-factor"})
Copies == {"copy", "deepcopy", "pickle"}
Two == {"mul", "div", "add", "sub"}
Accepts(st, R) ==
    CASE st.op \in Two -> Takes(st.op, R[st.x], R[st.y])
      [] st.op = "alien" -> FALSE
      [] st.op = "build" -> Same(R[st.x], Known(st.p, st.given))
      [] st.op = "half" -> FALSE
      [] st.op = "order" -> Ordered(R[st.x], R[st.y])
      [] OTHER -> TRUE
Gives(st, R) ==
    CASE st.op \in Two -> Both(st.op, R[st.x], R[st.y])
      [] st.op = "pow" -> Raised(R[st.x], st.p)
      [] st.op \in Copies -> R[st.x]
      [] st.op = "create" -> Known(st.p, st.given)
      [] st.op = "build" -> R[st.x]
Makes == Two \cup Copies \cup {"pow", "create", "build"}
Fits(b, below, ifBelow, ifAbove) == CASE below = "yes" -> b = ifBelow [] below = "no" -> b = ifAbove [] below = "open" -> TRUE
Judged(st, R) ==
    CASE st.op \in Makes -> IF Same(Plain(st.got), Gives(st, R)) THEN Seen(st.got) ELSE {"exponent-of-result"}
      [] st.op = "equal" -> IF st.bools = << Same(R[st.x], R[st.y]), ~Same(R[st.x], R[st.y]) >> THEN {} ELSE {"equality-of-dependences"}
      [] st.op = "order" ->
            LET d == Below(R[st.x], R[st.y]) IN
            IF Fits(st.bools[1], d, TRUE, FALSE) /\ Fits(st.bools[2], d, FALSE, TRUE) /\ Fits(st.bools[3], d, TRUE, FALSE) /\ Fits(st.bools[4], d, FALSE, TRUE)
            THEN {} ELSE {"order-of-factors"}
Step(st, R) ==
    LET must == Accepts(st, R)
        next == IF st.ok /\ must /\ st.op \in Makes THEN [R EXCEPT ![st.d] = Gives(st, R)] ELSE R
    IN [ next |-> next,
         fails |-> (IF st.ok /\ ~must THEN {"refuses"} ELSE IF ~st.ok /\ must THEN {"accepts"} ELSE IF ~st.ok THEN {} ELSE Judged(st, R))
                   \cup (IF \A i \in 1..Len(R) : (i = st.d /\ st.op \in Makes) \/ Same(Plain(st.after[i]), next[i]) THEN {} ELSE {"operands-kept"}) ]
RECURSIVE Run(_, _, _)
\* stop at the first step that fails: what follows has no meaning
Run(t, k, R) ==
    IF k > Len(t.steps) THEN [at |-> 0, fails |-> {}]
    ELSE LET s == Step(t.steps[k], R) IN IF s.fails # {} THEN [at |-> k, fails |-> s.fails] ELSE Run(t, k + 1, s.next)
Next ==
    /\ l <= Len(Trace)
    /\ LET t == Trace[l]
           bad == UNION { Seen(o) : o \in {t.first[i] : i \in 1..Len(t.first)} }
                  \cup (IF \A i \in 1..Len(t.first) : Same(Plain(t.first[i]), t.atoms[i]) THEN {} ELSE {"exponent-of-result"})
           v == IF bad # {} THEN [at |-> 0, fails |-> bad] ELSE Run(t, 1, t.atoms)
       IN v.fails # {} => PrintT("VT " \o ToJson([id |-> l, at |-> v.at, fails |-> SetToSeq(v.fails)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
