----------------------------- MODULE WriterTrace ------------------------------
(* Verdicts on recorded histories of a real writer.  One line is one writer: its *)
(* types, and the sequence of assignments, deletions, generations of smoothing   *)
(* lengths and writes, with what was observed after each.                        *)
EXTENDS WriterOps, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1

Slot(x) == [rows |-> x.rows, n |-> x.n, w |-> x.w, e |-> x.e]

\* would the assignment have to be accepted / refused
MustRefuse(o) == o.kind \in {"dims", "scale", "plain"} \/ (o.f = IDS /\ ~ValidIds(o.val))
MayRefuse(o) == MustRefuse(o) \/ o.kind = "novt"

\* smoothing lengths from the mean separation: 2 box / root, root^dim = rows
Gen(t, sl) == LET n == sl[1].n
                  r == CHOOSE r \in 0..20 : r ^ t.dim = n
                  v == (2 * t.box[1]) \div (IF r = 0 THEN 1 ELSE r)
              IN [rows |-> [i \in 1..n |-> v], n |-> n, w |-> 0, e |-> 4]
CanGen(t, k, sl) == 4 \in Required(k) /\ Is(sl[1]) /\ \A i, j \in 1..Len(t.box) : t.box[i] = t.box[j]

After(t, S, o) ==
    CASE o.op = "set" -> IF o.ok THEN [S EXCEPT ![o.t][o.f] = Slot(o.val)] ELSE S
      [] o.op = "del" -> [S EXCEPT ![o.t][o.f] = NONE]
      [] o.op = "gen" -> IF CanGen(t, t.kinds[o.t], S[o.t]) THEN [S EXCEPT ![o.t][4] = Gen(t, S[o.t])] ELSE S
      [] o.op = "write" ->   \* identifiers generated for all types are kept
           IF o.ok /\ ~AllHaveIds(S, Used(S, t.kinds))
           THEN [x \in DOMAIN S |-> IF x \in Used(S, t.kinds)
                                    THEN [S[x] EXCEPT ![IDS] = [rows |-> o.file[x].ids, n |-> Len(o.file[x].ids), w |-> 0, e |-> 0]]
                                    ELSE S[x]]
           ELSE S
      [] OTHER -> S

Same(x, y) == x.n = y.n /\ x.w = y.w /\ x.rows = y.rows /\ (x.n > 0 => x.e = y.e)

FileFails(t, S, o) ==
    LET T == Used(S, t.kinds) IN
    IF \E x \in DOMAIN S : (x \in T /\ Rows(S, x) > 0) # o.file[x].present THEN {"types-present"}
    ELSE
      (IF \E x \in T : o.file[x].present /\ \E f \in Required(t.kinds[x]) \ {IDS} : ~Same(o.file[x].fields[f], S[x][f])
       THEN {"fields-read-back"} ELSE {})
      \cup (IF IdsOk(S, t.kinds, [x \in T |-> o.file[x].ids]) THEN {}
            ELSE IF AllHaveIds(S, T) THEN {"user-ids-unchanged"} ELSE {"generated-ids-valid"})
      \cup (IF \E x \in DOMAIN S : o.head.num[x] # (IF x \in T THEN Rows(S, x) ELSE 0) THEN {"header-counts"} ELSE {})
      \cup (IF \E x \in T : Rows(S, x) > 0 /\ o.head.mass[x] # S[x][3].rows[1] THEN {"header-masses"} ELSE {})
      \cup (IF o.head.box # t.box \/ o.head.dim # t.dim \/ o.head.other # 0 \/ ~o.head.a THEN {"header-box"} ELSE {})

OpFails(t, S, o) ==
    LET T == Used(S, t.kinds) IN
    CASE o.op = "set" ->
           (IF o.ok /\ MustRefuse(o) THEN {"inconsistent-assignment-refused"} ELSE {})
           \cup (IF ~o.ok /\ ~MayRefuse(o) THEN {"consistent-assignment-accepted"} ELSE {})
           \cup (IF ~o.same THEN {"inputs-unchanged"} ELSE {})
           \cup (IF Same(o.obs, After(t, S, o)[o.t][o.f]) THEN {}
                 ELSE IF o.ok THEN {"assigned-value-kept"} ELSE {"refused-keeps-previous"})
      [] o.op = "del" -> IF Is(o.obs) THEN {"deleted-is-gone"} ELSE {}
      [] o.op = "gen" ->
           (IF o.ok # CanGen(t, t.kinds[o.t], S[o.t]) THEN {"smoothing-lengths-generated"} ELSE {})
           \cup (IF 4 \in Required(t.kinds[o.t]) /\ ~Same(o.obs, After(t, S, o)[o.t][4])
                 THEN {"smoothing-lengths-generated"} ELSE {})
      [] o.op = "write" ->
           IF T = {} THEN {}
           ELSE IF o.ok # CanWrite(S, t.kinds)
           THEN IF o.ok THEN {"inconsistent-write-refused"} ELSE {"consistent-write-accepted"}
           ELSE IF o.ok THEN FileFails(t, S, o)
           ELSE IF o.exists THEN {"refused-write-leaves-no-file"} ELSE {}
      [] OTHER -> {}

RECURSIVE Fold(_, _, _)
Fold(t, S, i) ==
    IF i > Len(t.ops) THEN {}
    ELSE LET f == OpFails(t, S, t.ops[i]) IN
         IF f # {} THEN f    \* later observations depend on this one
         ELSE Fold(t, After(t, S, t.ops[i]), i + 1)

Fails(t) == IF t.exc # "" THEN {"no-unexpected-error"}
            ELSE Fold(t, [x \in 1..Len(t.kinds) |-> Unset], 1)
Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN
         f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
