------------------------------ MODULE ToolTrace ------------------------------
(* Verdicts on recorded runs of the command-line tool and of validate_file.        *)
(* Run: t.files (facts of each), t.mode, t.said (what was written, blanks left     *)
(* out), t.code, t.wide (longest line of the paragraphs that are wrapped).         *)
(* Validation: t.files[1], t.how, t.yes, t.refused, t.usable (the handle given is  *)
(* still open, or the file can be opened for writing afterwards).                  *)
EXTENDS ToolOps, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
FailsRun(t) ==
    LET v == Verdict(t.files, t.mode)
        want == Join([i \in DOMAIN v.out |-> Said(v.out[i].what, t.files[v.out[i].f])], IF v.out[1].what \in {"z", "a"} THEN "\n" ELSE "") IN
    (IF t.exc # "" THEN {"ends-normally"} ELSE {})
    \cup (IF t.exc = "" /\ t.code # v.code THEN {"status-says-whether-all-are-swift-files"} ELSE {})
    \cup (IF t.exc = "" /\ t.said # want
          THEN {IF v.code = 1 THEN "first-other-file-is-named" ELSE IF v.out[1].what = "full" THEN "summary-tells-what-the-files-state" ELSE "one-value-per-file-in-order"}
          ELSE {})
    \cup (IF t.exc = "" /\ t.wide > 80 THEN {"wrapped-at-80"} ELSE {})
    \cup (IF ~t.usable THEN {"nothing-left-open"} ELSE {})
FailsValid(t) ==
    LET ok == IsSwift(t.files[1]) IN
    (IF ok /\ ~t.yes THEN {"swift-file-accepted"} ELSE {})
    \cup (IF ~ok /\ ~t.refused THEN {"other-file-refused"} ELSE {})
    \cup (IF ~t.usable THEN {"nothing-left-open"} ELSE {})
Fails(t) == IF t.op = "run" THEN FailsRun(t) ELSE FailsValid(t)
Next ==
    /\ l <= Len(Trace)
    /\ LET f == Fails(Trace[l]) IN f # {} => PrintT("VT " \o ToJson([id |-> l, fails |-> SetToSeq(f)]))
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
