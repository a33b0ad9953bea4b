-------------------------------- MODULE Tool ---------------------------------
(* The command-line tool as a state machine: it looks at all files first, then     *)
(* says what it was asked for, file by file.                                       *)
(* Refuted: "eager" answers before all files have been looked at, "last" refuses   *)
(* the last bad file, "lax" takes a file without its mark for SWIFT, "once" says   *)
(* the same thing once, "backwards" answers in reverse, "well" a refusal is a      *)
(* success.                                                                        *)
EXTENDS ToolOps, TLC, Json
CONSTANTS MaxFiles, Contents, Variant, Emit
Kind == {"swift", "absent", "unmarked", "foreign", "text"}
Modes == {"full", "z", "a", "both"}
VARIABLES files, mode, phase, at, out, code
vars == <<files, mode, phase, at, out, code>>
Files == UNION { [1..n -> [kind : Kind, id : Contents]] : n \in 1..MaxFiles }
Init == files \in Files /\ mode \in Modes /\ phase = "look" /\ at = 1 /\ out = <<>> /\ code = 0
Ok(f) == IsSwift(f) \/ (Variant = "lax" /\ f.kind = "unmarked")
Answer(i) == [what |-> Asked(mode), f |-> i]
Last(S) == CHOOSE i \in S : \A j \in S : i >= j
Look ==
    /\ phase = "look" /\ at <= Len(files) /\ Ok(files[at])
    /\ at' = at + 1
    /\ out' = (IF Variant = "eager" THEN Append(out, Answer(at)) ELSE out)
    /\ UNCHANGED <<files, mode, phase, code>>
Refuse ==
    /\ phase = "look" /\ at <= Len(files) /\ ~Ok(files[at])
    /\ out' = Append(out, [what |-> "refused", f |-> IF Variant = "last" THEN Last(Refused(files)) ELSE at])
    /\ code' = (IF Variant = "well" THEN 0 ELSE 1)
    /\ phase' = "done" /\ UNCHANGED <<files, mode, at>>
Looked ==
    /\ phase = "look" /\ at > Len(files)
    /\ phase' = (IF Variant = "eager" THEN "done" ELSE "say") /\ at' = 1
    /\ UNCHANGED <<files, mode, out, code>>
Said1(i) == \E j \in DOMAIN out : files[out[j].f] = files[i]
Say ==
    /\ phase = "say" /\ at <= Len(files)
    /\ LET i == IF Variant = "backwards" THEN Len(files) + 1 - at ELSE at IN
       out' = (IF Variant = "once" /\ Said1(i) THEN out ELSE Append(out, Answer(i)))
    /\ at' = at + 1 /\ UNCHANGED <<files, mode, phase, code>>
Finish == phase = "say" /\ at > Len(files) /\ phase' = "done" /\ UNCHANGED <<files, mode, at, out, code>>
Next == Look \/ Refuse \/ Looked \/ Say \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Correct == phase = "done" => [code |-> code, out |-> out] = Verdict(files, mode)
\* whatever has been said so far is part of what is to be said
NothingEarly == Len(out) <= Len(Verdict(files, mode).out) /\ out = SubSeq(Verdict(files, mode).out, 1, Len(out))
Ends == <>(phase = "done")
EmitCase == (Emit /\ phase = "look" /\ at = 1) => PrintT("VT " \o ToJson([files |-> files, mode |-> mode]))
=============================================================================
