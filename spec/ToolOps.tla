------------------------------- MODULE ToolOps -------------------------------
(* What the command-line tool says about a list of files: nothing but the first    *)
(* file that is no SWIFT file, and failure, if there is one; otherwise one answer  *)
(* per file in the order given, and success.                                       *)
EXTENDS Naturals, Sequences, FiniteSets
IsSwift(f) == f.kind = "swift"
Refused(fs) == { i \in DOMAIN fs : ~IsSwift(fs[i]) }
Lowest(S) == CHOOSE i \in S : \A j \in S : i <= j
\* asking for the redshift and the scale factor gives the redshift
Asked(mode) == IF mode = "both" THEN "z" ELSE mode
Verdict(fs, mode) ==
    IF Refused(fs) # {} THEN [code |-> 1, out |-> <<[what |-> "refused", f |-> Lowest(Refused(fs))]>>]
    ELSE [code |-> 0, out |-> [i \in DOMAIN fs |-> [what |-> Asked(mode), f |-> i]]]
\* ---- the text of an answer, blanks left out ------------------------------------
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
RECURSIVE Active(_)
Active(p) == IF p = <<>> THEN <<>> ELSE (IF p[1].on THEN <<p[1].n>> ELSE <<>>) \o Active(Tail(p))
Kinds == <<"Gas", "DarkMatter", "Boundary", "Sinks", "Stars", "BlackHoles", "Neutrinos", "Sidm">>
Run(f) == f.run \o "Writtenat:" \o f.date
Policies(f) == "Activepolicies:" \o Join(Active(f.policies), ",")
Type(f) == "Outputtype:" \o f.type \o ",Outputselection:" \o f.sel
Numbers(f) == "Numberofparticles:" \o Join([i \in 1..8 |-> Kinds[i] \o ":" \o f.nums[i]], ",")
Code(f) == f.comp \o "(" \o f.compv \o ")" \o f.mpi \o "SWIFT(" \o f.branch \o ")" \o f.rev \o f.gdate
State(f) == "Simulationstate:z=" \o f.z \o ",a=" \o f.a \o ",t=" \o f.t
Cosmo(f) == "Cosmology:" \o (IF f.cosmo THEN "some" ELSE "None")
Physics(f) == "Gravityscheme:" \o f.grav \o "Hydrodynamicsscheme:" \o f.hydro
Sub(f) == Join([i \in DOMAIN f.sub |-> f.sub[i].n \o ":" \o f.sub[i].v], "")
Parts(f) == <<Run(f), Policies(f), Type(f), Numbers(f), Code(f), State(f), Cosmo(f), Physics(f), Sub(f)>>
Said(what, f) ==
    CASE what = "refused" -> f.name \o "isnotaSWIFTsnapshot."
      [] what = "z" -> f.z
      [] what = "a" -> f.a
      [] what = "full" -> Join(Parts(f), "")
=============================================================================
