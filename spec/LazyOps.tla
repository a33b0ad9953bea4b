------------------------------- MODULE LazyOps -------------------------------
(* Loaded datasets: fields are read from disk on first access, kept, overridden *)
(* by assignment and re-read after deletion (property D01).                      *)
(*                                                                               *)
(* State: ver    version of the file's content (every rewrite is a new version)  *)
(*        msel   rows currently selected by the mask, one set per group          *)
(*        ds     loaded datasets: sel (rows fixed at load) and slot contents     *)
(* A slot content is NONE, [kind "disk", ver, muts, tok] or [kind "user", tok];   *)
(* muts counts in-place changes made to that array by its user, tok is the       *)
(* identity of the array object.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets
NONE == [kind |-> "none", ver |-> 0, muts |-> 0, tok |-> 0]

Start(nfields, sel) == [ver |-> 1, msel |-> sel, ds |-> <<>>, next |-> 1, n |-> nfields]

\* allrows: per group, the rows of the file; groupOf: group of each field slot
Apply(allrows, st, e) ==
    CASE e.op = "rewrite" -> [st EXCEPT !.ver = @ + 1]
      [] e.op = "mask"    -> [st EXCEPT !.msel = e.sel]
      [] e.op = "load"    -> [st EXCEPT !.ds = Append(@,
                                 [sel |-> IF e.masked THEN st.msel ELSE allrows,
                                  slot |-> [f \in 1..st.n |-> NONE]])]
      [] e.op = "assign"  -> [st EXCEPT !.ds[e.d].slot[e.f] =
                                 [kind |-> "user", ver |-> 0, muts |-> 0, tok |-> e.tok]]
      [] e.op = "delete"  -> [st EXCEPT !.ds[e.d].slot[e.f] = NONE]
      [] e.op = "mutate"  -> [st EXCEPT !.ds[e.d].slot[e.f].muts = @ + 1]
      [] e.op = "read"    -> IF st.ds[e.d].slot[e.f] # NONE THEN st
                             ELSE [st EXCEPT !.ds[e.d].slot[e.f] =
                                 [kind |-> "disk", ver |-> st.ver, muts |-> 0, tok |-> e.tok]]
      [] OTHER -> st

\* what a read must return, given the state before it
Cached(st, e) == st.ds[e.d].slot[e.f] # NONE
ReadVer(st, e) == IF Cached(st, e) THEN st.ds[e.d].slot[e.f].ver ELSE st.ver
ReadMuts(st, e) == IF Cached(st, e) THEN st.ds[e.d].slot[e.f].muts ELSE 0
=============================================================================
