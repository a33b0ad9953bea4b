------------------------------- MODULE Handles -------------------------------
(* Providers as in the code: every object keeps a reference to some handle (open *)
(* or not), `open_file` yields it if open and otherwise opens the file for the   *)
(* duration of the call; `load`/`mask`/`validate` on a path open it for the call. *)
(* Any call may raise at any point where the file is open.                       *)
EXTENDS HandleOps, TLC, Json
CONSTANTS MaxObjs, MaxGen, MaxLen, Leaky, Emit

VARIABLES abs, open, ref, nh, opens, used, fine, hist
\* open: set of open handle ids; ids <= 0 .. ; user's handles are <<"u", gen>>,
\* the library's <<"l", n>>; ref: per object, the handle kept; opens: handles opened
\* by the last call; used: handle through which the last call read
vars == <<abs, open, ref, nh, opens, used, fine, hist>>

Init == abs = Start /\ open = {} /\ ref = <<>> /\ nh = 0 /\ opens = 0 /\ used = <<>> /\ fine = TRUE /\ hist = <<>>
U == <<"u", abs.gen>>
L == <<"l", nh + 1>>
Log(e) == hist' = IF Emit THEN Append(hist, e) ELSE hist

UOpen == /\ ~abs.uopen /\ abs.gen < MaxGen
         /\ LET e == [op |-> "uopen"] IN abs' = Apply(abs, e) /\ Log(e)
         /\ open' = open \cup {<<"u", abs.gen + 1>>}
         /\ opens' = 0 /\ used' = <<>> /\ fine' = TRUE /\ UNCHANGED <<ref, nh>>
UClose == /\ abs.uopen
          /\ LET e == [op |-> "uclose"] IN abs' = Apply(abs, e) /\ Log(e)
          /\ open' = open \ {U}
          /\ opens' = 0 /\ used' = <<>> /\ fine' = TRUE /\ UNCHANGED <<ref, nh>>

\* load, mask, validate: with open_path_or_handle(...)
Make ==
    \E op \in {"load", "mask", "validate"}, via \in {"path", "handle"}, fail \in BOOLEAN :
        /\ via = "handle" => abs.uopen
        /\ Len(ref) < MaxObjs
        /\ LET e == [op |-> op, via |-> via, fail |-> fail]
               h == IF via = "handle" THEN U ELSE L
           IN /\ abs' = Apply(abs, e) /\ Log(e)
              /\ nh' = IF via = "path" THEN nh + 1 ELSE nh
              /\ opens' = IF via = "path" THEN 1 ELSE 0
              /\ used' = <<h>>
              /\ fine' = (opens' > 0 => MayOpen(abs, e))
              \* closed when the with block ends, raising or not (Leaky: not when raising)
              /\ open' = IF via = "path" /\ Leaky /\ fail THEN open \cup {h} ELSE open
              /\ ref' = IF fail \/ op = "validate" THEN ref ELSE Append(ref, h)

\* read a field, constrain a mask, write a subset: with open_file()
Through(op, o, f, fail, need) ==
    LET e == [op |-> op, o |-> o, f |-> f, fail |-> fail]
        byref == ref[o] \in open
    IN /\ abs' = (IF fail THEN abs ELSE Apply(abs, e)) /\ Log(e)
       /\ nh' = IF need /\ ~byref THEN nh + 1 ELSE nh
       /\ opens' = IF need /\ ~byref THEN 1 ELSE 0
       /\ used' = IF ~need THEN <<>> ELSE IF byref THEN <<ref[o]>> ELSE <<L>>
       /\ fine' = (opens' > 0 => MayOpen(abs, e))
       /\ UNCHANGED <<open, ref>>

Use == \E o \in 1..Len(ref) :
    \/ abs.objs[o].kind = "data" /\ \E f \in {1, 2} : Through("read", o, f, FALSE, f \notin abs.objs[o].have)
    \/ abs.objs[o].kind = "mask" /\ \E op \in {"constrain", "subset"}, fail \in BOOLEAN :
           Through(op, o, 0, fail, TRUE)
    \/ abs.objs[o].kind = "data" /\ \E f \in {1, 2} : f \in abs.objs[o].have /\ Through("del", o, f, FALSE, FALSE)

Next == Len(hist) < MaxLen /\ (UOpen \/ UClose \/ Make \/ Use)
Spec == Init /\ [][Next]_vars

NoneLeftOpen == \A h \in open : h[1] = "u"
UserHandleKept == (U \in open) = abs.uopen
NeverTwice == (\E k \in 1..Len(used) : used[k][1] = "u") => opens = 0
OpenedRightly == fine
ReadsLive == used # <<>> => \/ used[1][1] = "l" \/ used[1] \in open
View == <<abs, open, [k \in 1..Len(ref) |-> IF ref[k][1] = "u" THEN ref[k] ELSE <<"l", 0>>], opens, used # <<>>, fine, hist>>
EmitCase == (Emit /\ Len(hist) = MaxLen) => PrintT("VT " \o ToJson([steps |-> hist]))
=============================================================================
