------------------------------ MODULE AliasOps --------------------------------
(* Which operands a call may change.  own[i]: the pieces of memory the value of  *)
(* register i may be kept in.  A call either only reads its operands (read),     *)
(* or produces a value that may be kept in the memory of the registers `from`    *)
(* (make: none for a copy, the operand for a view), or writes to a register      *)
(* (write).                                                                      *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == { s[i] : i \in 1..Len(s) }
Mates(own, t) == { i \in 1..Len(own) : own[i] \cap own[t] # {} }
\* value of which registers may change
MayVal(own, kind, d) == CASE kind = "write" -> Mates(own, d) \cup {d}
                          [] kind = "make" /\ d # 0 -> {d}
                          [] OTHER -> {}
\* attributes (units, frame, exponent, validity of conversion, ...) of which;
\* obj[i]: the array itself that register i holds (numpy hands out some arrays as they are)
MayAtt(obj, kind, d) == IF d = 0 THEN {}
                        ELSE CASE kind = "write" -> { i \in 1..Len(obj) : obj[i] = obj[d] }
                               [] kind = "make" -> {d}
                               [] OTHER -> {}
\* memory from then on; tag: a name for new memory
After(own, kind, from, d, tag) ==
    IF kind = "make" /\ d # 0
    THEN [own EXCEPT ![d] = {tag} \cup UNION { own[i] : i \in from }]
    ELSE own
AfterObj(obj, kind, is, d, tag) ==
    IF kind = "make" /\ d # 0 THEN [obj EXCEPT ![d] = IF is = 0 THEN tag ELSE obj[is]] ELSE obj
=============================================================================
