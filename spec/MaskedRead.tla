------------------------------ MODULE MaskedRead -----------------------------
(* Life of a masked read: a boolean selection of the rows of a group becomes  *)
(* row ranges and a size; every field of the group, whatever its own chunking, *)
(* is read with the same ranges.                                               *)
EXTENDS Ranges, TLC, Json

CONSTANTS MaxN, MaxC, Emit

VARIABLES n,          \* rows of the group
          chunk,      \* chunk size of each field (0: contiguous)
          sel,        \* boolean selection, as a set of rows
          ranges, size,
          got,        \* rows obtained per field, or <<-1>> if not read yet
          pc
vars == <<n, chunk, sel, ranges, size, got, pc>>
Fields == {"f", "g"}

Init ==
    /\ n \in 0..MaxN
    /\ chunk \in [Fields -> 0..MaxC] /\ chunk["g"] \in {0, 2}
    /\ sel \in SUBSET (0..(n - 1))
    /\ ranges = <<>> /\ size = 0 /\ got = [f \in Fields |-> <<-1>>] /\ pc = "bool"

ToRanges ==
    /\ pc = "bool" /\ pc' = "ranges"
    /\ ranges' = RangesOfRows(SetToAscSeq(sel)) /\ size' = Cardinality(sel)
    /\ UNCHANGED <<n, chunk, sel, got>>

\* blocks of whole chunks covering the ranges (one entry per range)
BlockOf(c, r) == << (r[1] \div c) * c, ((r[2] + c - 1) \div c) * c >>
ReadField(f) ==
    /\ pc = "ranges" /\ got[f] = <<-1>>
    /\ got' = [got EXCEPT ![f] =
         IF chunk[f] = 0 THEN Flatten(ranges)
         ELSE LET raw == [i \in 1..Len(ranges) |-> BlockOf(chunk[f], ranges[i])]
              IN FoldLeft(LAMBDA acc, i : acc \o SelectSeq(RangeRows(raw[i]),
                      LAMBDA x : x >= ranges[i][1] /\ x < ranges[i][2]), <<>>,
                      [i \in 1..Len(ranges) |-> i])]
    /\ UNCHANGED <<n, chunk, sel, ranges, size, pc>>

Next == ToRanges \/ \E f \in Fields : ReadField(f)
Spec == Init /\ [][Next]_vars

Read(f) == got[f] # <<-1>>
Selected == \A f \in Fields : Read(f) => got[f] = SetToAscSeq(sel)
SizeRight == pc = "ranges" => size = SumLen(ranges)
Aligned == (Read("f") /\ Read("g")) => got["f"] = got["g"]

EmitCase == (Emit /\ Read("f") /\ Read("g")) => PrintT("VT " \o ToJson(
    [n |-> n, chunk |-> chunk, sel |-> SetToAscSeq(sel), size |-> size, out |-> got["f"]]))
=============================================================================
