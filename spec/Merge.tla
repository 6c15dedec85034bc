------------------------------- MODULE Merge -------------------------------
(***************************************************************************)
(* Merging of concurrent match streams into spans of blocks                *)
(* (comparer.MatchMerger).  Each step delivers one match <<block, offset>> *)
(* of one stream; a match of a block that is already covered is dropped; a *)
(* new block is joined to its neighbours where block numbers and offsets   *)
(* both continue.  Joining is a choice: the properties do not depend on it *)
(* (the code does not always join).  A stream may end with an error.       *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS N,        \* blocks 0..N-1
          BS,       \* block size
          Aligns,   \* a match of block b is at b*BS + a for a in Aligns
          Streams, Depth,
          Fails,    \* how many streams may fail
          AlwaysJoin, Bug
VARIABLES spans, hist, failed
vars == <<spans, hist, failed>>

Blks == 0..(N - 1)
Covered(sp) == UNION {x.s..x.e : x \in sp}
At(b, a) == b * BS + a

Init == spans = {} /\ hist = <<>> /\ failed = {}

Continues(x, y) == x.e + 1 = y.s /\ x.o + (x.e - x.s + 1) * BS = y.o
Adjoin(x, y) == [s |-> x.s, e |-> y.e, o |-> x.o]
JoinLeft(sp, b) ==
  LET ls == {p \in sp \X sp : p[2].s = b /\ (IF Bug = "joinAnyOffset" THEN p[1].e + 1 = p[2].s ELSE Continues(p[1], p[2]))} IN
  IF ls = {} THEN sp ELSE LET p == CHOOSE p \in ls : TRUE IN (sp \ {p[1], p[2]}) \cup {Adjoin(p[1], p[2])}
JoinRight(sp, b) ==
  LET rs == {p \in sp \X sp : p[1].e = b /\ Continues(p[1], p[2])} IN
  IF rs = {} THEN sp ELSE LET p == CHOOSE p \in rs : TRUE IN (sp \ {p[1], p[2]}) \cup {Adjoin(p[1], p[2])}

Deliver ==
  /\ Len(hist) < Depth
  /\ \E st \in Streams \ failed, b \in Blks, a \in Aligns, jl \in BOOLEAN, jr \in BOOLEAN :
       LET o == At(b, a)
           one == [s |-> b, e |-> b, o |-> o]
           l == IF jl THEN JoinLeft(spans \cup {one}, b) ELSE spans \cup {one}
           r == IF jr THEN JoinRight(l, b) ELSE l
       IN
       /\ o >= 0
       /\ AlwaysJoin => jl /\ jr
       /\ hist' = Append(hist, [st |-> st, b |-> b, o |-> o, err |-> FALSE])
       /\ spans' = IF b \in Covered(spans) /\ Bug # "duplicates" THEN spans ELSE r
       /\ UNCHANGED failed
Fail ==
  /\ Len(hist) < Depth /\ Cardinality(failed) < Fails
  /\ \E st \in Streams \ failed :
       /\ failed' = failed \cup {st}
       /\ hist' = Append(hist, [st |-> st, b |-> 0, o |-> 0, err |-> TRUE])
  /\ UNCHANGED spans
Next == Deliver \/ Fail
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C06, of merged spans (sequence of [s, e, o]) and missing spans ([s, e])  *)
(* for the reports rep (set of <<block, offset>>), blocks 0..max            *)

Sorted(sp) == \A k \in 1..Len(sp) : sp[k].s <= sp[k].e /\ (k < Len(sp) => sp[k].e < sp[k + 1].s)
Blocks(sp) == UNION {sp[k].s..sp[k].e : k \in 1..Len(sp)}
MergedOK(bs, rep, sp) ==
  /\ Sorted(sp)
  /\ Blocks(sp) = {r[1] : r \in rep}
  /\ \A k \in 1..Len(sp) : \A b \in sp[k].s..sp[k].e : <<b, sp[k].o + (b - sp[k].s) * bs>> \in rep
MissingOK(max, sp, miss) == Sorted(miss) /\ Blocks(miss) = (0..max) \ Blocks(sp)

Reported == {<<hist[k].b, hist[k].o>> : k \in {k \in 1..Len(hist) : ~hist[k].err}}
SortedSpans == SetToSortSeq(spans, LAMBDA x, y : x.s < y.s)
\* the complement as the code computes it
RECURSIVE Gaps(_, _, _)
Gaps(sp, from, max) ==
  IF sp = <<>> THEN (IF from <= max THEN <<[s |-> from, e |-> max]>> ELSE <<>>)
  ELSE (IF sp[1].s > from THEN <<[s |-> from, e |-> sp[1].s - 1]>> ELSE <<>>) \o Gaps(Drop(1, sp), sp[1].e + 1, max)

InvMerged == MergedOK(BS, Reported, SortedSpans)
InvMissing == \A m \in {x \in Blks : \A b \in Covered(spans) : b <= x} : MissingOK(m, SortedSpans, Gaps(SortedSpans, 0, m))
Emit == Len(hist) = Depth => PrintT(ToJson([n |-> N, bs |-> BS, hist |-> hist, spans |-> SortedSpans]))
=============================================================================
