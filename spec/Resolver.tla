------------------------------ MODULE Resolver ------------------------------
(***************************************************************************)
(* Blocks to bytes and the splitting of block ranges                       *)
(* (blocksources.FixedSizeBlockResolver).                                  *)
(* A case is [bs, fs, want, s, e]: block size, file size (0: unknown),     *)
(* desired request size (0: none), first and last block of a range.        *)
(* The splitting is a transition system that cuts one request per step.    *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS Cases, Bug
VARIABLES x, cur, reqs, st
vars == <<x, cur, reqs, st>>

Clamp(y, off) == IF y.fs # 0 /\ off > y.fs THEN y.fs ELSE off
StartOff(y, b) == Clamp(y, b * y.bs)
EndOff(y, b) == Clamp(y, (b + 1) * y.bs)

PerRequest == LET m == IF x.want < x.bs THEN x.bs ELSE x.want IN m \div x.bs

Init == x \in Cases /\ cur = x.s /\ reqs = <<>> /\ st = "cut"
Cut ==
  /\ st = "cut"
  /\ LET last == IF x.want = 0 THEN x.e
                 ELSE IF Bug = "offByOne" THEN Lesser(cur + PerRequest, x.e) ELSE Lesser(cur + PerRequest - 1, x.e)
     IN /\ reqs' = Append(reqs, <<cur, last>>)
        /\ cur' = last + 1
        /\ st' = IF last = x.e THEN "done" ELSE "cut"
  /\ UNCHANGED x
Spec == Init /\ [][Cut]_vars /\ WF_vars(Cut)

-----------------------------------------------------------------------------
\* C12, of any list rs of <<first, last>> for a case y
SplitOK(y, rs) ==
  /\ Len(rs) > 0
  /\ rs[1][1] = y.s /\ rs[Len(rs)][2] = y.e
  /\ \A k \in 1..(Len(rs) - 1) : rs[k + 1][1] = rs[k][2] + 1
  /\ \A k \in 1..Len(rs) :
       /\ rs[k][1] <= rs[k][2]
       /\ y.want = 0 \/ rs[k][1] = rs[k][2] \/ (rs[k][2] - rs[k][1] + 1) * y.bs <= y.want
  /\ y.want = 0 => Len(rs) = 1
\* offs: <<start, end>> of the blocks s..e
OffsetsOK(y, offs) ==
  \A k \in 1..Len(offs) : offs[k] = <<Clamp(y, (y.s + k - 1) * y.bs), Clamp(y, (y.s + k) * y.bs)>>

InvSplit == st = "done" => SplitOK(x, reqs)
\* what is cut so far is a tiling of what lies before cur
InvTiling == \A k \in 1..Len(reqs) : reqs[k][1] = (IF k = 1 THEN x.s ELSE reqs[k - 1][2] + 1) /\ reqs[k][2] < cur
InvAdjacent == \A b \in x.s..x.e : EndOff(x, b) = StartOff(x, b + 1) /\ StartOff(x, b) <= EndOff(x, b)
InvInFile == x.fs # 0 => \A b \in x.s..x.e : EndOff(x, b) <= x.fs
Terminates == <>(st = "done")
Emit == st = "done" => PrintT(ToJson([bs |-> x.bs, fs |-> x.fs, want |-> x.want, s |-> x.s, e |-> x.e, split |-> reqs,
                              off |-> [k \in 1..(x.e - x.s + 1) |-> <<StartOff(x, x.s + k - 1), EndOff(x, x.s + k - 1)>>]]))
=============================================================================
