------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* A whole patch (RSync.Patch): the local file is scanned in m sections    *)
(* that overlap by one block, by m concurrent matchers; their matches are  *)
(* merged in the order they happen to arrive; what is missing is fetched   *)
(* and the output is assembled in order, block by block.  The source can   *)
(* fail at any missing block, the local file or the output at any block    *)
(* that is copied or written, after a part of it; and what a matcher has   *)
(* still to report is lost when the local file fails below it: the blocks  *)
(* are fetched then.                                                       *)
(***************************************************************************)
EXTENDS Blocks, TLC, Json
CONSTANTS
  Cases,       \* set of [bs, ref, loc, m]
  AllOrders,  \* all orders of arrival, or one
  Faults,      \* TRUE: all of them, FALSE: none
  Bug

VARIABLES x, todo, got, out, reqs, fault, lost, st
(* todo: per matcher the matches not yet merged, <<block, offset>>
   got: block -> offset of the match taken; out: bytes written; reqs: blocks requested
   fault: <<"none", -1>> or <<what fails, at which block>>: "source", "local", "output"
   lost: matches were lost when a matcher failed
   st: "scan" | "assemble" | "ok" | "error" *)
vars == <<x, todo, got, out, reqs, fault, lost, st>>

-----------------------------------------------------------------------------
(* The scan of Scan.tla as a function: a sequence of <<offset, blocks>>     *)
RECURSIVE ScanFrom(_, _, _, _, _, _)
ScanFrom(ref, bs, loc, i, len, mode) ==
  LET found == BlocksWith(ref, bs, Bytes(loc, i, len))
      left == Len(loc) - (i + len)
      here == IF found = {} THEN <<>> ELSE <<<<i, found>>>>
      next == IF found # {} THEN "block" ELSE mode
  IN IF len = 0 THEN <<>>
     ELSE IF mode = "shrink"
     THEN IF found # {} THEN here ELSE ScanFrom(ref, bs, loc, i + 1, len - 1, "shrink")
     ELSE here \o
       (IF next = "block"
        THEN IF left >= bs THEN ScanFrom(ref, bs, loc, i + bs, len, "byte") ELSE ScanFrom(ref, bs, loc, i + left + 1, len - 1, "shrink")
        ELSE IF left > 0 THEN ScanFrom(ref, bs, loc, i + 1, len, "byte") ELSE ScanFrom(ref, bs, loc, i + 1, len - 1, "shrink"))
Scan(ref, bs, loc) == IF Len(loc) < bs THEN <<>> ELSE ScanFrom(ref, bs, loc, 0, bs, "byte")

Size(y) == IF Bug = "referenceSized" THEN Len(y.ref) ELSE Greater(Len(y.ref), Len(y.loc))
SectionSize(y) == LET q == Size(y) \div y.m IN q + y.bs - (q % y.bs)
Section(y, i) ==   \* i from 0
  LET off == SectionSize(y) * i
      end == Lesser(off + SectionSize(y) + (IF Bug = "noOverlap" THEN 0 ELSE y.bs), Len(y.loc))
  IN SubSeq(y.loc, off + 1, end)
SectionScan(y, i) == [r \in 1..Len(Scan(y.ref, y.bs, Section(y, i))) |->
                        <<Scan(y.ref, y.bs, Section(y, i))[r][1] + SectionSize(y) * i, Scan(y.ref, y.bs, Section(y, i))[r][2]>>]
RECURSIVE Flatten(_)
Flatten(reports) == IF reports = <<>> THEN <<>>
                    ELSE [n \in 1..Cardinality(reports[1][2]) |-> <<SetToSeq(reports[1][2])[n], reports[1][1]>>] \o Flatten(Drop(1, reports))

Init ==
  /\ x \in Cases
  /\ todo = [i \in 0..(x.m - 1) |-> Flatten(SectionScan(x, i))]
  /\ got = <<>> /\ out = <<>> /\ reqs = <<>> /\ fault = <<"none", -1>> /\ lost = FALSE
  /\ st = "scan"

N == NumBlocks(x.ref, x.bs)
Pending == {i \in DOMAIN todo : todo[i] # <<>>}
Deliver ==
  /\ st = "scan"
  /\ \E i \in Pending :
       /\ ~AllOrders => \A j \in Pending : i <= j
       /\ LET b == todo[i][1][1] IN got' = IF b \in DOMAIN got THEN got ELSE got @@ (b :> todo[i][1][2])
       /\ todo' = [todo EXCEPT ![i] = Drop(1, @)]
  /\ UNCHANGED <<x, out, reqs, fault, lost, st>>
Lose ==
  /\ st = "scan" /\ Faults
  /\ \E i \in Pending : todo' = [todo EXCEPT ![i] = <<>>]
  /\ lost' = TRUE
  /\ UNCHANGED <<x, got, out, reqs, fault, st>>
Missing == (0..(N - 1)) \ DOMAIN got
Collect ==
  /\ st = "scan" /\ Pending = {}
  /\ fault' \in {<<"none", -1>>} \cup
       (IF Faults THEN ({"source"} \X Missing) \cup ({"local"} \X DOMAIN got) \cup ({"output"} \X (0..(N - 1))) ELSE {})
  /\ st' = "assemble"
  /\ UNCHANGED <<x, todo, got, out, reqs, lost>>
\* the next block to write
At == CeilDiv(Len(out), x.bs)
\* Bug "fullLast": the short final block is copied as a full block, as was done once
CopyLen(b) == IF Bug = "fullLast" THEN x.bs ELSE Len(Block(x.ref, x.bs, b))
Step ==
  /\ st = "assemble"
  /\ IF Len(out) >= Len(x.ref) THEN st' = "ok" /\ UNCHANGED <<out, reqs>>
     ELSE /\ reqs' = (IF At \in DOMAIN got THEN reqs ELSE Append(reqs, At))
          /\ LET data == IF At \in DOMAIN got
                         THEN SubSeq(x.loc, got[At] + 1, Lesser(got[At] + CopyLen(At), Len(x.loc)))
                         ELSE Block(x.ref, x.bs, At)
             IN IF fault[2] = At
                THEN /\ \E k \in 0..(IF fault[1] = "source" THEN 0 ELSE Len(data) - 1) : out' = out \o SubSeq(data, 1, k)
                     /\ st' = (IF Bug = "localEndsEarly" /\ fault[1] = "local" THEN "ok" ELSE "error")
                ELSE out' = out \o data /\ UNCHANGED st
  /\ UNCHANGED <<x, todo, got, fault, lost>>
Next == Deliver \/ Lose \/ Collect \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Predicates on what is observed; also applied to records of the real code *)

Ascending(rs) == \A k \in 1..(Len(rs) - 1) : rs[k] < rs[k + 1]
InRange(y, rs) == \A k \in 1..Len(rs) : rs[k] >= 0 /\ rs[k] < NumBlocks(y.ref, y.bs)
WindowMatches(y, p) == BlocksWith(y.ref, y.bs, Bytes(y.loc, p, y.bs))
\* full-size windows of the local file that no other matching window overlaps: found by every way to divide up the scan
Isolated(y, p) ==
  /\ WindowMatches(y, p) # {}
  /\ \A q \in (p - y.bs + 1)..(p + y.bs - 1) : (q # p /\ q >= 0 /\ q + y.bs <= Len(y.loc)) => WindowMatches(y, q) = {}
CertainlyReusable(y) ==
  UNION {IF Isolated(y, p) THEN WindowMatches(y, p) ELSE {} : p \in 0..(Len(y.loc) - y.bs)}
  \cup (LET n == LastLen(y.ref, y.bs) IN
        IF n > 0 /\ n < y.bs /\ Len(y.loc) >= y.bs /\ SubSeq(y.loc, Len(y.loc) - n + 1, Len(y.loc)) = Block(y.ref, y.bs, NumBlocks(y.ref, y.bs) - 1)
        THEN {NumBlocks(y.ref, y.bs) - 1} ELSE {})
\* blocks whose content does not occur in the local file cannot have been found
Occurs(y, b) == LET w == Block(y.ref, y.bs, b) IN \E p \in 0..(Len(y.loc) - Len(w)) : Bytes(y.loc, p, Len(w)) = w
OnlyMissing(y, rs) ==
  /\ Ascending(rs) /\ InRange(y, rs)
  /\ \A k \in 1..Len(rs) : rs[k] \notin CertainlyReusable(y)
  /\ (y.loc = y.ref /\ Len(y.loc) >= y.bs) => rs = <<>>
AllFetched(y, rs) == \A b \in 0..(NumBlocks(y.ref, y.bs) - 1) : Occurs(y, b) \/ \E k \in 1..Len(rs) : rs[k] = b

\* C01
InvExact == st = "ok" => out = x.ref
InvSucceeds == st = "error" => fault[2] # -1
InvPrefix == IsPrefix(out, x.ref)
\* C03
InvOnlyMissing == lost \/ OnlyMissing(x, reqs)
InvAllFetched == st = "ok" => AllFetched(x, reqs)
\* C02
InvReported == st = "ok" => fault[2] = -1
InvPartition == st = "ok" => Range0(reqs) = Missing
Ends == <>(st \in {"ok", "error"})

Emit == (st = "assemble" /\ out = <<>> /\ reqs = <<>> /\ fault[2] = -1 /\ ~lost) =>
  PrintT(ToJson([bs |-> x.bs, ref |-> x.ref, loc |-> x.loc, m |-> x.m,
                 missing |-> SetToSortSeq(Missing, LAMBDA a, b : a < b)]))
=============================================================================
