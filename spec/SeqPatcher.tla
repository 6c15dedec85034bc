----------------------------- MODULE SeqPatcher -----------------------------
(***************************************************************************)
(* Assembling the output from found and missing spans                      *)
(* (patcher/sequential.SequentialPatcher), with a fault at any step.       *)
(*                                                                         *)
(* A case: spans, a sequence of [n, found] that tile the blocks of the     *)
(* reference in order; at, the span at which something goes wrong (0:      *)
(* nothing does); kind, what goes wrong there.                             *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS MaxSpans, MaxLen, Bug

FoundFaults == {"seek", "readStart", "readMid", "readData", "short", "shortEnd", "write", "writePart", "writeAll"}
MissingFaults == {"requestErr", "sourceErr", "lateErr", "wrongBlock", "laterBlock", "fewer", "more", "shortBytes", "empty",
                  "closedResults", "closedErrors", "closedBoth", "write", "writePart", "writeAll",
                  "earlierBlock", "firstBlock"}
\* of the plan itself: a span offered neither as found nor as missing, no source at all
PlanFaults == {"hole", "noSource"}

VARIABLES spans, at, kind, k, out, reqs, st
(* k: spans done; out: blocks written (an incomplete one is not counted);
   reqs: spans requested; st: "next" | "copy" | "wait" | "plan" | "ok" | "error" *)
vars == <<spans, at, kind, k, out, reqs, st>>

Lists == UNION {[1..m -> [n : 1..MaxLen, found : BOOLEAN]] : m \in 0..MaxSpans}
Total(sp) == FoldLeft(LAMBDA acc, s : acc + s.n, 0, sp)
First(j) == Total(Take(j - 1, spans))   \* first block of span j
Final(j) == j = Len(spans)

\* faults that cannot happen at a span
Sensible(sp, a, f) ==
  /\ f \in {"short", "shortBytes"} => a < Len(sp)             \* only the last block may be short
  /\ f = "shortEnd" => a < Len(sp)
  /\ f = "fewer" => sp[a].n > 1
  /\ f = "more" => a < Len(sp)
  /\ f = "laterBlock" => a < Len(sp)
  /\ f \in {"earlierBlock", "firstBlock"} => a > 1           \* the right number of blocks, from before
  /\ f = "hole" => a < Len(sp)                               \* nothing tells of a last block that is in neither list
  /\ f = "noSource" => a = 1 + FoldLeft(LAMBDA acc, s : IF acc[2] /\ s.found THEN <<acc[1] + 1, TRUE>> ELSE <<acc[1], FALSE>>, <<0, TRUE>>, sp)[1]

Init ==
  /\ spans \in Lists
  /\ \/ at = 0 /\ kind = "none"
     \/ /\ at \in 1..Len(spans)
        /\ kind \in (IF spans[at].found THEN FoundFaults ELSE MissingFaults \cup {"noSource"}) \cup {"hole"}
        /\ Sensible(spans, at, kind)
  /\ k = 0 /\ out = 0 /\ reqs = <<>> /\ st = "next"

Start ==
  /\ st = "next"
  /\ UNCHANGED <<spans, at, kind, k, out>>
  /\ IF k = Len(spans) THEN st' = "ok" /\ UNCHANGED reqs
     ELSE IF at = k + 1 /\ kind \in PlanFaults THEN st' = (IF Bug = "skipHole" THEN "copy" ELSE "plan") /\ UNCHANGED reqs
     ELSE IF spans[k + 1].found THEN st' = "copy" /\ UNCHANGED reqs
     ELSE st' = "wait" /\ reqs' = Append(reqs, <<First(k + 1), First(k + 1) + spans[k + 1].n - 1>>)
Faulty == at = k + 1
Good ==
  /\ st \in {"copy", "wait"} /\ (~Faulty \/ (Bug = "ignoreSeek" /\ kind = "seek") \/ (Bug = "skipHole" /\ kind = "hole"))
  /\ out' = (IF Faulty THEN out ELSE out + spans[k + 1].n)
  /\ k' = k + 1 /\ st' = "next"
  /\ UNCHANGED <<spans, at, kind, reqs>>
\* some of the span's blocks may have been written by then
Bad ==
  /\ st \in {"copy", "wait", "plan"} /\ Faulty /\ ~(Bug = "ignoreSeek" /\ kind = "seek")
  /\ ~(Bug = "waitForever" /\ kind = "requestErr")
  /\ \E d \in 0..spans[k + 1].n : /\ st = "plan" => d = 0
                                  /\ out' = out + d
  /\ st' = "error"
  /\ UNCHANGED <<spans, at, kind, k, reqs>>
Next == Start \/ Good \/ Bad
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Ended == st \in {"ok", "error"}
\* C02
InvReported == (Ended /\ at # 0) => st = "error"
InvOkComplete == st = "ok" => out = Total(spans)
\* C01: nothing goes wrong without a fault
InvNoFault == (Ended /\ at = 0) => st = "ok"
Ends == <>(st \in {"ok", "error"})
\* C03: the missing spans, in order, each once
MissingUpTo(j) == SelectSeq([i \in 1..j |-> IF spans[i].found THEN <<>> ELSE <<First(i), First(i) + spans[i].n - 1>>], LAMBDA r : r # <<>>)
Asked == MissingUpTo(IF at = 0 THEN Len(spans) ELSE IF kind \in PlanFaults THEN at - 1 ELSE at)
InvRequests == Ended => reqs = Asked
Emit == (st = "next" /\ k = 0) =>
  PrintT(ToJson([spans |-> spans, at |-> at, kind |-> kind, reqs |-> Asked, ok |-> at = 0]))
=============================================================================
