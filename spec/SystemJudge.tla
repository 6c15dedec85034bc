---------------------------- MODULE SystemJudge ----------------------------
(* [bs, ref, loc, m, reqs, same]: blocks requested in order; same: success and the output is the reference *)
EXTENDS Blocks, TLC, Json
CONSTANTS File
Recs == ndJsonDeserialize(File)
VARIABLE k
S == INSTANCE System WITH Cases <- {}, AllOrders <- FALSE, Faults <- FALSE, Bug <- "none", x <- 0, todo <- <<>>, got <- <<>>,
                          out <- <<>>, reqs <- <<>>, fault <- <<>>, lost <- FALSE, st <- ""
Init == k \in 1..Len(Recs)
Spec == Init /\ [][UNCHANGED k]_k
Verdict(r) == (IF r.same THEN {} ELSE {"C01"})
  \cup (IF S!OnlyMissing(r, r.reqs) /\ (r.same => S!AllFetched(r, r.reqs)) THEN {} ELSE {"C03"})
Judge == LET v == Verdict(Recs[k]) IN PrintT(ToJson([k |-> k, v |-> SetToSeq(v)]))
=============================================================================
