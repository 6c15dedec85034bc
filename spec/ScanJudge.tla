------------------------------ MODULE ScanJudge ------------------------------
(* Judges what a real scan reported (records of the harness) by the         *)
(* properties of Scan.tla.                                                  *)
EXTENDS Blocks, TLC, Json
CONSTANTS File
Recs == ndJsonDeserialize(File)
VARIABLE k
S == INSTANCE Scan WITH Cases <- {}, Bug <- "none", c <- 0, i <- 0, len <- 0, mode <- "", out <- <<>>, st <- ""

\* reports as <<offset, set of blocks>>
Rep(x) == [n \in 1..Len(x.out) |-> <<x.out[n].o, Range0(x.out[n].b)>>]

Verdict(x) ==
  (IF S!Genuine(x, Rep(x)) THEN {} ELSE {"C05"})
  \cup (IF x.failing \/ Len(x.loc) < x.bs \/ (S!Complete(x, Rep(x)) /\ S!ShortFinal(x, Rep(x))) THEN {} ELSE {"C04"})

Init == k \in 1..Len(Recs)
Next == FALSE /\ UNCHANGED k
Spec == Init /\ [][Next]_k
Judge == LET v == Verdict(Recs[k]) IN PrintT(ToJson([k |-> k, v |-> SetToSeq(v)]))
=============================================================================
