--------------------------- MODULE WorkflowJudge ---------------------------
(* Histories recorded from the real tool and library, step by step.         *)
EXTENDS Seqs, TLC, Json
CONSTANTS File
VARIABLES k, pos, s, bad
W == INSTANCE Workflow WITH Starts <- {}, Refs <- {}, Units <- {}, Depth <- 0, MaxLen <- 0, Rich <- FALSE, Bug <- "none", s0 <- <<>>, st <- s, hist <- <<>>, last <- <<>>
Recs == ndJsonDeserialize(File)
vars == <<k, pos, s, bad>>
(* a record: [start, log: <<[o, ok, after, asked]>>] *)
Init == k \in 1..Len(Recs) /\ pos = 0 /\ s = Recs[k].start /\ bad = {}
Next ==
  /\ pos < Len(Recs[k].log) /\ pos' = pos + 1 /\ UNCHANGED k
  /\ LET e == Recs[k].log[pos + 1] IN
     /\ s' = e.after
     /\ bad' = bad \cup (IF W!Agrees(s, e.o, e.ok, e.after) THEN {} ELSE {"C25"})
                   \cup (IF W!NoFetch(s, e.o) /\ e.asked > 0 THEN {"C25"} ELSE {})
Spec == Init /\ [][Next]_vars
Judge == pos = Len(Recs[k].log) => PrintT(ToJson([k |-> k, v |-> SetToSeq(bad)]))
=============================================================================
