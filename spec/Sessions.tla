------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Two sessions made from paths, side by side in one process and one       *)
(* working directory; their calls (make, patch, close) interleave in every *)
(* way. Contents of files are sequences of block ids, as in Session.tla.   *)
(* kind[s]: "same" | "symlink" (in place), "absent" | "other" (own output) *)
(* share: both sessions read the same local file (own outputs only)        *)
(* bad[s]: the source of session s delivers nothing                        *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS Cases, Bug  \* "none" | "fixedName" | "sweep" (closing removes every temporary file)
VARIABLES c, local, target, temp, ok, pos, hist
vars == <<c, local, target, temp, ok, pos, hist>>

S == 1..2
Names == 1..2
None == [on |-> FALSE, d |-> <<>>]
File(d) == [on |-> TRUE, d |-> d]
InPlace(s) == c.kind[s] \in {"same", "symlink"}
In(s) == IF c.share THEN 1 ELSE s     \* which local file session s reads
Name(s) == IF Bug = "fixedName" THEN 1 ELSE s
Old == <<90, 91, 92, 93, 94>>
Found(s, b) == \E k \in 1..Len(local[In(s)].d) : local[In(s)].d[k] = b
Deliverable(s) == ~c.bad[s] \/ \A k \in 1..Len(c.ref[s]) : Found(s, c.ref[s][k])

Init ==
  /\ c \in Cases
  /\ local = [s \in S |-> File(c.loc[s])]
  /\ target = [s \in S |-> IF c.kind[s] = "other" THEN File(Old) ELSE None]
  /\ temp = [n \in Names |-> None]
  /\ ok = [s \in S |-> FALSE] /\ pos = [s \in S |-> 0] /\ hist = <<>>

Done(s) == hist' = Append(hist, <<s, pos[s] + 1>>) /\ pos' = [pos EXCEPT ![s] = @ + 1] /\ UNCHANGED c
Make(s) ==
  /\ pos[s] = 0 /\ Done(s)
  /\ IF InPlace(s) THEN temp' = [temp EXCEPT ![Name(s)] = File(<<>>)] /\ UNCHANGED target
     ELSE target' = [target EXCEPT ![s] = File(<<>>)] /\ UNCHANGED temp
  /\ UNCHANGED <<local, ok>>
Patch(s) ==
  /\ pos[s] = 1 /\ Done(s)
  /\ ok' = [ok EXCEPT ![s] = Deliverable(s)]
  /\ IF ~Deliverable(s) THEN UNCHANGED <<temp, target>>
     ELSE IF InPlace(s) THEN temp' = [temp EXCEPT ![Name(s)] = File(c.ref[s])] /\ UNCHANGED target
     ELSE target' = [target EXCEPT ![s] = File(c.ref[s])] /\ UNCHANGED temp
  /\ UNCHANGED local
Close(s) ==
  /\ pos[s] = 2 /\ Done(s)
  /\ temp' = IF ~InPlace(s) THEN temp
             ELSE IF Bug = "sweep" THEN [n \in Names |-> None] ELSE [temp EXCEPT ![Name(s)] = None]
  /\ IF InPlace(s) /\ ok[s] THEN local' = [local EXCEPT ![In(s)] = temp[Name(s)]] ELSE UNCHANGED local
  /\ UNCHANGED <<target, ok>>
Next == \E s \in S : Make(s) \/ Patch(s) \/ Close(s)
Spec == Init /\ [][Next]_vars

\* C19: each session puts its own reference in place, whatever the other does, and leaves nothing behind
InvResult == \A s \in S : pos[s] = 3 /\ ok[s] => (IF InPlace(s) THEN local[In(s)] ELSE target[s]) = File(c.ref[s])
InvClean == (\A s \in S : pos[s] = 3) => \A n \in Names : ~temp[n].on
\* C20: no session touches a local file, but its own when it is closed after a successful patch
InvUntouched == \A s \in S : ~(InPlace(s) /\ pos[s] = 3 /\ ok[s]) /\ ~c.share => local[s] = File(c.loc[s])
InvShared == c.share => local[1] = File(c.loc[1])
Emit == (\A s \in S : pos[s] = 3) =>
  PrintT(ToJson([c |-> c, hist |-> hist, ok |-> ok, local |-> [s \in S |-> local[s].d], target |-> [s \in S |-> target[s].d]]))
=============================================================================
