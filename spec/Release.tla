------------------------------ MODULE Release ------------------------------
(***************************************************************************)
(* What a session made from paths holds: its two files, its block source   *)
(* with the goroutine that runs it, and the connection of a fetch.         *)
(*                                                                         *)
(* A case c says what goes wrong: c.make at its creation ("none",          *)
(* "noInput", or what keeps the output from being opened), c.ends how the  *)
(* fetch of each missing run ends ("ok" or a kind of failure; the first    *)
(* failure ends the patch), c.patch whether it is patched at all, c.place  *)
(* what keeps the result from being put in its place on Close.             *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS Cases, Bug  \* "none" | "leakInput" | "leakSource" | "keepBody" | "placeFirst"
VARIABLES c, st, open, loop, inflight, conn, pending, k, err
vars == <<c, st, open, loop, inflight, conn, pending, k, err>>

Init ==
  /\ c \in Cases
  /\ st = "input" /\ open = {} /\ loop = "none" /\ inflight = {} /\ conn = {} /\ pending = FALSE /\ k = 0 /\ err = FALSE

\* creation
Input ==
  /\ st = "input"
  /\ IF c.make = "noInput" THEN st' = "failed" /\ UNCHANGED open
     ELSE st' = "output" /\ open' = {"input"}
  /\ UNCHANGED <<c, loop, inflight, conn, pending, k, err>>
Output ==
  /\ st = "output"
  /\ IF c.make # "none" THEN st' = "failed" /\ open' = (IF Bug = "leakInput" THEN open ELSE {})
     ELSE st' = "source" /\ open' = open \cup {"output"}
  /\ UNCHANGED <<c, loop, inflight, conn, pending, k, err>>
Source ==
  /\ st = "source" /\ st' = "made" /\ loop' = "running"
  /\ UNCHANGED <<c, open, inflight, conn, pending, k, err>>

\* patching: one run after the other is asked for
Patch == st = "made" /\ c.patch /\ st' = "patching" /\ UNCHANGED <<c, open, loop, inflight, conn, pending, k, err>>
Ask ==
  /\ st = "patching" /\ k < Len(c.ends)
  /\ st' = "waiting" /\ inflight' = inflight \cup {k + 1} /\ conn' = conn \cup {k + 1}
  /\ UNCHANGED <<c, open, loop, pending, k, err>>
Answer(i) ==
  /\ i \in inflight /\ inflight' = inflight \ {i}
  /\ conn' = (IF Bug = "keepBody" /\ c.ends[i] # "ok" THEN conn ELSE conn \ {i})
  /\ IF c.ends[i] = "ok" THEN UNCHANGED <<pending, loop>> ELSE pending' = TRUE /\ loop' = "exiting"
  /\ UNCHANGED <<c, st, open, k, err>>
TakeAnswer ==
  /\ st = "waiting" /\ inflight = {}
  /\ IF pending THEN pending' = FALSE /\ st' = "patched" /\ err' = TRUE /\ UNCHANGED k
     ELSE st' = "patching" /\ k' = k + 1 /\ UNCHANGED <<pending, err>>
  /\ UNCHANGED <<c, open, loop, inflight, conn>>
EndPatch == st = "patching" /\ k = Len(c.ends) /\ st' = "patched" /\ UNCHANGED <<c, open, loop, inflight, conn, pending, k, err>>
LoopEnds == loop = "exiting" /\ inflight = {} /\ ~pending /\ loop' = "ended" /\ UNCHANGED <<c, st, open, inflight, conn, pending, k, err>>

\* closing
Close ==
  /\ st = "patched" \/ (st = "made" /\ ~c.patch)
  /\ loop' = (IF loop = "running" /\ Bug # "leakSource" THEN "exiting" ELSE loop)
  /\ IF Bug = "placeFirst" /\ ~err /\ c.patch /\ c.place # "none" THEN st' = "over" /\ UNCHANGED open
     ELSE st' = "closing" /\ UNCHANGED open
  /\ UNCHANGED <<c, inflight, conn, pending, k, err>>
CloseFiles == st = "closing" /\ open' = {} /\ st' = "placing" /\ UNCHANGED <<c, loop, inflight, conn, pending, k, err>>
Place == st = "placing" /\ st' = "over" /\ UNCHANGED <<c, open, loop, inflight, conn, pending, k, err>>

Next == Input \/ Output \/ Source \/ Patch \/ Ask \/ (\E i \in inflight : Answer(i)) \/ TakeAnswer \/ EndPatch \/ LoopEnds \/ Close \/ CloseFiles \/ Place
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == st \in {"failed", "over"}
InvFiles == Over => open = {}
InvRequests == Over => conn = {} /\ inflight = {}
InvNoSource == st = "failed" => loop = "none"
Released == (st = "over") ~> (loop = "ended")
Ends == <>Over
Emit == (Over /\ loop \in {"none", "ended"}) => PrintT(ToJson([c |-> c, fetches |-> IF st = "failed" \/ ~c.patch THEN 0 ELSE Lesser(k + 1, Len(c.ends)), err |-> err, made |-> st = "over"]))
=============================================================================
