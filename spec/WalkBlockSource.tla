--------------------------- MODULE WalkBlockSource ---------------------------
(* Long random behaviours of BlockSource: dozens of ranges waiting, in flight *)
(* and uncollected at once, more than the exhaustive graphs can hold. Moods   *)
(* bias the walk (every mood only restricts Next, so each walk is a behaviour *)
(* of BlockSource). A finished walk is printed for the harness to replay.     *)
EXTENDS BlockSource, TLC, Json

CONSTANTS
  N,          \* length of a walk (steps of the environment)
  FaultAfter, \* no failing fetch and no Close before so many steps
  Moods,      \* subset of {"fill","work","drain","any"}
  Cfg         \* passed on to the harness

VARIABLES mood, left, hist, parity

wvars == <<vars, mood, left, hist, parity>>

Obs == [w |-> work, offer |-> offer, err |-> err, run |-> st = "running", done |-> pc = "done",
        failed |-> Len(failed), cl |-> closes]

Lab ==
  IF Len(reqs') > Len(reqs) THEN [n |-> "request", r |-> reqs'[Len(reqs')]]
  ELSE IF closes' > closes THEN [n |-> "close"]
  ELSE IF Len(delivered') > Len(delivered) THEN [n |-> "deliver", r |-> delivered'[Len(delivered')]]
  ELSE IF err = "pending" /\ err' = "given" THEN [n |-> "deliverErr"]
  ELSE IF Len(failed') > Len(failed) THEN [n |-> "fail", r |-> failed'[Len(failed')]]
  ELSE [n |-> "ok", r |-> CHOOSE r \in Ranges : Occurrences(r, work') < Occurrences(r, work)]

WInit ==
  /\ Init
  /\ mood \in Moods /\ left = 0 /\ hist = <<>> /\ parity \in 0..5

CanRequest == Len(reqs) < MaxRequests
Odd == Len(hist) >= FaultAfter

Ext ==
  LET req == \E sp \in Spans : Request(sp)
      ok == \E r \in Ranges : Complete(r, "ok")
      bad == Odd /\ "err" \in Outcomes /\ \E r \in Ranges : Complete(r, "err")
      take == Deliver \/ DeliverErr
      cl == Odd /\ Close
  IN CASE mood = "fill" /\ CanRequest -> req
       [] mood = "work" /\ work # <<>> -> ok
       [] mood = "drain" /\ (offer # <<>> \/ err = "pending") -> take
       [] mood = "drain" /\ work # <<>> -> ok
       [] OTHER -> req \/ ok \/ take \/ bad \/ cl

\* the observation belongs to the next stable state
Settle ==
  IF hist = <<>> THEN hist' = hist
  ELSE hist' = [hist EXCEPT ![Len(hist)] = [a |-> @.a, e |-> Obs']]

Finish == Len(hist) = N \/ (pc = "done" /\ closes = MaxClose)

WNext ==
  \/ /\ Dispatch /\ UNCHANGED <<mood, left, hist, parity>>
  \/ /\ ToSelect /\ Settle /\ UNCHANGED parity
     /\ IF left = 0 THEN mood' \in Moods /\ left' \in {3, 12, 30} ELSE left' = left - 1 /\ UNCHANGED mood
  \/ /\ Quit /\ Settle /\ UNCHANGED <<mood, left, parity>>
  \/ /\ pc \in {"select", "done"} /\ ~Finish
     /\ Ext
     /\ hist' = Append(hist, [a |-> Lab, e |-> IF pc' = "done" THEN Obs' ELSE Obs])
     /\ UNCHANGED <<mood, left, parity>>
  \/ /\ pc \in {"select", "done"} /\ Finish
     /\ PrintT(ToJson([cfg |-> Cfg, parity |-> parity, steps |-> hist]))
     /\ pc' = "emitted"
     /\ UNCHANGED <<st, queue, work, ordering, fetched, offer, err, reqs, delivered, failed, closes,
                    mood, left, hist, parity>>

WSpec == WInit /\ [][WNext]_wvars

\* dear on long walks, so only at their end
ConservedAtEnd == pc = "emitted" => Conserved
=============================================================================
