---------------------------- MODULE MCBlockSource ----------------------------
(* Exhaustive exploration; with Emit as ACTION_CONSTRAINT every transition of *)
(* the graph is printed as JSON for the harness to replay.                    *)
EXTENDS BlockSource, TLC, Json

VIEWState == [pc |-> pc, st |-> st, q |-> queue, w |-> work, o |-> ordering, f |-> fetched,
              offer |-> offer, err |-> err, reqs |-> reqs, del |-> delivered, failed |-> failed, cl |-> closes]

\* which action was taken (decided from the two states; unambiguous)
Label ==
  IF pc = "top" THEN [n |-> "internal"]
  ELSE IF Len(reqs') > Len(reqs) THEN [n |-> "request", r |-> reqs'[Len(reqs')]]
  ELSE IF closes' > closes THEN [n |-> "close"]
  ELSE IF Len(delivered') > Len(delivered) THEN [n |-> "deliver", r |-> delivered'[Len(delivered')]]
  ELSE IF err = "pending" /\ err' = "given" THEN [n |-> "deliverErr"]
  ELSE IF Len(failed') > Len(failed) THEN [n |-> "fail", r |-> failed'[Len(failed')]]
  ELSE [n |-> "ok", r |-> CHOOSE r \in Ranges : Occurrences(r, work') < Occurrences(r, work)]

Emit == PrintT(ToJson([f |-> VIEWState, a |-> Label, t |-> VIEWState']))
EmitInit == TLCGet("level") > 1 \/ PrintT(ToJson([init |-> VIEWState]))
=============================================================================
