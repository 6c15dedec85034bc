------------------------------ MODULE Verifier ------------------------------
(***************************************************************************)
(* Verification of fetched ranges (filechecksum.HashVerifier), one hash    *)
(* object used for a whole history of ranges.  The file has N blocks, the  *)
(* last possibly short; only the blocks in `known` have a checksum.  A     *)
(* call verifies blocks first..last of which those in `bad` are corrupted. *)
(* The hash is the sequence of blocks written since its last reset.        *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS N, Depth, Bug
VARIABLES known, hist, call, at, hash, st
(* call: [f, l, bad]; at: the next block; st: "idle" | "run" *)
vars == <<known, hist, call, at, hash, st>>

Blks == 0..(N - 1)
Calls == UNION {{[f |-> f, l |-> l, bad |-> b] : b \in SUBSET (f..l)} : <<f, l>> \in {p \in Blks \X Blks : p[1] <= p[2]}}
Empty == [f |-> 0, l |-> 0, bad |-> {}]

Init == known \in SUBSET Blks /\ hist = <<>> /\ call = Empty /\ at = 0 /\ hash = <<>> /\ st = "idle"

Content(b) == <<b, b \in call.bad>>
Return(r) == hist' = Append(hist, [f |-> call.f, l |-> call.l, bad |-> call.bad, ok |-> r]) /\ st' = "idle" /\ call' = Empty

Begin == st = "idle" /\ Len(hist) < Depth /\ call' \in Calls /\ at' = call'.f /\ st' = "run" /\ UNCHANGED <<known, hist, hash>>
Step ==
  /\ st = "run"
  /\ UNCHANGED known
  /\ IF at > call.l THEN Return(TRUE) /\ UNCHANGED <<at, hash>>
     ELSE IF at \notin known
     THEN IF Bug = "unknownEnds" THEN Return(TRUE) /\ UNCHANGED <<at, hash>>
          ELSE at' = at + 1 /\ UNCHANGED <<hist, call, hash, st>>
     ELSE LET sum == Append(hash, Content(at)) IN
          IF sum = <<<<at, FALSE>>>>
          THEN at' = at + 1 /\ hash' = <<>> /\ UNCHANGED <<hist, call, st>>
          ELSE Return(FALSE) /\ hash' = (IF Bug = "noReset" THEN sum ELSE <<>>) /\ UNCHANGED at
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

\* C10
Accept(c) == c.bad \cap known = {}
InvExact == \A k \in 1..Len(hist) : hist[k].ok = Accept(hist[k])
InvClean == st = "idle" => hash = <<>>
Returns == [](st = "run" => <>(st = "idle"))
Emit == (st = "idle" /\ Len(hist) = Depth) =>
  PrintT(ToJson([n |-> N, known |-> SetToSeq(known),
    calls |-> [k \in 1..Depth |-> [f |-> hist[k].f, l |-> hist[k].l, bad |-> SetToSeq(hist[k].bad), ok |-> hist[k].ok]]]))
=============================================================================
