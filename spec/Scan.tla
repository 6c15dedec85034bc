-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* Scanning a local file for the blocks of a reference                     *)
(* (comparer.StartFindMatchingBlocks): a window of one block slides over   *)
(* the local bytes; where it equals reference blocks all of them are       *)
(* reported and the window moves on by a whole block (a matched region is  *)
(* not scanned again); at the end of the data the window shrinks from the  *)
(* front, so that a short final block of the reference is found.           *)
(*                                                                         *)
(* The weak checksum filters candidates as in the code; blocks with equal  *)
(* weak checksum and different content must be told apart by the strong    *)
(* one.  Bug = "weakOnly" | "skipTail" | "overlapSkip" are mutants.        *)
(***************************************************************************)
EXTENDS Blocks, TLC, Json

CONSTANTS
  Cases,   \* sequence or set of [bs, ref, loc]
  Bug

VARIABLES c, i, len, mode, out, st
(* c: the case; i: offset of the window; len: its length;
   mode: what comes next, "byte" | "block" | "shrink"; out: reports so far, <<offset, blocks>>;
   st: "compare" | "advance" | "done" *)
vars == <<c, i, len, mode, out, st>>

Init ==
  /\ c \in Cases
  /\ i = 0 /\ len = c.bs /\ mode = "byte" /\ out = <<>>
  /\ st = IF Len(c.loc) < c.bs THEN "error" ELSE "compare"

Window == Bytes(c.loc, i, len)
Candidates == {k \in 0..(NumBlocks(c.ref, c.bs) - 1) : Weak(Block(c.ref, c.bs, k)) = Weak(Window)}
Found == IF Bug = "weakOnly" THEN Candidates ELSE {k \in Candidates : Block(c.ref, c.bs, k) = Window}

Compare ==
  /\ st = "compare"
  /\ IF Found # {}
     THEN /\ out' = Append(out, <<i, Found>>)
          /\ IF mode = "shrink" THEN st' = "done" /\ UNCHANGED mode
             ELSE st' = "advance" /\ mode' = "block"
     ELSE st' = "advance" /\ UNCHANGED <<out, mode>>
  /\ UNCHANGED <<c, i, len>>

\* bytes of the local file not yet in the window
Left == Len(c.loc) - (i + len)

Shrink ==
  \* the oldest byte leaves; an empty window ends the scan
  IF len = 0 THEN st' = "done" /\ UNCHANGED <<i, len>>
  ELSE /\ i' = i + 1 /\ len' = len - 1
       /\ st' = IF Bug = "skipTail" THEN "done" ELSE "compare"

Advance ==
  /\ st = "advance"
  /\ UNCHANGED <<c, out>>
  /\ \/ /\ mode = "byte" /\ Left > 0
        /\ i' = i + 1 /\ st' = "compare" /\ UNCHANGED <<len, mode>>
     \/ /\ mode = "block" /\ Left >= c.bs
        /\ i' = i + c.bs + (IF Bug = "overlapSkip" /\ Left > c.bs THEN 1 ELSE 0)
        /\ st' = "compare" /\ mode' = "byte" /\ UNCHANGED len
     \/ \* the data ends within the next block: move on by what is left
        /\ mode = "block" /\ Left < c.bs
        /\ i' = i + Left + 1 /\ len' = len - 1
        /\ mode' = "shrink" /\ st' = "compare"
     \/ /\ mode = "byte" /\ Left = 0 /\ mode' = "shrink" /\ Shrink
     \/ /\ mode = "shrink" /\ Shrink /\ UNCHANGED mode

Next == Compare \/ Advance
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* The properties, of any list of reports rep for a case x; the harness's   *)
(* records are judged by the same operators (ScanJudge.tla).                *)

\* C05
Genuine(x, rep) ==
  \A r \in Range0(rep) : \A k \in r[2] :
    /\ k < NumBlocks(x.ref, x.bs)
    /\ LET w == Block(x.ref, x.bs, k) IN r[1] >= 0 /\ r[1] + Len(w) <= Len(x.loc) /\ Bytes(x.loc, r[1], Len(w)) = w

ReportedAt(rep, p) == UNION {r[2] : r \in {q \in Range0(rep) : q[1] = p}}
Matches(x, p) == BlocksWith(x.ref, x.bs, Bytes(x.loc, p, x.bs))

\* C04
CompleteAt(x, rep, p) ==
  \/ Matches(x, p) = {}
  \/ Matches(x, p) \subseteq ReportedAt(rep, p)
  \/ \E r \in Range0(rep) : r[1] < p /\ p < r[1] + x.bs
Complete(x, rep) == \A p \in 0..(Len(x.loc) - x.bs) : CompleteAt(x, rep, p)
ShortFinal(x, rep) ==
  LET n == LastLen(x.ref, x.bs)
      p == Len(x.loc) - n
      last == NumBlocks(x.ref, x.bs) - 1
  IN n > 0 /\ n < x.bs /\ Bytes(x.loc, p, n) = Block(x.ref, x.bs, last)
       => last \in ReportedAt(rep, p)

Ended == st = "done"
InvGenuine == Genuine(c, out)
InvComplete == Ended => Complete(c, out)
InvShortFinal == Ended => ShortFinal(c, out)
Ascending == \A k \in 1..(Len(out) - 1) : out[k][1] < out[k + 1][1]
InWindow == st \in {"compare", "advance"} => i >= 0 /\ i + len <= Len(c.loc) /\ len <= c.bs
Terminates == <>(st \in {"done", "error"})

\* for coverage: two blocks or windows that only the strong checksum tells apart
Collision == st = "compare" /\ Candidates # Found

Emit == st \in {"done", "error"} =>
  PrintT(ToJson([bs |-> c.bs, ref |-> c.ref, loc |-> c.loc, out |-> [k \in 1..Len(out) |-> [o |-> out[k][1], b |-> SetToSeq(out[k][2])]],
                 short |-> st = "error"]))
=============================================================================
