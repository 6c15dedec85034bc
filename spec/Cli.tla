-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line tool: build writes an index, something may happen to   *)
(* it, then patch or diff uses it.  The index is a header of six fields    *)
(* (fileformat.md) followed by one entry of 20 bytes per block.            *)
(*                                                                         *)
(* A case: n (bytes of the reference), bs, cmd "patch" | "diff",           *)
(*   dmg <<kind, at>>:                                                     *)
(*     "none"; "cut" (at bytes are left); "extra" (at bytes are appended); *)
(*     "magic" (byte at is changed); "major" | "minor" | "patch" (the      *)
(*     version number becomes at); "size" (at is added to the file size);  *)
(*     "bs0" (block size 0)                                                *)
(*   loc: how the local file came from the reference (see Lost); flat: the *)
(*     content repeats itself, otherwise it is random                        *)
(*   bad: "none", or "source" (the source cannot deliver block at0),       *)
(*     "local" (no local file), "index" (no index), "args" (at0 arguments) *)
(*     "place" (the result cannot be put in place of the local file: what  *)
(*     stood there becomes a directory, or a full device, while the patch  *)
(*     goes on), "full" (the device of the output is full)                 *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS Cases, Bug  \* "none" | "ignoreHeader" | "ignoreCount" | "ignoreResult" | "ignoreClose"
VARIABLES c, st, fld, pos, entries, written
(* st: "args" | "header" | "entries" | "check" | "run" | "done" | "refused" | "failed"; written: the output was opened *)
vars == <<c, st, fld, pos, entries, written>>

Header == <<<<"magic", 6>>, <<"major", 2>>, <<"minor", 2>>, <<"patch", 2>>, <<"size", 8>>, <<"bs", 4>>>>
Blocks(x) == CeilDiv(x.n, x.bs)
Length(x) == 24 + 20 * Blocks(x)
Left(x) == CASE x.dmg[1] = "cut" -> x.dmg[2] [] x.dmg[1] = "extra" -> Length(x) + x.dmg[2] [] OTHER -> Length(x)
Size(x) == IF x.dmg[1] = "size" THEN x.n + x.dmg[2] ELSE x.n
Major == 0

Init == c \in Cases /\ st = "args" /\ fld = 1 /\ pos = 0 /\ entries = 0 /\ written = FALSE

Args ==
  /\ st = "args"
  /\ st' = IF c.bad \in {"args", "index"} THEN "refused" ELSE "header"
  /\ UNCHANGED <<c, fld, pos, entries, written>>
Wrong(f) ==
  CASE f = "magic" -> c.dmg[1] = "magic"
    [] f = "major" -> c.dmg[1] = "major" /\ c.dmg[2] # Major
    [] f = "size" -> Size(c) < 0
    [] f = "bs" -> c.dmg[1] = "bs0"
    [] OTHER -> FALSE
Field ==
  /\ st = "header"
  /\ IF fld > Len(Header) THEN st' = "entries" /\ UNCHANGED <<fld, pos>>
     ELSE IF pos + Header[fld][2] > Left(c) \/ (Wrong(Header[fld][1]) /\ Bug # "ignoreHeader")
          THEN st' = "refused" /\ UNCHANGED <<fld, pos>>
          ELSE pos' = pos + Header[fld][2] /\ fld' = fld + 1 /\ UNCHANGED st
  /\ UNCHANGED <<c, entries, written>>
Entry ==
  /\ st = "entries"
  /\ IF Left(c) - pos >= 20 THEN pos' = pos + 20 /\ entries' = entries + 1 /\ UNCHANGED st
     ELSE st' = (IF Left(c) = pos THEN "check" ELSE "refused") /\ UNCHANGED <<pos, entries>>
  /\ UNCHANGED <<c, fld, written>>
Check ==
  /\ st = "check"
  /\ st' = IF entries # CeilDiv(Size(c), c.bs) /\ Bug # "ignoreCount" THEN "refused" ELSE "run"
  /\ UNCHANGED <<c, fld, pos, entries, written>>
Run ==
  /\ st = "run"
  /\ st' = IF c.bad = "local" \/ (c.bad \in {"source", "full"} /\ Bug # "ignoreResult") \/ (c.bad = "place" /\ Bug # "ignoreClose") THEN "failed" ELSE "done"
  /\ written' = (c.cmd = "patch" /\ c.bad # "local")
  /\ UNCHANGED <<c, fld, pos, entries>>
Next == Args \/ Field \/ Entry \/ Check \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C21: what may be used
Usable(x) == /\ x.dmg[1] \in {"none", "minor", "patch"} \/ (x.dmg[1] = "cut" /\ x.dmg[2] = Length(x)) \/ (x.dmg[1] = "extra" /\ x.dmg[2] = 0)
                \/ (x.dmg[1] = "major" /\ x.dmg[2] = Major) \/ (x.dmg[1] = "size" /\ Size(x) >= 0 /\ CeilDiv(Size(x), x.bs) = Blocks(x))
             /\ x.bad \notin {"args", "index"}
InvRefused == st = "refused" => ~Usable(c) /\ ~written
InvUsed == st \in {"run", "done", "failed"} => Usable(c)
InvDone == st = "done" => c.bad = "none" /\ entries = Blocks(c)
InvLayout == Length(c) = 24 + 20 * Blocks(c)
\* the blocks that do not occur in the local file (random content), b from 0
Lost(x) ==
  LET all == 0..(Blocks(x) - 1)
      End(b) == Lesser((b + 1) * x.bs, x.n)
  IN CASE x.loc \in {"same", "shifted", "late", "longer", "swapped"} -> {}
       [] x.loc = "hole" -> {b \in all : b * x.bs <= x.n \div 2 /\ x.n \div 2 < End(b)}
       [] x.loc = "shorter" -> {b \in all : End(b) > (x.n * 2) \div 3}
       [] x.loc = "tail" -> {b \in all : b * x.bs < x.n - x.n \div 2}
       [] OTHER -> all
LocalSize(x) ==
  CASE x.loc = "empty" -> 0 [] x.loc = "shifted" -> x.n + 3 [] x.loc = "late" -> x.n + x.bs - 1
    [] x.loc = "shorter" -> (x.n * 2) \div 3
    [] x.loc = "longer" -> 2 * x.n + 1 [] x.loc = "tail" -> x.n \div 2 [] OTHER -> x.n
\* what a comparison must report as missing; <<>>: left open. A short last block is only looked for at the end.
Report(x) ==
  IF x.cmd # "diff" \/ x.n < x.bs THEN <<>>
  ELSE IF x.loc = "same" THEN <<0>>
  ELSE IF x.flat \/ x.bs < 16 \/ LocalSize(x) < x.bs \/ (x.loc = "swapped" /\ x.n % x.bs # 0) THEN <<>>
  ELSE <<Cardinality(Lost(x))>>
InvReport == c.loc \in {"same", "shifted", "late", "longer"} => Lost(c) = {}
Ends == <>(st \in {"done", "refused", "failed"})
Emit == (st \in {"done", "refused", "failed"}) => PrintT(ToJson([c |-> c, end |-> st, len |-> Length(c), report |-> Report(c)]))
=============================================================================
