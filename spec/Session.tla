------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session made from paths (gosync.MakeRSync, Patch, Close): the files   *)
(* it touches.  File contents are sequences of block ids.                  *)
(*                                                                         *)
(* out says what the output path is:                                       *)
(*   "same"      the input path itself, "alias" another spelling of it,    *)
(*   "hardlink" | "symlink"   another name of the input file,              *)
(*   "inlink"    the file to which the input path is a link, "bothlink"    *)
(*               another link to it, "dirlink" the input path through a    *)
(*               link to its directory,                                    *)
(*   "absent" | "dangling"    nothing yet (a symbolic link to nothing),    *)
(*   "other" | "linkother"    another file, with content old               *)
(*                            (reached by a symbolic link).                *)
(* steps: <<"make">>, "patch", "close" in any history a user can make.     *)
(* fault: "none", or what goes wrong:                                      *)
(*   "noInput" | "noOutDir" | "outIsDir" | "noTemp" | "inBelow" |          *)
(*   "outBelow" (the path goes on below a file) | "longName"   at make     *)
(*   "source" the source cannot deliver block `at` of the reference        *)
(*   "full"   nothing can be written to the output                         *)
(*   "tempGone" | "targetDir" | "targetFull"  between patch and close      *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS Cases, Bug  \* "none" | "noTrunc" | "copyAlways" | "leaveTemp" | "sameByName" | "copyErrorLost"
VARIABLES c, local, target, temp, at, st, failed, patched, todo
(* local: the input file; target: content at the output path, <<>> with exists FALSE;
   temp: temporary file; at: blocks assembled; st: "idle" | "made" | "patching" | "patched" | "copying" | "closed" | "over" *)
vars == <<c, local, target, temp, at, st, failed, patched, todo>>

None == [on |-> FALSE, d |-> <<>>]
File(d) == [on |-> TRUE, d |-> d]
InPlace(x) == x.out \in {"same", "alias", "hardlink", "symlink", "inlink", "dirlink", "bothlink"}
\* what the session takes for in place
UsesTemp(x) == IF Bug = "sameByName" THEN x.out = "same" ELSE InPlace(x)
Fault(f) == c.fault = f
Found(b) == \E k \in 1..Len(c.loc) : c.loc[k] = b

Init ==
  /\ c \in Cases
  /\ local = File(c.loc)
  /\ target = (IF c.out \in {"other", "linkother"} THEN File(c.old) ELSE None)
  /\ temp = None /\ at = 0 /\ st = "idle" /\ failed = FALSE /\ patched = FALSE /\ todo = c.steps

Is(s) == todo # <<>> /\ Head(todo) = s
Fail == failed' = TRUE /\ st' = "over" /\ UNCHANGED <<c, local, target, temp, at, patched, todo>>

\* writing position k of a file: without truncation the old rest stays
Put(f, k, b) == File(Take(k - 1, f.d) \o <<b>> \o Drop(Lesser(k, Len(f.d)), f.d))

Make ==
  /\ st = "idle" /\ Is("make")
  /\ IF c.fault \in {"noInput", "inBelow", "outBelow", "longName"} \/ Fault("noOutDir") \/ Fault("outIsDir") \/ (UsesTemp(c) /\ Fault("noTemp")) THEN Fail
     ELSE /\ st' = "made" /\ todo' = Tail(todo)
          /\ IF UsesTemp(c) THEN temp' = File(<<>>) /\ UNCHANGED <<local, target>>
             ELSE IF InPlace(c) THEN local' = (IF Bug = "noTrunc" THEN local ELSE File(<<>>)) /\ UNCHANGED <<temp, target>>
             ELSE target' = (IF Bug = "noTrunc" /\ target.on THEN target ELSE File(<<>>)) /\ UNCHANGED <<temp, local>>
          /\ UNCHANGED <<c, at, failed, patched>>
StartPatch ==
  /\ st = "made" /\ Is("patch")
  /\ st' = "patching" /\ todo' = Tail(todo) /\ UNCHANGED <<c, local, target, temp, at, failed, patched>>
Assemble ==
  /\ st = "patching" /\ at < Len(c.ref)
  /\ IF (Fault("source") /\ c.at = at + 1 /\ ~Found(c.ref[at + 1])) \/ Fault("full")
     THEN failed' = TRUE /\ st' = "made" /\ UNCHANGED <<c, local, target, temp, at, patched, todo>>
     ELSE /\ at' = at + 1
          /\ LET b == c.ref[at + 1] IN
             IF UsesTemp(c) THEN temp' = Put(temp, at + 1, b) /\ UNCHANGED <<local, target>>
             ELSE IF InPlace(c) THEN local' = Put(local, at + 1, b) /\ UNCHANGED <<temp, target>>
             ELSE target' = Put(target, at + 1, b) /\ UNCHANGED <<temp, local>>
          /\ UNCHANGED <<c, st, failed, patched, todo>>
EndPatch ==
  /\ st = "patching" /\ at = Len(c.ref)
  /\ st' = "made" /\ patched' = TRUE
  /\ UNCHANGED <<c, local, target, temp, at, failed, todo>>
\* closing puts the temporary file in place after a successful patch, and removes it
Close ==
  /\ st = "made" /\ Is("close") /\ todo' = Tail(todo)
  /\ IF UsesTemp(c) /\ (patched \/ Bug = "copyAlways")
     THEN IF (Fault("tempGone") \/ Fault("targetDir") \/ Fault("targetFull")) /\ Bug # "copyErrorLost"
          THEN failed' = TRUE /\ st' = "over" /\ UNCHANGED <<local, temp>>
          ELSE st' = "copying" /\ local' = (IF Fault("tempGone") \/ Fault("targetDir") \/ Fault("targetFull") THEN local ELSE File(<<>>)) /\ UNCHANGED <<temp, failed>>
     ELSE st' = "closed" /\ temp' = None /\ UNCHANGED <<local, failed>>
  /\ UNCHANGED <<c, target, at, patched>>
Copy ==
  /\ st = "copying"
  /\ IF Len(local.d) < Len(temp.d) /\ c.fault \notin {"tempGone", "targetDir", "targetFull"}
     THEN local' = File(Append(local.d, temp.d[Len(local.d) + 1])) /\ UNCHANGED <<temp, st>>
     ELSE st' = "closed" /\ temp' = (IF Bug = "leaveTemp" THEN temp ELSE None) /\ UNCHANGED local
  /\ UNCHANGED <<c, target, at, failed, patched, todo>>
Stop == st = "made" /\ todo = <<>> /\ st' = "over" /\ UNCHANGED <<c, local, target, temp, at, failed, patched, todo>>
Next == Make \/ StartPatch \/ Assemble \/ EndPatch \/ Close \/ Copy \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C19
InvResult == (st = "closed" /\ patched /\ ~failed) =>
  (IF InPlace(c) THEN local ELSE target) = File(c.ref) /\ ~temp.on
InvReported == (st \in {"closed", "over"} /\ "patch" \in Range0(c.steps) /\ todo = <<>>) => (failed => c.fault # "none") /\ (~failed => patched)
\* C20
InvUntouched ==
  /\ ~InPlace(c) => local = File(c.loc)
  /\ InPlace(c) /\ ~(patched /\ ~failed /\ st \in {"copying", "closed"}) => local = File(c.loc)
Ends == <>(st \in {"closed", "over"})
Emit == (st \in {"closed", "over"}) =>
  PrintT(ToJson([c |-> c, failed |-> failed, patched |-> patched, closed |-> st = "closed", inplace |-> InPlace(c),
                 local |-> local.d]))
=============================================================================
