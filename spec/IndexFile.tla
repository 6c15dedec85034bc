----------------------------- MODULE IndexFile -----------------------------
(***************************************************************************)
(* Loading alternating weak and strong checksums                           *)
(* (chunks.LoadChecksumsFromReader).  The stream holds the first `cut`     *)
(* bytes of the written entries and then ends ("eof") or fails ("fail").   *)
(* The reader delivers any number of bytes at a time.                      *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS Shapes,   \* set of [n, w, s]: entries, size of a weak and of a strong checksum
          Bug
VARIABLES sh, cut, kind, got, part, list, st
(* got: bytes consumed; part: bytes of the current field; list: entries loaded; st: "weak" | "strong" | "ok" | "err" *)
vars == <<sh, cut, kind, got, part, list, st>>

Total(x) == x.n * (x.w + x.s)
Init ==
  /\ sh \in Shapes
  /\ cut \in 0..Total(sh)
  /\ kind \in {"eof", "fail"}
  /\ got = 0 /\ part = 0 /\ list = 0 /\ st = "weak"

Field == IF st = "weak" THEN sh.w ELSE sh.s
Read ==
  /\ st \in {"weak", "strong"} /\ part < Field /\ got < cut
  /\ \E d \in 1..Lesser(Field - part, cut - got) : got' = got + d /\ part' = part + d
  /\ UNCHANGED <<sh, cut, kind, list, st>>
Full ==
  /\ st \in {"weak", "strong"} /\ part = Field
  /\ part' = 0
  /\ IF st = "weak" THEN st' = "strong" /\ UNCHANGED list ELSE st' = "weak" /\ list' = list + 1
  /\ UNCHANGED <<sh, cut, kind, got>>
Over ==
  /\ st \in {"weak", "strong"} /\ part < Field /\ got = cut
  /\ st' = IF kind = "eof" /\ part = 0 /\ (st = "weak" \/ Bug = "halfEntry") THEN "ok" ELSE "err"
  /\ UNCHANGED <<sh, cut, kind, got, part, list>>
Next == Read \/ Full \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C17
Accept(x, c, k) == k = "eof" /\ c % (x.w + x.s) = 0
InvLoaded == st = "ok" => Accept(sh, cut, kind) /\ list = cut \div (sh.w + sh.s) /\ got = cut
InvRejected == st = "err" => ~Accept(sh, cut, kind)
Ends == <>(st \in {"ok", "err"})
Emit == (got = 0 /\ part = 0 /\ st = "weak") =>
  PrintT(ToJson([n |-> sh.n, w |-> sh.w, s |-> sh.s, cut |-> cut, kind |-> kind,
                 ok |-> Accept(sh, cut, kind), list |-> IF Accept(sh, cut, kind) THEN cut \div (sh.w + sh.s) ELSE 0]))
=============================================================================
