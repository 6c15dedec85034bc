----------------------------- MODULE HttpFetch -----------------------------
(***************************************************************************)
(* One ranged fetch over HTTP (blocksources.HttpRequester).  The client    *)
(* asks for bytes [from, to) without compression; the server's answer is   *)
(* the case:                                                               *)
(*   conn     "ok" | "refused" | "closed" | "garbage" | "halfHeader" |     *)
(*            "badurl": how far the answer comes at all                    *)
(*   hops     redirects before the answer                                  *)
(*   interim  a 100 (Continue) comes first                                 *)
(*   status, gzip (how the coding is announced; "no": it is not)           *)
(*   framing  "length" | "chunked" | "close"                               *)
(*   sent     bytes of the body really sent, said: announced length        *)
(*   ended    whether the body is brought to its end                       *)
(* Blocks first..last of a file of fs bytes, bs each, are wanted.          *)
(*   huge     the replay takes blocks of 1 GiB: position b*bs+i stands for *)
(*            b*2^30+i (only with first = last = the short last block)     *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS Cases, Bug  \* "none" | "anyStatus" | "anyCoding" | "anyLength" | "anyEnd" | "wholeBlocks"
VARIABLES c, st, seen, asked, data
(* st: "new" | "asked" | "answered" | "body" | "ok" | "err" | "notfound"; seen: body bytes read *)
vars == <<c, st, seen, asked, data>>

From(x) == x.first * x.bs
To(x) == Lesser((x.last + 1) * x.bs, x.fs)
Want(x) == To(x) - From(x)

Init == c \in Cases /\ st = "new" /\ seen = 0 /\ asked = <<>> /\ data = 0
Ask ==
  /\ st = "new"
  /\ asked' = <<From(c), (IF Bug = "wholeBlocks" THEN (c.last + 1) * c.bs ELSE To(c)) - 1>>
  /\ st' = IF c.conn \in {"refused", "badurl"} THEN "err" ELSE "asked"
  /\ UNCHANGED <<c, seen, data>>
Answer ==
  /\ st = "asked"
  /\ st' = IF c.conn # "ok" THEN "err"
           ELSE IF c.status = 404 THEN "notfound"
           ELSE IF c.status # 206 /\ Bug # "anyStatus" THEN "err"
           ELSE IF c.gzip # "no" /\ Bug # "anyCoding" THEN "err"
           ELSE "body"
  /\ UNCHANGED <<c, seen, asked, data>>
\* what of the body can be read: an announced length hides the rest
Visible == IF c.framing = "length" THEN Lesser(c.sent, c.said) ELSE c.sent
Complete == IF c.framing = "length" THEN c.sent >= c.said ELSE IF c.framing = "chunked" THEN c.ended ELSE TRUE
\* a large body is read in a few large pieces
Pieces(n) == IF n <= 64 THEN 1..n ELSE {n, (n + 1) \div 2}
Receive ==
  /\ st = "body" /\ seen < Visible
  /\ \E d \in Pieces(Visible - seen) : seen' = seen + d
  /\ UNCHANGED <<c, st, asked, data>>
EndOfBody ==
  /\ st = "body" /\ seen = Visible
  /\ IF (Complete \/ Bug = "anyEnd") /\ (seen = Want(c) \/ Bug = "anyLength")
     THEN st' = "ok" /\ data' = seen
     ELSE st' = "err" /\ UNCHANGED data
  /\ UNCHANGED <<c, seen, asked>>
Next == Ask \/ Answer \/ Receive \/ EndOfBody
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C18
Good(x) == x.conn = "ok" /\ x.status = 206 /\ x.gzip = "no"
           /\ (CASE x.framing = "length" -> x.said = Want(x) /\ x.sent >= x.said
                 [] x.framing = "chunked" -> x.sent = Want(x) /\ x.ended
                 [] OTHER -> x.sent = Want(x))
InvAccept == st = "ok" => Good(c) /\ data = Want(c)
InvRefuse == st \in {"err", "notfound"} => ~Good(c) /\ data = 0
InvNotFound == (st = "notfound") => c.status = 404 /\ c.conn = "ok"
InvAsked == st # "new" => asked = <<From(c), To(c) - 1>>
Ends == <>(st \in {"ok", "err", "notfound"})
Expected(x) == IF Good(x) THEN "ok" ELSE IF x.conn = "ok" /\ x.status = 404 THEN "notfound" ELSE "err"
Emit == st = "new" => PrintT(ToJson([c |-> c, from |-> From(c), to |-> To(c), want |-> Expected(c)]))
=============================================================================
