----------------------------- MODULE ReadSource -----------------------------
(***************************************************************************)
(* A block source over a seekable reader (NewReadSeekerBlockSource): each  *)
(* range is fetched by seeking to its first byte and reading until it is   *)
(* complete or the data end.  One fetch at a time; results are collected   *)
(* before the next range is asked for or, in a case that is late, after    *)
(* all were fetched: they do not change while they wait.  Between ranges   *)
(* others may move the reader.                                             *)
(* A case: len bytes of data, blocks of bs bytes, fs the file size the     *)
(* resolver knows (0: unknown), the spans asked for, and a fault:          *)
(*   <<"none", 0>>, <<"read", p>> (byte p cannot be read),                 *)
(*   <<"seek", k>> (the k-th seek fails);                                  *)
(* moves: where the reader is moved to before the j-th range (-1: nobody   *)
(* moves it).                                                              *)
(* Bug: "noSeek" | "padded" (what is missing is made up) | "errIsEnd"      *)
(*   | "believes" (seeks only if the last range did not end here)          *)
(*   | "oneBuffer" (a later range overwrites those that wait)               *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS Cases, Bug
VARIABLES c, k, pos, got, st, out, seeks
(* k: ranges asked for so far; pos: where the reader stands; got: bytes of this range read so far;
   st: "idle" | "read" | "failed"; out: per delivered range <<first byte, number of bytes>> *)
vars == <<c, k, pos, got, st, out, seeks>>

Lo(x, j) == x.spans[j][1] * x.bs
Hi(x, j) == LET e == (x.spans[j][2] + 1) * x.bs IN IF x.fs > 0 THEN Lesser(e, x.fs) ELSE e

\* where the reader stands when the next range is asked for
Stands == IF k < Len(c.moves) /\ c.moves[k + 1] >= 0 THEN c.moves[k + 1] ELSE pos

Init == c \in Cases /\ k = 0 /\ pos = 0 /\ got = 0 /\ st = "idle" /\ out = <<>> /\ seeks = 0
Ask ==
  /\ st = "idle" /\ k < Len(c.spans)
  /\ k' = k + 1 /\ seeks' = seeks + 1 /\ got' = 0
  /\ IF c.fault = <<"seek", seeks + 1>> THEN st' = "failed" /\ UNCHANGED pos
     ELSE st' = "read" /\ pos' = (IF Bug = "noSeek" \/ (Bug = "believes" /\ k > 0 /\ Lo(c, k + 1) = Hi(c, k)) THEN Stands ELSE Lo(c, k + 1))
  /\ UNCHANGED <<c, out>>
Deliver(n) ==
  /\ st' = "idle"
  /\ out' = Append(IF Bug = "oneBuffer" /\ c.late THEN [j \in 1..Len(out) |-> <<Lo(c, k), Lesser(out[j][2], n)>>] ELSE out, <<Lo(c, k), n>>)
Read ==
  /\ st = "read"
  /\ LET want == Hi(c, k) - Lo(c, k) - got
         bad == c.fault[1] = "read" /\ pos >= c.fault[2]
         most == Lesser(want, Greater(0, (IF c.fault[1] = "read" THEN Lesser(c.fault[2], c.len) ELSE c.len) - pos))
     IN IF want = 0 THEN Deliver(got) /\ UNCHANGED <<pos, got>>
        ELSE IF bad /\ Bug # "errIsEnd" /\ pos < c.len THEN st' = "failed" /\ UNCHANGED <<out, pos, got>>
        ELSE IF most = 0
             THEN \* the end of the data
                  IF got = 0 /\ Bug # "padded" THEN st' = "failed" /\ UNCHANGED <<out, pos, got>>
                  ELSE Deliver(IF Bug = "padded" THEN Hi(c, k) - Lo(c, k) ELSE got) /\ UNCHANGED <<pos, got>>
             ELSE \E d \in 1..most : pos' = pos + d /\ got' = got + d /\ UNCHANGED <<out, st>>
  /\ UNCHANGED <<c, k, seeks>>
Next == Ask \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C24
Held(x, j) == Greater(0, Lesser(Hi(x, j), x.len) - Lo(x, j))
Broken(x, j) == x.fault = <<"seek", j>> \/ (x.fault[1] = "read" /\ x.fault[2] < Lesser(Hi(x, j), x.len))
                \/ Held(x, j) = 0
InvExact == \A j \in 1..Len(out) : out[j] = <<Lo(c, j), Held(c, j)>> /\ ~Broken(c, j)
InvAt == st = "read" => pos = Lo(c, k) + got
InvFails == st = "failed" => Broken(c, k)
Ended == st = "failed" \/ (st = "idle" /\ k = Len(c.spans))
Ends == <>Ended
Emit == Ended => PrintT(ToJson([c |-> c, out |-> out, failed |-> st = "failed"]))
=============================================================================
