----------------------------- MODULE SharedScans -----------------------------
(***************************************************************************)
(* Scans that run at the same time with one index and one comparer, as     *)
(* RSync.Patch and the diff command run them over sections.  The steps of  *)
(* a scan that touch anything outside of it are its own steps here:        *)
(* reading, the weak lookup, the strong lookup.  The scan itself is        *)
(* Scan.tla; what it finds alone is Alone.                                 *)
(*                                                                         *)
(* Bug: "memo" (the index remembers the last weak lookup), "window" (the   *)
(* comparer keeps one window for all scans), "count" (an update of a       *)
(* counter is lost when another scan is about to update it).               *)
(***************************************************************************)
EXTENDS Blocks, TLC, Json
CONSTANTS Cases,  \* set of [bs, ref, locs]
          Bug
VARIABLES c, sc, cnt, shared, hist
(* sc[s]: [i, len, mode, st, out]; cnt: <<comparisons, weak hits, strong hits>> *)
vars == <<c, sc, cnt, shared, hist>>

S == 1..Len(c.locs)
Fresh(x, l) == [i |-> 0, len |-> x.bs, mode |-> "byte", st |-> "start", out |-> <<>>]
Win(x, l, r) == Bytes(l, r.i, r.len)
Blks(x) == 0..(NumBlocks(x.ref, x.bs) - 1)
Cands(x, w) == {k \in Blks(x) : Weak(Block(x.ref, x.bs, k)) = Weak(w)}
Left(l, r) == Len(l) - (r.i + r.len)

\* one scan as a function of its own state
Shrunk(r) == IF r.len = 0 THEN [r EXCEPT !.st = "done"] ELSE [r EXCEPT !.i = @ + 1, !.len = @ - 1, !.mode = "shrink", !.st = "weak"]
Read1(x, l, r) ==
  CASE r.st = "start" -> [r EXCEPT !.st = IF Len(l) < x.bs THEN "error" ELSE "weak"]
    [] r.mode = "byte" /\ Left(l, r) > 0 -> [r EXCEPT !.i = @ + 1, !.st = "weak"]
    [] r.mode = "byte" -> Shrunk(r)
    [] Left(l, r) >= x.bs -> [r EXCEPT !.i = @ + x.bs, !.mode = "byte", !.st = "weak"]
    [] OTHER -> [r EXCEPT !.i = @ + Left(l, r) + 1, !.len = @ - 1, !.mode = "shrink", !.st = "weak"]
\* after a comparison without a match
Onward(r) == IF r.mode = "shrink" THEN Shrunk(r) ELSE [r EXCEPT !.st = "read"]
Weak1(x, r, cands) == IF cands # {} THEN [r EXCEPT !.st = "strong"] ELSE Onward(r)
Strong1(r, found) ==
  IF found = {} THEN Onward(r)
  ELSE LET q == [r EXCEPT !.out = Append(@, <<r.i, found>>)] IN
       IF r.mode = "shrink" THEN [q EXCEPT !.st = "done"] ELSE [q EXCEPT !.st = "read", !.mode = "block"]

RECURSIVE Run(_, _, _, _)
Run(x, l, r, k) ==
  IF r.st \in {"done", "error"} THEN <<r.out, k>>
  ELSE IF r.st \in {"start", "read"} THEN Run(x, l, Read1(x, l, r), k)
  ELSE LET w == Win(x, l, r)
           cs == Cands(x, w)
           found == {b \in cs : Block(x.ref, x.bs, b) = w}
           after == Weak1(x, r, cs)
       IN Run(x, l, IF cs = {} THEN after ELSE Strong1(after, found),
              <<k[1] + 1, k[2] + (IF cs = {} THEN 0 ELSE 1), k[3] + (IF found = {} THEN 0 ELSE 1)>>)
Alone(x, l) == Run(x, l, Fresh(x, l), <<0, 0, 0>>)

Init ==
  /\ c \in Cases
  /\ sc = [s \in S |-> Fresh(c, c.locs[s])]
  /\ cnt = <<0, 0, 0>> /\ shared = <<>> /\ hist = <<>>

Step(s) == hist' = Append(hist, s) /\ UNCHANGED c
Read(s) ==
  /\ sc[s].st \in {"start", "read"} /\ Step(s)
  /\ sc' = [sc EXCEPT ![s] = Read1(c, c.locs[s], @)]
  /\ shared' = IF Bug = "window" THEN Win(c, c.locs[s], sc'[s]) ELSE shared
  /\ UNCHANGED cnt
WeakLookup(s) ==
  /\ sc[s].st = "weak" /\ Step(s)
  /\ LET w == IF Bug = "window" /\ sc[s].mode # "shrink" THEN shared ELSE Win(c, c.locs[s], sc[s])
         cs == Cands(c, w)
     IN /\ sc' = [sc EXCEPT ![s] = Weak1(c, @, cs)]
        /\ shared' = IF Bug = "memo" THEN <<cs>> ELSE shared
        /\ cnt' = <<cnt[1] + (IF Bug = "count" /\ \E t \in S \ {s} : sc[t].st = "weak" THEN 0 ELSE 1), cnt[2] + (IF cs = {} THEN 0 ELSE 1), cnt[3]>>
StrongLookup(s) ==
  /\ sc[s].st = "strong" /\ Step(s)
  /\ LET w == Win(c, c.locs[s], sc[s])
         cs == IF Bug = "memo" THEN shared[1] ELSE Cands(c, w)
         found == {b \in cs : Block(c.ref, c.bs, b) = w}
     IN /\ sc' = [sc EXCEPT ![s] = Strong1(@, found)]
        /\ cnt' = [cnt EXCEPT ![3] = @ + (IF found = {} THEN 0 ELSE 1)]
  /\ UNCHANGED shared
Ended == \A s \in S : sc[s].st \in {"done", "error"}
Next == \E s \in S : Read(s) \/ WeakLookup(s) \/ StrongLookup(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C23
InvAlone == \A s \in S : sc[s].st \in {"done", "error"} => sc[s].out = Alone(c, c.locs[s])[1]
RECURSIVE Sum(_, _)
Sum(k, n) == IF n = 0 THEN 0 ELSE Alone(c, c.locs[n])[2][k] + Sum(k, n - 1)
InvCount == Ended => cnt = <<Sum(1, Len(c.locs)), Sum(2, Len(c.locs)), Sum(3, Len(c.locs))>>
Ends == <>Ended
NoHist == <<c, sc, cnt, shared>>
Emit == Ended =>
  PrintT(ToJson([bs |-> c.bs, ref |-> c.ref, locs |-> c.locs, hist |-> hist, cnt |-> cnt,
                 outs |-> [s \in S |-> [k \in 1..Len(sc[s].out) |-> [o |-> sc[s].out[k][1], b |-> SetToSeq(sc[s].out[k][2])]]],
                 short |-> [s \in S |-> sc[s].st = "error"]]))
=============================================================================
