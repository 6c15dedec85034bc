------------------------------- MODULE Rolling -------------------------------
(***************************************************************************)
(* The rolling checksum.  `win` is the bytes in the window; (sa, sb) is    *)
(* kept incrementally by the rules of the code; the invariant says that it *)
(* is always the checksum of the window computed from scratch:             *)
(*     a = sum of the bytes,  b = sum of the prefix sums   (mod 2^16).     *)
(*                                                                         *)
(* Two objects share the model.  Kind = "base": rollsum.Rollsum32Base,     *)
(* whose user hands in the removed bytes and the window length.            *)
(* Kind = "hash": rollsum.Rollsum32, which keeps the window itself.        *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json

CONSTANTS
  Kind, BS, Depth,
  Lens,      \* lengths of additions
  Patterns,  \* set of <<first, step>>: byte k of an addition is (first + k*step) % 256
  Bug        \* "none" | "lengthAfter" (removal weighs a byte with the length after removal)

VARIABLES win, sa, sb, hist
vars == <<win, sa, sb, hist>>

M == 65536
Mod(x) == x % M

Bytes(p, n) == [k \in 1..n |-> (p[1] + k * p[2]) % 256]

\* from scratch
SumA(s) == FoldLeft(LAMBDA acc, x : Mod(acc + x), 0, s)
SumB(s) == FoldLeft(LAMBDA acc, x : <<Mod(acc[1] + x), Mod(acc[2] + Mod(acc[1] + x))>>, <<0, 0>>, s)[2]

\* incremental, on a pair <<a, b>>
AddB(ab, x) == LET a2 == Mod(ab[1] + x) IN <<a2, Mod(ab[2] + a2)>>
AddAll(ab, s) == FoldLeft(AddB, ab, s)
RemB(ab, x, len) == <<Mod(ab[1] - x), Mod(ab[2] - ((IF Bug = "lengthAfter" THEN len - 1 ELSE len) * x))>>
RemAll(ab, s, len) == FoldLeft(LAMBDA acc, x : <<RemB(acc[1], x, acc[2]), acc[2] - 1>>, <<ab, len>>, s)[1]
\* additions first as far as nothing is removed, then in pairs
Pairs(ab, add, rem, len) ==
  FoldLeft(LAMBDA acc, k : AddB(RemB(acc, rem[k], len), add[k]), ab, [k \in 1..Len(add) |-> k])
AddRem(ab, add, rem, len) ==
  LET k == Len(add) - Len(rem) IN Pairs(AddAll(ab, Take(k, add)), Drop(k, add), rem, len + k)

Set(ab) == sa' = ab[1] /\ sb' = ab[2]
Log(op, p, n, m) ==
  hist' = Append(hist, [op |-> op, p |-> p, n |-> n, m |-> m, a |-> sa', b |-> sb', len |-> Len(win')])

Init == win = <<>> /\ sa = 0 /\ sb = 0 /\ hist = <<>>

Reset == win' = <<>> /\ Set(<<0, 0>>) /\ Log("reset", <<0, 0>>, 0, 0)

\* -- base
Add(p, n) ==
  /\ Len(win) + n <= BS
  /\ win' = win \o Bytes(p, n)
  /\ Set(AddAll(<<sa, sb>>, Bytes(p, n)))
  /\ Log("add", p, n, 0)
RemoveOldest(n) ==
  /\ n <= Len(win)
  /\ win' = Drop(n, win)
  /\ Set(RemAll(<<sa, sb>>, Take(n, win), Len(win)))
  /\ Log("remove", <<0, 0>>, n, 0)
\* add n bytes and remove the m oldest (m <= n)
AddRemove(p, n, m) ==
  /\ m <= n /\ m <= Len(win) /\ Len(win) + n - m <= BS
  /\ win' = Drop(m, win) \o Bytes(p, n)
  /\ Set(AddRem(<<sa, sb>>, Bytes(p, n), Take(m, win), Len(win)))
  /\ Log("addremove", p, n, m)
SetBlock(p, n) ==
  /\ win' = Bytes(p, n)
  /\ Set(AddAll(<<0, 0>>, Bytes(p, n)))
  /\ Log("set", p, n, 0)

BaseNext ==
  \/ \E p \in Patterns, n \in Lens :
       \/ Add(p, n)
       \/ SetBlock(p, Lesser(n, BS))
       \/ \E m \in Lens : AddRemove(p, n, m)
       \* a full window shifts by n
       \/ n <= BS /\ Len(win) = BS /\ AddRemove(p, n, n)
  \/ \E n \in Lens : RemoveOldest(n)
  \/ Reset

\* -- hash: a write of any length
Write(p, n) ==
  LET new == Bytes(p, n)
      all == win \o new
      out == IF Len(all) > BS THEN Len(all) - BS ELSE 0
  IN /\ win' = Drop(out, all)
     /\ IF n >= BS THEN Set(AddAll(<<0, 0>>, Drop(n - BS, new)))
        ELSE Set(AddRem(<<sa, sb>>, new, Take(out, win), Len(win)))
     /\ Log("write", p, n, 0)

HashNext == (\E p \in Patterns, n \in Lens : Write(p, n)) \/ Reset

Next == Len(hist) < Depth /\ (IF Kind = "base" THEN BaseNext ELSE HashNext)
Spec == Init /\ [][Next]_vars

\* the property
FromScratch == sa = SumA(win) /\ sb = SumB(win)
Bounded == Len(win) <= BS

Emit == Len(hist) = Depth => PrintT(ToJson([kind |-> Kind, bs |-> BS, ops |-> hist]))
=============================================================================
