------------------------------- MODULE Index -------------------------------
(***************************************************************************)
(* The checksum index (index.ChecksumIndex): blocks in 256 buckets by the  *)
(* low byte of the weak checksum, per weak checksum a list sorted by the   *)
(* strong one, searched by bisection.  A block is <<weak, strong>>; weak   *)
(* checksums that agree modulo Buckets share a bucket.                     *)
(* The states are: insertion of every block, then one bisection per query. *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS Lists, Weaks, Strongs, Buckets, Bug
VARIABLES list, n, table, q, lo, hi, st
vars == <<list, n, table, q, lo, hi, st>>

Queries == Weaks \X Strongs
Less(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])   \* <<block, strong>>
\* table: bucket -> weak -> sorted sequence of <<block, strong>>
Slot(w) == table[w % Buckets][w]

Init ==
  /\ list \in Lists
  /\ n = 0 /\ q = <<0, 0>> /\ lo = 0 /\ hi = 0 /\ st = "build"
  /\ table = [b \in 0..(Buckets - 1) |-> [w \in Weaks |-> <<>>]]

Insert ==
  /\ st = "build" /\ n < Len(list)
  /\ LET w == list[n + 1][1]
         e == <<n, list[n + 1][2]>>
         old == Slot(w)
         at == Cardinality({k \in 1..Len(old) : Less(old[k], e)})
     IN table' = [table EXCEPT ![w % Buckets][w] = Take(at, old) \o <<e>> \o Drop(at, old)]
  /\ n' = n + 1
  /\ UNCHANGED <<list, q, lo, hi, st>>

\* looks for the first entry that is not smaller
Query ==
  /\ st = "build" /\ n = Len(list)
  /\ q' \in Queries
  /\ lo' = 1 /\ hi' = Len(Slot(q'[1])) + 1 /\ st' = "search"
  /\ UNCHANGED <<list, n, table>>
Bisect ==
  /\ st = "search"
  /\ IF lo < hi
     THEN LET mid == (lo + hi) \div 2 IN
          /\ IF Slot(q[1])[mid][2] >= q[2] THEN hi' = mid /\ UNCHANGED lo ELSE lo' = mid + 1 /\ UNCHANGED hi
          /\ UNCHANGED st
     ELSE st' = "found" /\ UNCHANGED <<lo, hi>>
  /\ UNCHANGED <<list, n, table, q>>
Next == Insert \/ Query \/ Bisect
Spec == Init /\ [][Next]_vars

\* the run of equal entries from lo on
Result ==
  LET s == Slot(q[1]) IN
  {s[k][1] : k \in {k \in lo..Len(s) : s[k][2] = q[2] /\ (Bug = "firstOnly" => k = lo)}}

\* C15
Expected(l, p) == {k \in 0..(Len(l) - 1) : l[k + 1] = p}
InvExact == st = "found" => Result = Expected(list, q)
InvSorted == \A w \in Weaks : \A k \in 1..(Len(Slot(w)) - 1) : Less(Slot(w)[k], Slot(w)[k + 1])
InvAllIn == st = "build" => \A k \in 1..n : \E j \in 1..Len(Slot(list[k][1])) : Slot(list[k][1])[j] = <<k - 1, list[k][2]>>
\* the statistics of the index: blocks sharing a weak checksum
Sharing(l) == {Cardinality({k \in 1..Len(l) : l[k][1] = w}) : w \in {l[k][1] : k \in 1..Len(l)}}
Longest(l) == IF l = <<>> THEN 0 ELSE CHOOSE m \in Sharing(l) : \A o \in Sharing(l) : o <= m
Different(l) == Cardinality({l[k][1] : k \in 1..Len(l)})
InvStats == st = "build" /\ n = Len(list) =>
  /\ \A w \in Weaks : Len(Slot(w)) <= Longest(list)
  /\ Len(list) > 0 => \E w \in Weaks : Len(Slot(w)) = Longest(list)
  /\ Cardinality({w \in Weaks : Slot(w) # <<>>}) = Different(list)
\* one record per list, with the answers to all queries
Emit == (st = "build" /\ n = Len(list)) =>
  PrintT(ToJson([list |-> list, longest |-> Longest(list), different |-> Different(list),
                 ans |-> [p \in 1..(Cardinality(Weaks) * Cardinality(Strongs)) |->
                            LET qq == SetToSeq(Queries)[p] IN [w |-> qq[1], s |-> qq[2], b |-> SetToSeq(Expected(list, qq))]]]))
=============================================================================
