------------------------------ MODULE Compare ------------------------------
(***************************************************************************)
(* What the compare command (cmd/gosync diff) states: the local file is    *)
(* cut into overlapping sections, every section is scanned (SharedScans,   *)
(* Scan), the matches are merged, and the numbers printed follow from the  *)
(* blocks found and from the scans' counters.                              *)
(*                                                                         *)
(* A case: [bs, ref, loc, p]; a file below Whole bytes is not cut.         *)
(* Bug: "noOverlap" (sections do not overlap), "highest" (what is missing  *)
(* is counted up to the highest block found only), "dupes" (a block found  *)
(* twice counts twice).                                                    *)
(***************************************************************************)
EXTENDS Blocks, TLC, Json
CONSTANTS Cases, Whole, Bug
VARIABLES c, k, cnt, found, st
(* k: sections scanned; cnt: <<comparisons, weak hits, strong hits>>; found: sequence of the blocks reported *)
vars == <<c, k, cnt, found, st>>
SS == INSTANCE SharedScans WITH Cases <- {}, Bug <- "none", c <- c, sc <- <<>>, cnt <- cnt, shared <- <<>>, hist <- <<>>

N(x) == NumBlocks(x.ref, x.bs)
Matchers(x) == IF Len(x.loc) < Whole THEN 1 ELSE x.p
SectionSize(x) == LET s == Len(x.loc) \div Matchers(x) IN s + x.bs - (s % x.bs)
\* section j, from 0
Section(x, j) ==
  LET from == SectionSize(x) * j
      len == SectionSize(x) + (IF Bug = "noOverlap" THEN 0 ELSE x.bs)
  IN IF from >= Len(x.loc) THEN <<>> ELSE SubSeq(x.loc, from + 1, Lesser(from + len, Len(x.loc)))

Init == c \in Cases /\ k = 0 /\ cnt = <<0, 0, 0>> /\ found = <<>> /\ st = "scan"
Scan1 ==
  /\ st = "scan" /\ k < Matchers(c)
  /\ LET r == SS!Alone(c, Section(c, k))
     IN /\ cnt' = [j \in 1..3 |-> cnt[j] + r[2][j]]
        /\ found' = found \o FoldLeft(LAMBDA acc, q : acc \o SetToSeq(q[2]), <<>>, r[1])
  /\ k' = k + 1 /\ UNCHANGED <<c, st>>
Print1 == st = "scan" /\ k = Matchers(c) /\ st' = "printed" /\ UNCHANGED <<c, k, cnt, found>>
Next == Scan1 \/ Print1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Matched == IF Bug = "dupes" THEN Len(found) ELSE Cardinality(Range0(found))
Top == IF Bug = "highest" /\ found # <<>> THEN CHOOSE b \in Range0(found) : \A o \in Range0(found) : o <= b ELSE N(c) - 1
Missing == Cardinality((0..Top) \ Range0(found))

\* C26
Printed == st = "printed"
InvTogether == Printed => Matched + Missing = N(c)
InvOrder == cnt[3] <= cnt[2] /\ cnt[2] <= cnt[1] /\ (cnt[3] = 0 <=> found = <<>>)
\* found are blocks of the local file only
InvFound == \A b \in Range0(found) : \E o \in 0..Len(c.loc) : LET w == Block(c.ref, c.bs, b) IN o + Len(w) <= Len(c.loc) /\ Bytes(c.loc, o, Len(w)) = w
\* a file misses nothing of itself
InvItself == Printed /\ c.loc = c.ref /\ Len(c.ref) >= c.bs => Matched = N(c) /\ Missing = 0
\* a block that lies in the local file where no other match can cover its start is found, however many sections there are
Alone1(b) ==
  LET w == Block(c.ref, c.bs, b) IN Len(w) = c.bs /\ \E o \in 0..(Len(c.loc) - c.bs) :
    /\ Bytes(c.loc, o, c.bs) = w
    /\ \A q \in (o - c.bs + 1)..(o - 1) : q < 0 \/ BlocksWith(c.ref, c.bs, Bytes(c.loc, q, Lesser(c.bs, Len(c.loc) - q))) = {}
    /\ LET l == N(c) - 1
           s == Block(c.ref, c.bs, l)
       IN Len(s) = c.bs \/ \A q \in (o - c.bs + 1)..(o - 1) : q < 0 \/ Bytes(c.loc, q, Len(s)) # s
InvAllFound == Printed => \A b \in 0..(N(c) - 1) : Alone1(b) => b \in Range0(found)
Ends == <>Printed
Emit == Printed => PrintT(ToJson([bs |-> c.bs, ref |-> c.ref, loc |-> c.loc, p |-> c.p, sections |-> Matchers(c), cnt |-> cnt,
                                  blocks |-> N(c), matched |-> Matched, missing |-> Missing]))
=============================================================================
