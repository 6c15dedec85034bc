-------------------------------- MODULE Seqs --------------------------------
(* Helpers on numbers and sequences used by all specifications. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Lesser(x, y) == IF x < y THEN x ELSE y
Greater(x, y) == IF x < y THEN y ELSE x
Drop(n, s) == SubSeq(s, n + 1, Len(s))
Take(n, s) == SubSeq(s, 1, n)
Range0(s) == {s[k] : k \in 1..Len(s)}
CeilDiv(x, y) == (x + y - 1) \div y
=============================================================================
