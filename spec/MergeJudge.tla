----------------------------- MODULE MergeJudge -----------------------------
(* [bs, max, rep: <<<<block, offset>>, ...>>, merged, missing] *)
EXTENDS Seqs, TLC, Json
CONSTANTS File
Recs == ndJsonDeserialize(File)
VARIABLE k
S == INSTANCE Merge WITH N <- 0, BS <- 0, Aligns <- {}, Streams <- {}, Depth <- 99, Fails <- 0, AlwaysJoin <- TRUE, Bug <- "none",
                         spans <- {}, hist <- <<>>, failed <- {}
Init == k \in 1..Len(Recs)
Spec == Init /\ [][UNCHANGED k]_k
OK(r) == S!MergedOK(r.bs, Range0(r.rep), r.merged) /\ S!MissingOK(r.max, r.merged, r.missing)
Judge == PrintT(ToJson([k |-> k, v |-> IF OK(Recs[k]) THEN <<>> ELSE <<"C06">>]))
=============================================================================
