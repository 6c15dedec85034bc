--------------------------- MODULE ResolverJudge ---------------------------
EXTENDS Seqs, TLC, Json
CONSTANTS File
Recs == ndJsonDeserialize(File)
VARIABLE k
S == INSTANCE Resolver WITH Cases <- {}, Bug <- "none", x <- 0, cur <- 0, reqs <- <<>>, st <- ""
Init == k \in 1..Len(Recs)
Spec == Init /\ [][UNCHANGED k]_k
Judge == PrintT(ToJson([k |-> k, v |-> IF S!SplitOK(Recs[k], Recs[k].split) /\ S!OffsetsOK(Recs[k], Recs[k].off) THEN <<>> ELSE <<"C12">>]))
=============================================================================
