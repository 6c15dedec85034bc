------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* Files as byte strings, blocks, and which blocks of a reference a window *)
(* of a local file equals.  Blocks are numbered from 0.                    *)
(***************************************************************************)
EXTENDS Seqs

NumBlocks(f, bs) == CeilDiv(Len(f), bs)
Block(f, bs, k) == SubSeq(f, k * bs + 1, Lesser((k + 1) * bs, Len(f)))
\* n bytes of f from offset p
Bytes(f, p, n) == SubSeq(f, p + 1, p + n)
LastLen(f, bs) == IF Len(f) = 0 THEN 0 ELSE Len(f) - (NumBlocks(f, bs) - 1) * bs

\* the blocks of ref whose content is w
BlocksWith(ref, bs, w) == {k \in 0..(NumBlocks(ref, bs) - 1) : Block(ref, bs, k) = w}

\* the weak checksum of a window (Rolling.tla)
Weak(w) ==
  FoldLeft(LAMBDA acc, x : <<(acc[1] + x) % 65536, (acc[2] + acc[1] + x) % 65536>>, <<0, 0>>, w)
=============================================================================
