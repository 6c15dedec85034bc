------------------------------- MODULE Window -------------------------------
(***************************************************************************)
(* The window buffer (circularbuffer.C2) as its user sees it: a FIFO of at *)
(* most BS bytes.  Bytes written are numbered 1,2,3,... (mod 256 in the    *)
(* code), so that every byte is identifiable.                              *)
(*                                                                         *)
(* `content` is the specification.  The remaining variables are the design *)
(* of the implementation: two buffers of 2*BS bytes whose write positions  *)
(* are BS apart, so that the window and the evicted bytes are each always  *)
(* contiguous in one of the two.  The invariants say that the design       *)
(* implements the FIFO.                                                    *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json

CONSTANTS
  BS,       \* block size
  Depth,    \* number of operations
  Bug       \* "none" | "wrap" (a wrapped write starts again at the first byte)

VARIABLES
  content,   \* the window, oldest first
  cnt,       \* number of the last byte written
  a, b,      \* [head, buf]: the two buffers
  last,      \* length of the last write
  total,     \* bytes written and not truncated, may exceed BS
  hist       \* operations and their visible results

vars == <<content, cnt, a, b, last, total, hist>>


-----------------------------------------------------------------------------
(* the two-buffer design *)

\* writing into one buffer, piece by piece up to its end
RECURSIVE Put(_, _, _)
Put(d, whole, rest) ==
  IF rest = <<>> THEN d
  ELSE LET room == 2 * BS - d.head
           n == Lesser(room, Len(rest))
           src == IF Bug = "wrap" THEN whole ELSE rest
           buf2 == [k \in 1..(2 * BS) |-> IF k > d.head /\ k <= d.head + n THEN src[k - d.head] ELSE d.buf[k]]
           head2 == IF d.head + n = 2 * BS THEN 0 ELSE d.head + n
       IN Put([head |-> head2, buf |-> buf2], whole, Drop(n, rest))

MaxWritten(t) == Lesser(t, BS)
BlockBuffer(x, y) == IF y.head > x.head THEN y ELSE x
DesignContent(x, y, t) ==
  LET d == BlockBuffer(x, y) IN SubSeq(d.buf, d.head - MaxWritten(t) + 1, d.head)
DesignEvicted(x, y, t, l) ==
  IF t <= BS THEN <<>>
  ELSE LET d == IF y.head < x.head THEN y ELSE x
           end == d.head + BS
           n == IF t - l < BS THEN t - BS ELSE l
       IN SubSeq(d.buf, end - n + 1, end)

-----------------------------------------------------------------------------
Bytes(n) == [k \in 1..n |-> cnt + k]

Step(op, n, res) ==
  hist' = Append(hist, [op |-> op, n |-> n, res |-> res, content |-> content'])

Init ==
  /\ content = <<>> /\ cnt = 0
  /\ a = [head |-> 0, buf |-> [k \in 1..(2 * BS) |-> 0]]
  /\ b = [head |-> BS, buf |-> [k \in 1..(2 * BS) |-> 0]]
  /\ last = 0 /\ total = 0
  /\ hist = <<>>

\* res: the bytes pushed out
Write(n) ==
  LET all == content \o Bytes(n)
      out == Greater(0, Len(all) - BS)
  IN /\ content' = Drop(out, all)
     /\ cnt' = cnt + n
     /\ a' = Put(a, Bytes(n), Bytes(n)) /\ b' = Put(b, Bytes(n), Bytes(n))
     /\ last' = n /\ total' = total + n
     /\ Step("write", n, Take(out, all))

\* res: the bytes removed
Truncate(n) ==
  LET k == Lesser(n, Len(content))
  IN /\ content' = Drop(k, content)
     /\ total' = MaxWritten(total) - k
     /\ UNCHANGED <<cnt, a, b, last>>
     /\ Step("truncate", n, Take(k, content))

Reset ==
  /\ content' = <<>>
  /\ a' = [a EXCEPT !.head = 0] /\ b' = [b EXCEPT !.head = BS]
  /\ last' = 0 /\ total' = 0
  /\ UNCHANGED cnt
  /\ Step("reset", 0, <<>>)

Next ==
  /\ Len(hist) < Depth
  /\ \/ \E n \in 0..BS : Write(n)
     \/ \E n \in 1..(BS + 1) : Truncate(n)
     \/ Reset

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Bounded == Len(content) <= BS
\* the window is the newest bytes, in order, without gaps
Contiguous == \A k \in 1..(Len(content) - 1) : content[k + 1] = content[k] + 1
EndsWithNewest == content # <<>> => content[Len(content)] = cnt
Refines == DesignContent(a, b, total) = content
LengthAgrees == MaxWritten(total) = Len(content)
EvictionRefines ==
  hist # <<>> /\ hist[Len(hist)].op = "write" => DesignEvicted(a, b, total, last) = hist[Len(hist)].res
HeadsApart == (b.head - a.head = BS) \/ (a.head - b.head = BS)

Emit == Len(hist) = Depth => PrintT(ToJson([bs |-> BS, ops |-> hist]))
=============================================================================
