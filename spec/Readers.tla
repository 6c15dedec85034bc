------------------------------- MODULE Readers -------------------------------
(***************************************************************************)
(* Synthetic readers (util/readers) and what is put together from them.    *)
(* A construction is an expression:                                        *)
(*   <<"uni", v, n>>        n times the byte v                             *)
(*   <<"seq", i, n>>        n elements of the sequence with seed number i  *)
(*   <<"inj", off, b, x>>   b with x put in at off                         *)
(*   <<"lim", n, es>>       the expressions es one after the other, at     *)
(*                          most n bytes                                   *)
(* Stream says what it promises.  Build makes the machine: nodes that      *)
(* refer to each other (an injected reader reads its base from two         *)
(* places), read by Rd as the code reads them.  Element k of sequence i is *)
(* written 1000 * (i + 1) + k.                                             *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS Exprs, Sizes, Depth,
          Bug   \* "none" | "zeroEnds" (an empty read of a uniform reader ends it) | "restart" (a read restarts the sequence)
VARIABLES x, nodes, got, eof, hist
vars == <<x, nodes, got, eof, hist>>

RECURSIVE Stream(_)
RECURSIVE Cat(_)
Cat(es) == IF es = <<>> THEN <<>> ELSE Stream(Head(es)) \o Cat(Tail(es))
Stream(e) ==
  CASE e[1] = "uni" -> [k \in 1..e[3] |-> e[2]]
    [] e[1] = "seq" -> [k \in 1..e[3] |-> 1000 * (e[2] + 1) + k - 1]
    [] e[1] = "inj" -> LET b == Stream(e[3]) IN Take(Lesser(e[2], Len(b)), b) \o Stream(e[4]) \o Drop(Lesser(e[2], Len(b)), b)
    [] OTHER -> LET s == Cat(e[3]) IN Take(Lesser(e[2], Len(s)), s)

\* nodes: "uni" v left | "seq" i pos | "lim" n child | "multi" children; Build appends and the root is the last
RECURSIVE Build(_, _)
RECURSIVE BuildAll(_, _, _)
BuildAll(es, ns, ids) == IF es = <<>> THEN <<ns, ids>> ELSE LET m == Build(Head(es), ns) IN BuildAll(Tail(es), m, Append(ids, Len(m)))
Build(e, ns) ==
  CASE e[1] = "uni" -> Append(ns, <<"uni", e[2], e[3]>>)
    [] e[1] = "seq" -> LET m == Append(ns, <<"seq", e[2], 0>>) IN Append(m, <<"lim", e[3], Len(m)>>)
    [] e[1] = "inj" -> LET b == Build(e[3], ns)
                           l == Append(b, <<"lim", e[2], Len(b)>>)
                           i == Build(e[4], l)
                       IN Append(i, <<"multi", <<Len(l), Len(i), Len(b)>>>>)
    [] OTHER -> LET all == BuildAll(e[3], ns, <<>>)
                    m == Append(all[1], <<"multi", all[2]>>)
                IN Append(m, <<"lim", e[2], Len(m)>>)

R(ns, d, e) == [ns |-> ns, d |-> d, e |-> e]
RECURSIVE Rd(_, _, _)
Rd(ns, id, k) ==
  LET nd == ns[id] IN
  CASE nd[1] = "uni" ->
         LET m == Lesser(k, nd[3]) IN
         R([ns EXCEPT ![id][3] = @ - m], [j \in 1..m |-> nd[2]], nd[3] - m = 0 \/ (Bug = "zeroEnds" /\ m = 0))
    [] nd[1] = "seq" ->
         R([ns EXCEPT ![id][3] = IF Bug = "restart" THEN 0 ELSE @ + k], [j \in 1..k |-> 1000 * (nd[2] + 1) + nd[3] + j - 1], FALSE)
    [] nd[1] = "lim" ->
         IF nd[2] = 0 THEN R(ns, <<>>, TRUE)
         ELSE LET r == Rd(ns, nd[3], Lesser(k, nd[2])) IN R([r.ns EXCEPT ![id][2] = @ - Len(r.d)], r.d, r.e)
    [] OTHER ->
         IF nd[2] = <<>> THEN R(ns, <<>>, TRUE)
         ELSE LET r == Rd(ns, Head(nd[2]), k)
                  ms == IF r.e THEN [r.ns EXCEPT ![id][2] = Tail(@)] ELSE r.ns
              IN IF r.d # <<>> \/ ~r.e THEN R(ms, r.d, r.e /\ ms[id][2] = <<>>) ELSE Rd(ms, id, k)

Init == x \in Exprs /\ nodes = Build(x, <<>>) /\ got = <<>> /\ eof = FALSE /\ hist = <<>>
Read(k) ==
  /\ ~eof /\ Len(hist) < Depth
  /\ LET r == Rd(nodes, Len(nodes), k) IN nodes' = r.ns /\ got' = got \o r.d /\ eof' = r.e
  /\ hist' = Append(hist, k) /\ UNCHANGED x
Next == \E k \in Sizes : Read(k)
Spec == Init /\ [][Next]_vars

\* C22
InvPrefix == IsPrefix(got, Stream(x))
InvEnd == eof => got = Stream(x)
\* a read of a positive size delivers or ends, so that the stream is delivered in the end
Progress == [][\A k \in Sizes \ {0} : Read(k) => Len(got') > Len(got) \/ eof']_vars
Emit == (eof \/ Len(hist) = Depth) => PrintT(ToJson([x |-> x, sizes |-> hist, stream |-> Stream(x)]))
=============================================================================
