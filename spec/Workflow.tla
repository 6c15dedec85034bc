------------------------------ MODULE Workflow ------------------------------
(***************************************************************************)
(* Histories of use: a reference on a server, its index, and two local     *)
(* files X and Y, which are edited, indexed, compared and patched in any   *)
(* order.  The reference may change, or go, after it was indexed; the      *)
(* index may be damaged or older than the reference; files may become      *)
(* copies of each other.                                                   *)
(*                                                                         *)
(* Contents are sequences of units: 0 is a short piece of bytes, every     *)
(* other unit a long one with random bytes; different units share no       *)
(* longer run of bytes, so that a block occurs in a file exactly if its    *)
(* sequence of units does.  A block is k units (only the last unit of a    *)
(* reference may be 0), the last one possibly fewer.                       *)
(*                                                                         *)
(* Outcome(s, o): the states and results that an operation may have.       *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json

Gone == [there |-> FALSE, c |-> <<>>]
File(c) == [there |-> TRUE, c |-> c]
NoIndex == [there |-> FALSE, ok |-> FALSE, k |-> 1, c |-> <<>>]

\* blocks of an indexed content
Count(i) == CeilDiv(Len(i.c), i.k)
Block(i, b) == SubSeq(i.c, (b - 1) * i.k + 1, Lesser(b * i.k, Len(i.c)))
\* full in bytes: the units are all long ones
Full(i, b) == Len(Block(i, b)) = i.k /\ \A j \in 1..i.k : Block(i, b)[j] # 0
Occurs(d, c) == \E p \in 0..(Len(c) - Len(d)) : SubSeq(c, p + 1, p + Len(d)) = d
\* what the scan of file c surely does not find (it need not find all others: blocks may overlap), and when it finds everything
Absent(i, c) == {b \in 1..Count(i) : ~Occurs(Block(i, b), c)}
Same(i, c) == c = i.c /\ Count(i) > 0 /\ Full(i, 1)
\* blocks that the source has where the index puts them
Served(i, r) == IF ~r.there THEN {}
                ELSE {b \in 1..Count(i) : Len(r.c) >= Lesser(b * i.k, Len(i.c)) /\ SubSeq(r.c, (b - 1) * i.k + 1, Lesser(b * i.k, Len(i.c))) = Block(i, b)
                        \* a unit 0 before that moves everything behind it
                        /\ \A j \in 1..((b - 1) * i.k) : r.c[j] # 0}

MustFail(s, f) == ~s.idx.there \/ ~s.idx.ok \/ ~f.there \/ ~(Absent(s.idx, f.c) \subseteq Served(s.idx, s.ref))
MustSucceed(s, f) == /\ s.idx.there /\ s.idx.ok /\ f.there
                     /\ \/ Count(s.idx) = 0 \/ Same(s.idx, f.c)
                        \/ Served(s.idx, s.ref) = 1..Count(s.idx)

Files == {"X", "Y"}
\* a state: [ref, idx, X, Y]; an operation: [op, f, g, k, c]
\* an outcome: [ok, s, any], any: the file whose content is left open, or ""
Outcomes(s, o) ==
  CASE o.op = "ref" -> {[ok |-> TRUE, s |-> [s EXCEPT !.ref = File(o.c)], any |-> ""]}
    [] o.op = "gone" -> {[ok |-> TRUE, s |-> [s EXCEPT !.ref = Gone], any |-> ""]}
    [] o.op = "write" -> {[ok |-> TRUE, s |-> [s EXCEPT ![o.f] = File(o.c)], any |-> ""]}
    [] o.op = "rm" -> {[ok |-> TRUE, s |-> [s EXCEPT ![o.f] = Gone], any |-> ""]}
    [] o.op = "build" ->
         IF s.ref.there THEN {[ok |-> TRUE, s |-> [s EXCEPT !.idx = [there |-> TRUE, ok |-> TRUE, k |-> o.k, c |-> s.ref.c]], any |-> ""]}
         ELSE {[ok |-> FALSE, s |-> s, any |-> ""]}
    [] o.op = "cut" -> {[ok |-> TRUE, s |-> [s EXCEPT !.idx.ok = FALSE], any |-> ""]}
    [] o.op = "diff" -> {[ok |-> s.idx.there /\ s.idx.ok /\ s[o.f].there, s |-> s, any |-> ""]}
    [] o.op = "patch" ->
         LET f == s[o.f]
             \* in place nothing is touched, another output is left open, but only if the patch had begun
             begun == s.idx.there /\ s.idx.ok
             bad == [ok |-> FALSE, s |-> s, any |-> IF o.f = o.g \/ ~begun THEN "" ELSE o.g]
             good == [ok |-> TRUE, s |-> [s EXCEPT ![o.g] = File(s.idx.c)], any |-> ""]
         IN IF MustFail(s, f) THEN {bad} ELSE IF MustSucceed(s, f) THEN {good} ELSE {bad, good}

\* does what was seen (r: state after, ok, fetched: bytes asked for were any) fit
Agrees(s, o, ok, after) ==
  \E out \in Outcomes(s, o) :
    /\ out.ok = ok
    /\ \A part \in {"ref", "idx", "X", "Y"} \ {out.any} : after[part] = out.s[part]
\* C03: a file that is what the index describes needs no fetch, nor does a refused patch
NoFetch(s, o) == o.op # "patch" \/ (s.idx.there /\ s.idx.ok /\ s[o.f].there /\ Same(s.idx, s[o.f].c)) \/ ~s.idx.ok \/ ~s[o.f].there

-----------------------------------------------------------------------------
\* Histories
CONSTANTS Starts, Refs, Units, Depth, MaxLen, Rich, Bug  \* Bug: "none" | "trustSource" | "halfWritten"
VARIABLES s0, st, hist, last
vars == <<s0, st, hist, last>>

Cut(c) == Take(Lesser(MaxLen, Len(c)), c)
\* contents a file may get: those around, with something put in front, in the middle, behind, or left out
Around == {st.ref.c, st.idx.c, st.X.c, st.Y.c}
Variants(c) ==
  IF ~Rich THEN {} ELSE
  {Cut(c)} \cup {Cut(<<u>> \o c) : u \in Units \cup {0}} \cup {Cut(Append(c, u)) : u \in Units} \cup {Drop(1, c), Take(Greater(Len(c), 1) - 1, c)}
  \cup {Cut(Drop(Len(c) \div 2, c) \o Take(Len(c) \div 2, c))}
  \cup (IF c = <<>> THEN {} ELSE {[c EXCEPT ![CeilDiv(Len(c), 2)] = u] : u \in Units})
\* only the last unit of a reference may be 0
Reference(c) == \A j \in 1..(Len(c) - 1) : c[j] # 0
Op(op, f, g, k, c) == [op |-> op, f |-> f, g |-> g, k |-> k, c |-> c]
Ops ==
  {Op("ref", "", "", 0, c) : c \in {c \in Refs \cup UNION {Variants(a) : a \in Around} : Reference(c)}}
  \cup {Op("gone", "", "", 0, <<>>)}
  \cup {Op("write", f, "", 0, c) : f \in Files, c \in (IF Rich THEN {} ELSE Refs) \cup UNION {Variants(a) : a \in Around}}
  \cup {Op("rm", f, "", 0, <<>>) : f \in Files}
  \cup {Op("build", "", "", k, <<>>) : k \in {1, 2}}
  \cup (IF st.idx.there /\ st.idx.ok THEN {Op("cut", "", "", 0, <<>>)} ELSE {})
  \cup {Op("diff", f, "", 0, <<>>) : f \in Files}
  \cup {Op("patch", f, g, 0, <<>>) : f \in Files, g \in Files}

Init == st \in Starts /\ s0 = st /\ hist = <<>> /\ last = [ok |-> TRUE, any |-> ""]
Wrong(o) ==
  CASE Bug = "trustSource" /\ o.op = "patch" /\ st.idx.there /\ st.idx.ok /\ st[o.f].there /\ st.ref.there /\ st.ref.c # st.idx.c ->
         {[ok |-> TRUE, s |-> [st EXCEPT ![o.g] = st.ref], any |-> ""]}
    [] Bug = "halfWritten" /\ o.op = "patch" /\ MustFail(st, st[o.f]) /\ st[o.f].there -> {[ok |-> FALSE, s |-> [st EXCEPT ![o.g] = File(<<>>)], any |-> ""]}
    [] OTHER -> {}
Step(o) ==
  \E out \in (IF Wrong(o) # {} THEN Wrong(o) ELSE Outcomes(st, o)) :
    /\ st' = out.s
    /\ hist' = Append(hist, o)
    /\ last' = [ok |-> out.ok, any |-> out.any]
    /\ UNCHANGED s0
Next == Len(hist) < Depth /\ \E o \in Ops : Step(o)
\* random walks: the kind of the operation is drawn first
Is(o, kd) == o.op = kd \/ (kd = "rare" /\ o.op \in {"gone", "rm", "cut", "diff"})
             \/ (kd \in {"patch again", "patch in place"} /\ o.op = "patch" /\ (kd = "patch in place" => o.f = o.g))
             \/ (kd = "build again" /\ o.op = "build") \/ (kd = "write again" /\ o.op = "write")
Walk == Len(hist) < Depth /\ \E kd \in {"ref", "write", "build", "patch", "rare", "patch again", "patch in place", "build again", "write again"} :
          LET ops == {o \in Ops : Is(o, kd)} IN ops # {} /\ Step(RandomElement(ops))
Spec == Init /\ [][Next]_vars
WalkSpec == Init /\ [][Walk]_vars

\* C25
Prev == IF hist = <<>> THEN Op("none", "", "", 0, <<>>) ELSE hist[Len(hist)]
InvVersion == Prev.op = "patch" /\ last.ok => st[Prev.g] = File(st.idx.c)
ActUntouched == [][LET o == hist'[Len(hist')] IN
                   /\ o.op \in {"patch", "diff", "build"} => \A f \in Files : f # o.g => st'[f] = st[f]
                   /\ o.op \in {"patch", "diff"} => st'.ref = st.ref /\ st'.idx = st.idx
                   /\ o.op = "patch" /\ ~last'.ok /\ o.f = o.g => st' = st]_vars
\* nothing is both
InvDecided == \A f \in Files : ~(MustFail(st, st[f]) /\ MustSucceed(st, st[f]))
Emit == Len(hist) = Depth /\ (Rich \/ Prev.op = "patch") => PrintT(ToJson([start |-> s0, ops |-> hist]))
=============================================================================
