----------------------------- MODULE BlockSource -----------------------------
(***************************************************************************)
(* The asynchronous block source (blocksources.BlockSourceBase).           *)
(*                                                                         *)
(* One goroutine runs a loop:                                              *)
(*                                                                         *)
(*   top:     start fetches while slots are free and ranges wait           *)
(*   select:  exactly one of  accept a request | accept a finished fetch | *)
(*            hand over the offered range | hand over the failure |        *)
(*            accept Close                                                 *)
(*                                                                         *)
(* Fetches run in their own goroutines, so they finish in any order.  A    *)
(* rendezvous on an unbuffered channel is one step taken at "select".      *)
(* Ranges of blocks are pairs <<first, last>>; bags of ranges are kept as  *)
(* sequences sorted by first block (as the code keeps them).               *)
(*                                                                         *)
(* The constant Bug re-introduces defects that were found in the code (see *)
(* DESIGN.md); "none" is the design that the code follows now.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS
  Conc,        \* limit on outstanding fetches
  SplitN,      \* requests are split into ranges of at most SplitN blocks; 0: not split
  Spans,       \* the spans <<first,last>> a client may request
  MaxRequests, \* bound on client requests
  MaxSame,     \* bound on requests for the same span
  MaxFaults,   \* bound on failing fetches
  Outcomes,    \* possible outcomes of a fetch, subset of {"ok","err","bad"}
  MaxClose,    \* bound on Close calls
  Bug          \* "none" or the name of a seeded design defect

VARIABLES
  pc,        \* "top" | "select" | "done" | "crashed"
  st,        \* "running" | "exiting"
  queue,     \* ranges waiting to be fetched
  work,      \* ranges being fetched
  ordering,  \* first blocks of all ranges started and not handed over
  fetched,   \* ranges fetched and verified, not handed over
  offer,     \* << >> or <<range>>: what the loop offers to the consumer
  err,       \* "none" | "pending" | "given": the failure slot
  reqs,      \* history: spans requested so far, in order
  delivered, \* history: ranges handed over, in order
  failed,    \* history: ranges whose fetch failed
  closes     \* history: number of Close calls so far

vars == <<pc, st, queue, work, ordering, fetched, offer, err, reqs, delivered, failed, closes>>

------------------------------------------------------------------------------
(* Bags of ranges as sorted sequences *)

First(r) == r[1]

RECURSIVE InsertRange(_, _)
InsertRange(r, s) ==
  IF s = <<>> THEN <<r>>
  ELSE IF First(r) <= First(Head(s)) THEN <<r>> \o s
  ELSE <<Head(s)>> \o InsertRange(r, Tail(s))

RECURSIVE InsertAll(_, _)
InsertAll(rs, s) == IF rs = <<>> THEN s ELSE InsertAll(Tail(rs), InsertRange(Head(rs), s))

RECURSIVE RemoveRange(_, _)
RemoveRange(r, s) == IF Head(s) = r THEN Tail(s) ELSE <<Head(s)>> \o RemoveRange(r, Tail(s))

RECURSIVE InsertNum(_, _)
InsertNum(n, s) ==
  IF s = <<>> THEN <<n>>
  ELSE IF n <= Head(s) THEN <<n>> \o s
  ELSE <<Head(s)>> \o InsertNum(n, Tail(s))

Occurrences(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})

\* how a span is split into ranges (see Resolver.tla)
RECURSIVE Split(_, _)
Split(a, b) ==
  IF SplitN = 0 \/ a + SplitN > b THEN <<<<a, b>>>>
  ELSE <<<<a, a + SplitN - 1>>>> \o Split(a + SplitN, b)

RECURSIVE SplitAll(_)
SplitAll(ss) == IF ss = <<>> THEN <<>> ELSE Split(Head(ss)[1], Head(ss)[2]) \o SplitAll(Tail(ss))

------------------------------------------------------------------------------
Init ==
  /\ pc = "top"
  /\ st = "running"
  /\ queue = <<>> /\ work = <<>> /\ ordering = <<>> /\ fetched = <<>>
  /\ offer = <<>>
  /\ err = "none"
  /\ reqs = <<>> /\ delivered = <<>> /\ failed = <<>> /\ closes = 0

(* ----- the loop between two selects: no interaction with anybody ------- *)

Alive == st = "running" \/ work # <<>> \/ err = "pending"

CanDispatch ==
  /\ Alive
  /\ (st = "running" \/ Bug = "fetchAfterExit")
  /\ Len(work) < Conc
  /\ queue # <<>>

Dispatch ==
  /\ pc = "top" /\ CanDispatch
  /\ LET r == Head(queue) IN
     /\ queue' = Tail(queue)
     /\ work' = InsertRange(r, work)
     /\ ordering' = InsertNum(First(r), ordering)
     \* a lower range that has just been started must come out first
     /\ offer' = IF offer # <<>> /\ First(r) < First(offer[1]) /\ Bug # "staleOffer"
                 THEN <<>> ELSE offer
  /\ UNCHANGED <<pc, st, fetched, err, reqs, delivered, failed, closes>>

ToSelect ==
  /\ pc = "top" /\ Alive /\ ~CanDispatch
  /\ pc' = "select"
  /\ UNCHANGED <<st, queue, work, ordering, fetched, offer, err, reqs, delivered, failed, closes>>

Quit ==
  /\ pc = "top" /\ ~Alive
  /\ pc' = "done"
  /\ UNCHANGED <<st, queue, work, ordering, fetched, offer, err, reqs, delivered, failed, closes>>

Internal == Dispatch \/ ToSelect \/ Quit

(* ----- the arms of the select ------------------------------------------ *)

Request(sp) ==
  /\ pc = "select"
  /\ Len(reqs) < MaxRequests
  /\ Occurrences(sp, reqs) < MaxSame
  /\ queue' = InsertAll(Split(sp[1], sp[2]), queue)
  /\ reqs' = Append(reqs, sp)
  /\ pc' = "top"
  /\ UNCHANGED <<st, work, ordering, fetched, offer, err, delivered, failed, closes>>

\* a fetch ends with data that is accepted
CompleteOk(r) ==
  /\ pc = "select"
  /\ work' = RemoveRange(r, work)
  /\ fetched' = InsertRange(r, fetched)
  /\ offer' = IF Head(ordering) = First(r) THEN <<Head(fetched')>> ELSE offer
  /\ pc' = "top"
  /\ UNCHANGED <<st, queue, ordering, err, reqs, delivered, failed, closes>>

\* a fetch fails ("err") or its data is rejected by the verifier ("bad")
CompleteFail(r) ==
  /\ pc = "select"
  /\ Len(failed) < MaxFaults
  /\ work' = RemoveRange(r, work)
  /\ failed' = Append(failed, r)
  /\ offer' = <<>>
  /\ st' = "exiting"
  /\ IF err = "pending" /\ Bug = "secondErrorPanics"
     THEN pc' = "crashed" /\ UNCHANGED err
     ELSE /\ pc' = "top"
          /\ err' = IF err = "none" \/ (err = "given" /\ Bug = "errorTwice") THEN "pending" ELSE err
  /\ UNCHANGED <<queue, ordering, fetched, reqs, delivered, closes>>

Complete(r, o) ==
  /\ \E i \in 1..Len(work) : work[i] = r
  /\ IF o = "ok" THEN CompleteOk(r) ELSE CompleteFail(r)

\* the consumer collects the offered range
Deliver ==
  /\ pc = "select" /\ offer # <<>>
  /\ delivered' = Append(delivered, offer[1])
  /\ fetched' = Tail(fetched)
  /\ ordering' = Tail(ordering)
  /\ offer' = IF fetched' # <<>> /\ ordering' # <<>> /\ First(Head(fetched')) = Head(ordering')
              THEN <<Head(fetched')>> ELSE <<>>
  /\ pc' = "top"
  /\ UNCHANGED <<st, queue, work, err, reqs, failed, closes>>

\* the consumer collects the failure
DeliverErr ==
  /\ pc = "select" /\ err = "pending"
  /\ err' = "given"
  /\ pc' = "top"
  /\ UNCHANGED <<st, queue, work, ordering, fetched, offer, reqs, delivered, failed, closes>>

\* Close is accepted by a live loop; on an ended source it just returns
Close ==
  /\ pc \in {"select", "done"}
  /\ closes < MaxClose
  /\ closes' = closes + 1
  /\ IF pc = "select" THEN st' = "exiting" /\ pc' = "top" ELSE UNCHANGED <<st, pc>>
  /\ UNCHANGED <<queue, work, ordering, fetched, offer, err, reqs, delivered, failed>>

\* a request on an ended source returns an error
RequestRefused(sp) ==
  /\ pc = "done"
  /\ UNCHANGED vars

Ranges == {work[i] : i \in 1..Len(work)}

External ==
  \/ \E sp \in Spans : Request(sp)
  \/ \E r \in Ranges : \E o \in Outcomes : Complete(r, o)
  \/ Deliver
  \/ DeliverErr
  \/ Close

Next == Internal \/ External

Spec == Init /\ [][Next]_vars

\* the environment lets fetches end, and the consumer keeps collecting
Fair ==
  /\ WF_vars(Internal)
  /\ WF_vars(\E r \in Ranges : \E o \in Outcomes : Complete(r, o))
  /\ WF_vars(Deliver)
  /\ WF_vars(DeliverErr)

FairSpec == Spec /\ Fair

------------------------------------------------------------------------------
(* Properties *)

TypeOK ==
  /\ pc \in {"top", "select", "done", "crashed", "emitted"}
  /\ st \in {"running", "exiting"}
  /\ Len(offer) <= 1
  /\ err \in {"none", "pending", "given"}

\* C08: limit, free slots are used, lowest first
WithinLimit == Len(work) <= Conc
SlotsUsed == pc = "select" /\ st = "running" => Len(work) = Conc \/ queue = <<>>
LowestFirst == [][Dispatch => \A i \in 1..Len(queue) : First(Head(queue)) <= First(queue[i])]_vars

\* C07: nothing lost or duplicated; lowest first; an idle source has handed over everything
AllRanges == SplitAll(reqs)
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Occurrences(a[i], a) = Occurrences(a[i], b)
Conserved == SameBag(AllRanges, queue \o work \o fetched \o delivered \o failed)
NothingLowerInFlight ==
  offer # <<>> => \A i \in 1..Len(ordering) : First(offer[1]) <= ordering[i]
OfferedIsFetched == offer # <<>> => fetched # <<>> /\ offer[1] = Head(fetched)
NoStall ==
  pc = "select" /\ st = "running" /\ work = <<>> /\ fetched # <<>> => offer # <<>>
OrderingSound ==
  Len(ordering) = Len(work) + Len(fetched) + Len(failed)

\* C09: failures
NeverCrashes == pc # "crashed"
FailureSurfaces == (failed # <<>>) <=> (err # "none")
NoFetchAfterFailure == [][failed # <<>> => ~Dispatch]_vars
ErrorOnce == [][err = "given" => err' = "given"]_vars
FailureEnds == failed # <<>> => st = "exiting"

\* C11: closing
NoFetchAfterClose == [][closes > 0 => ~Dispatch]_vars
EndedIsQuiet == pc = "done" => work = <<>> /\ err # "pending"
ClosedEnds == (closes > 0) ~> (pc = "done")
FailedEnds == (failed # <<>>) ~> (pc = "done")

\* C07 as liveness: without failure and close, everything requested is delivered
EverythingDelivered ==
  [](\A sp \in Spans : (Occurrences(sp, reqs) > 0) ~>
       (failed # <<>> \/ closes > 0 \/ SameBag(AllRanges, delivered)))
AllDeliveredEventually ==
  <>[](failed # <<>> \/ closes > 0 \/ SameBag(AllRanges, delivered))
=============================================================================
