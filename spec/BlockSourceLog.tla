--------------------------- MODULE BlockSourceLog ---------------------------
(***************************************************************************)
(* Block sources under the real scheduler: requests from several           *)
(* goroutines, fetches on all processors, a consumer, and calls of Close   *)
(* from several goroutines, at any time.  The harness logs events in one   *)
(* order; here TLC decides whether a log can be one of the source of       *)
(* BlockSource.tla, whose own steps are hidden.  An event before a call    *)
(* ("ask", "want", "close") comes before what the call does, one after it  *)
(* ("asked", "got", "error", "closed") comes after; "start" and "end" are  *)
(* the first and last moment inside of a fetch.  Rules only use what       *)
(* follows from that.                                                      *)
(* A record: [conc, splitn, ver, http, log: <<[e, r, ok]>>], e the kind of event, r a *)
(* range <<first, last>> or <<>>; ver: failing means wrong bytes, which    *)
(* the verifier has to find.                                               *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS File
Recs == ndJsonDeserialize(File)
VARIABLES k, pos, m, bad
vars == <<k, pos, m, bad>>
(* m: the monitor; bad: properties violated so far *)

R == Recs[k]
Within(p, s) == s[1] <= p[1] /\ p[2] <= s[2]
\* p is one of the parts into which the asked range s is split
Part(p, s) ==
  IF R.splitn = 0 THEN p = s
  ELSE /\ Within(p, s) /\ (p[1] - s[1]) % R.splitn = 0
       /\ p[2] = Lesser(p[1] + R.splitn - 1, s[2])

Fresh == [asked |-> {}, started |-> {}, good |-> {}, failed |-> {}, got |-> {}, want |-> {}, errs |-> 0,
          closing |-> FALSE, closes |-> 0, quiet |-> -1, over |-> FALSE]
Running(s) == s.started \ (s.good \cup s.failed)
\* from when the consumer has the failure, or Close has returned, only fetches that were begun before may still appear
Hush(s) == IF s.quiet = -1 THEN [s EXCEPT !.quiet = R.conc - Cardinality(Running(s))] ELSE s

Take1(s, e) ==
  CASE e.e = "ask" -> [s EXCEPT !.asked = @ \cup {e.r}]
    [] e.e = "start" -> [s EXCEPT !.started = @ \cup {e.r}, !.quiet = IF @ > 0 THEN @ - 1 ELSE @]
    [] e.e = "end" -> IF e.ok THEN [s EXCEPT !.good = @ \cup {e.r}] ELSE [s EXCEPT !.failed = @ \cup {e.r}]
    [] e.e = "want" -> [s EXCEPT !.want = Running(s)]
    [] e.e = "got" -> [s EXCEPT !.got = @ \cup {e.r}]
    [] e.e = "error" -> Hush([s EXCEPT !.errs = @ + 1])
    [] e.e = "close" -> [s EXCEPT !.closing = TRUE, !.closes = @ + 1]
    [] e.e = "closed" -> Hush(s)
    [] e.e = "over" -> [s EXCEPT !.over = TRUE]
    [] OTHER -> s

If(cond, tag) == IF cond THEN {tag} ELSE {}
Wrong(s, e) ==
  CASE e.e = "start" ->
         If(e.r \in s.started \/ ~\E a \in s.asked : Part(e.r, a), "C07")
         \cup If(Cardinality(Running(s)) >= R.conc, "C08")
         \cup If(s.quiet = 0, IF s.errs > 0 THEN "C09" ELSE "C11")
         \cup If(s.over, "C11")
    [] e.e = "got" ->
         If(e.r \in s.failed, "C09") \cup If(R.ver /\ e.r \in s.failed, "C10")
         \cup If((e.r \notin s.good /\ e.r \notin s.failed) \/ e.r \in s.got \/ ~e.ok, "C07")
         \cup If(R.http /\ (e.r \notin s.good \/ ~e.ok), "C18")
         \cup If(\E q \in s.want : q[1] < e.r[1] /\ q \in Running(s), "C07")
    [] e.e = "error" -> If(s.errs > 0 \/ s.failed = {}, "C09")
         \cup If(s.failed = {}, "C07") \cup If(R.http /\ s.failed = {}, "C18")
         \cup If(R.ver /\ s.failed = {}, "C10")   \* good data refused
    [] e.e = "asked" -> If(~e.ok /\ ~s.closing /\ s.failed = {}, "C07")
    [] e.e = "closed" -> If(~e.ok /\ s.closes = 1 /\ s.failed = {}, "C11")   \* nothing else has ended it
    [] e.e = "late" -> If(e.ok, "C11")   \* asked of a source that has ended
    [] e.e = "over" ->
         If((s.failed # {}) # (s.errs = 1), "C09")
         \cup If(s.failed = {} /\ ~s.closing, "C07")
         \cup If(Running(s) # {}, "C11")
    [] e.e = "all" -> \* the consumer has waited for everything; nobody has closed
         If(s.failed = {} /\ ~(s.got = s.good /\ \A a \in s.asked : \A b \in a[1]..a[2] : \E p \in s.got : Within(<<b, b>>, p)), "C07")
    [] OTHER -> {}

Init == k \in 1..Len(Recs) /\ pos = 0 /\ m = Fresh /\ bad = {}
Next ==
  /\ pos < Len(R.log) /\ pos' = pos + 1
  /\ m' = Take1(m, R.log[pos + 1])
  /\ bad' = bad \cup Wrong(m, R.log[pos + 1])
  /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
Judge == pos = Len(R.log) => PrintT(ToJson([k |-> k, v |-> SetToSeq(bad)]))
=============================================================================
