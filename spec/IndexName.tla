------------------------------ MODULE IndexName ------------------------------
(***************************************************************************)
(* Where the command line tool puts the index of a file: beside it, with   *)
(* the last extension of the file's name replaced by .gosync.  A path is a *)
(* sequence over "a" (any other character), "." and "/"; it is scanned     *)
(* from its end.                                                           *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS MaxLen, Bug  \* "none" | "anyDot" | "firstDot"
VARIABLES path, pos, st, cut
\* pos: characters not looked at; cut: characters of the path that are kept
vars == <<path, pos, st, cut>>

\* names between slashes
Parts(p) == LET r == FoldLeft(LAMBDA acc, ch : IF ch = "/" THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>]
                                               ELSE [done |-> acc.done, cur |-> Append(acc.cur, ch)],
                              [done |-> <<>>, cur |-> <<>>], p)
            IN Append(r.done, r.cur)
Dots(n) == n # <<>> /\ \A i \in 1..Len(n) : n[i] = "."
LastOf(s) == s[Len(s)]
IsFile(p) == LET ps == Parts(p) IN
  /\ p # <<>> /\ p[1] # "/"
  /\ LastOf(ps) # <<>> /\ LastOf(ps) \notin {<<".">>, <<".", ".">>}
  /\ \A i \in 1..Len(ps) : ps[i] # <<>> /\ Len(SelectSeq(ps, LAMBDA n : n = <<".", ".">>)) <= 2

Init == /\ path \in {p \in UNION {[1..n -> {"a", ".", "/"}] : n \in 1..MaxLen} : IsFile(p)}
        /\ pos = Len(path) /\ st = "scan" /\ cut = Len(path)
Scan ==
  /\ st = "scan"
  /\ IF pos = 0 \/ (path[Greater(pos, 1)] = "/" /\ Bug # "anyDot") THEN st' = "done" /\ UNCHANGED <<pos, cut>>
     ELSE IF path[pos] = "." THEN /\ cut' = pos - 1 /\ pos' = pos - 1
                                  /\ st' = IF Bug = "firstDot" THEN "scan" ELSE "done"
     ELSE pos' = pos - 1 /\ UNCHANGED <<st, cut>>
  /\ UNCHANGED path
Spec == Init /\ [][Scan]_vars /\ WF_vars(Scan)

Slashes(p) == Len(SelectSeq(p, LAMBDA ch : ch = "/"))
Dir(p) == LET s == Slashes(p) IN IF s = 0 THEN <<>> ELSE Take(CHOOSE i \in 1..Len(p) : p[i] = "/" /\ Slashes(Take(i, p)) = s, p)
Stem == Take(cut, path)
\* beside the file
InvBeside == st = "done" => Dir(Stem) = Dir(path)
\* only the last extension goes
InvStem == st = "done" => LET gone == Drop(cut, path) IN
  gone = <<>> \/ (gone[1] = "." /\ \A i \in 2..Len(gone) : gone[i] \notin {".", "/"})
InvNoExt == st = "done" => (cut = Len(path) => \A i \in (Len(Dir(path)) + 1)..Len(path) : path[i] # ".")
Ends == <>(st = "done")
Emit == st = "done" => PrintT(ToJson([path |-> path, cut |-> cut]))
=============================================================================
