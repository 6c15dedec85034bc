---------------------------- MODULE ChecksumGen ----------------------------
(***************************************************************************)
(* Generating checksums (filechecksum.StartChecksumGeneration and          *)
(* GenerateChecksums).  A generating goroutine reads the input block by    *)
(* block through hashes that belong to the generator, hands over batches   *)
(* of entries and finally the checksum of everything, or an error.  A      *)
(* consumer takes them, writes the entries, and, as soon as it has the     *)
(* final result, may use the same generator again: run 2 shares the hashes *)
(* with run 1.                                                             *)
(*                                                                         *)
(* The input is the bytes 1..n, and the checksum of a byte string is the   *)
(* string itself.  A fault strikes run 1: the read behind byte `at` fails, *)
(* compressing block `at` fails, or writing entry `at` fails.              *)
(***************************************************************************)
EXTENDS Seqs, TLC, Json
CONSTANTS Cases,  \* set of [bs, bpr, n, fault, at]
          Bug     \* "none" | "cleanLate" | "swallowRead" | "swallowCompress" | "swallowWrite" | "leave"
VARIABLES c,
          pc, buf, got, batch,   \* per run: the generating goroutine
          kept,                  \* per run: batch handed over and not yet written
          wrote, res,            \* per run: entries written; result of the consumer
          full, strong           \* hash states, shared by the runs
vars == <<c, pc, buf, got, batch, kept, wrote, res, full, strong>>

Runs == {1, 2}
None == <<"none">>
Failed == <<"err">>
Input == [k \in 1..c.n |-> k]
Entries == [k \in 1..CeilDiv(c.n, c.bs) |-> SubSeq(Input, (k - 1) * c.bs + 1, Lesser(k * c.bs, c.n))]
Fault(r, kind, at) == r = 1 /\ c.fault = kind /\ c.at = at

Init ==
  /\ c \in Cases
  /\ pc = [r \in Runs |-> IF r = 1 THEN "start" ELSE "idle"]
  /\ buf = [r \in Runs |-> <<>>] /\ got = [r \in Runs |-> 0]
  /\ batch = [r \in Runs |-> <<>>] /\ kept = [r \in Runs |-> <<>>]
  /\ wrote = [r \in Runs |-> <<>>] /\ res = [r \in Runs |-> None]
  /\ full = <<>> /\ strong = <<>>

Go(r, p) == pc' = [pc EXCEPT ![r] = p]

Begin == pc[2] = "idle" /\ res[1] # None /\ Go(2, "start") /\ UNCHANGED <<c, buf, got, batch, kept, wrote, res, full, strong>>
Start1(r) == pc[r] = "start" /\ strong' = <<>> /\ Go(r, "start2") /\ UNCHANGED <<c, buf, got, batch, kept, wrote, res, full>>
Start2(r) == pc[r] = "start2" /\ full' = <<>> /\ Go(r, "read") /\ UNCHANGED <<c, buf, got, batch, kept, wrote, res, strong>>

\* any fragmentation
ReadSome(r) ==
  /\ pc[r] = "read" /\ Len(buf[r]) < c.bs /\ got[r] < c.n /\ ~Fault(r, "read", got[r])
  /\ \E d \in 1..Lesser(c.bs - Len(buf[r]), c.n - got[r]) :
       /\ r = 1 /\ c.fault = "read" => got[r] + d <= c.at
       /\ buf' = [buf EXCEPT ![r] = @ \o SubSeq(Input, got[r] + 1, got[r] + d)]
       /\ got' = [got EXCEPT ![r] = @ + d]
  /\ UNCHANGED <<c, pc, batch, kept, wrote, res, full, strong>>
ReadFails(r) ==
  /\ pc[r] = "read" /\ Len(buf[r]) < c.bs /\ Fault(r, "read", got[r])
  /\ IF Bug = "swallowRead" THEN Go(r, IF buf[r] = <<>> THEN "end" ELSE "hash") ELSE Go(r, "fail")
  /\ UNCHANGED <<c, buf, got, batch, kept, wrote, res, full, strong>>
ReadDone(r) ==
  /\ pc[r] = "read" /\ (Len(buf[r]) = c.bs \/ (got[r] = c.n /\ ~Fault(r, "read", got[r])))
  /\ Go(r, IF buf[r] = <<>> THEN "end" ELSE "hash")
  /\ UNCHANGED <<c, buf, got, batch, kept, wrote, res, full, strong>>
Hash(r) ==
  /\ pc[r] = "hash"
  /\ full' = full \o buf[r] /\ strong' = strong \o buf[r]
  /\ Go(r, "entry")
  /\ UNCHANGED <<c, buf, got, batch, kept, wrote, res>>
Done(r) == CeilDiv(got[r], c.bs)
Entry(r) ==
  /\ pc[r] = "entry"
  /\ IF Fault(r, "compress", Done(r)) /\ Bug # "swallowCompress"
     THEN Go(r, "fail") /\ UNCHANGED <<batch, buf, strong>>
     ELSE /\ batch' = [batch EXCEPT ![r] = Append(@, strong)]
          /\ strong' = <<>>
          /\ buf' = [buf EXCEPT ![r] = <<>>]
          /\ Go(r, IF Len(batch[r]) + 1 = c.bpr THEN "send"
                   ELSE IF Len(buf[r]) < c.bs THEN "end" ELSE "read")
  /\ UNCHANGED <<c, got, kept, wrote, res, full>>
\* unbuffered: the consumer takes it when it has written what it has
Send(r) ==
  /\ pc[r] = "send" /\ kept[r] = <<>>
  /\ Bug = "leave" => res[r] = None
  /\ kept' = [kept EXCEPT ![r] = batch[r]] /\ batch' = [batch EXCEPT ![r] = <<>>]
  /\ Go(r, "read")
  /\ UNCHANGED <<c, buf, got, wrote, res, full, strong>>
End(r) ==
  /\ pc[r] = "end"
  /\ Go(r, IF batch[r] # <<>> THEN "send" ELSE IF Bug = "cleanLate" THEN "final" ELSE "clean1")
  /\ UNCHANGED <<c, buf, got, batch, kept, wrote, res, full, strong>>
\* the sum is taken (into buf), and the hashes are cleaned before it is handed over
Clean1(r) ==
  /\ pc[r] = "clean1" /\ buf' = [buf EXCEPT ![r] = IF Bug = "cleanLate" THEN @ ELSE full]
  /\ full' = <<>> /\ Go(r, "clean2") /\ UNCHANGED <<c, got, batch, kept, wrote, res, strong>>
Clean2(r) ==
  /\ pc[r] = "clean2" /\ strong' = <<>> /\ Go(r, IF Bug = "cleanLate" THEN "over" ELSE "final")
  /\ UNCHANGED <<c, buf, got, batch, kept, wrote, res, full>>
Final(r) ==
  /\ pc[r] = "final" /\ kept[r] = <<>>
  /\ res' = [res EXCEPT ![r] = IF @ # None THEN @ ELSE <<"sum", IF Bug = "cleanLate" THEN full ELSE buf[r]>>]
  /\ Go(r, IF Bug = "cleanLate" THEN "clean1" ELSE "over")
  /\ UNCHANGED <<c, buf, got, batch, kept, wrote, full, strong>>
Fail(r) ==
  /\ pc[r] = "fail" /\ kept[r] = <<>>
  /\ res' = [res EXCEPT ![r] = Failed] /\ Go(r, "over")
  /\ UNCHANGED <<c, buf, got, batch, kept, wrote, full, strong>>
\* the consumer writes an entry; after a failed write it only waits for the end
Write(r) ==
  /\ kept[r] # <<>>
  /\ kept' = [kept EXCEPT ![r] = Tail(@)]
  /\ IF Fault(r, "write", Len(wrote[r]) + 1) /\ Bug # "swallowWrite"
     THEN UNCHANGED wrote /\ (IF Bug = "leave" THEN res' = [res EXCEPT ![r] = Failed] ELSE UNCHANGED res)
     ELSE wrote' = [wrote EXCEPT ![r] = Append(@, Head(kept[r]))] /\ UNCHANGED res
  /\ UNCHANGED <<c, pc, buf, got, batch, full, strong>>
Next == Begin \/ \E r \in Runs : Start1(r) \/ Start2(r) \/ ReadSome(r) \/ ReadFails(r) \/ ReadDone(r) \/ Hash(r) \/ Entry(r)
                                  \/ Send(r) \/ End(r) \/ Clean1(r) \/ Clean2(r) \/ Final(r) \/ Fail(r) \/ Write(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the caller's result: a write that failed makes it an error
WriteFails(r) == r = 1 /\ c.fault = "write" /\ c.at <= Len(Entries)
CompressFails(r) == r = 1 /\ c.fault = "compress" /\ c.at <= Len(Entries)
ReadFaulty(r) == r = 1 /\ c.fault = "read"
Faulty(r) == WriteFails(r) \/ CompressFails(r) \/ ReadFaulty(r)
Result(r) == IF res[r] # None /\ WriteFails(r) /\ Bug # "swallowWrite" THEN Failed ELSE res[r]

\* C16
InvComplete == \A r \in Runs : Result(r) # None /\ Result(r) # Failed => ~Faulty(r) /\ wrote[r] = Entries /\ Result(r)[2] = Input
InvReported == \A r \in Runs : Result(r) = Failed => Faulty(r)
InvOrder == \A r \in Runs : ~Faulty(r) => IsPrefix(wrote[r], Entries)
Ends == <>(res[2] # None)
Emit == (pc[1] = "start" /\ res[1] = None) =>
  PrintT(ToJson([bs |-> c.bs, bpr |-> c.bpr, n |-> c.n, fault |-> c.fault, at |-> c.at, fails |-> Faulty(1), entries |-> Len(Entries)]))
=============================================================================
