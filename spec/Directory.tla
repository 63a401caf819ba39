------------------------------ MODULE Directory ------------------------------
(* The key directory. Every server reads the files with the parsed keys, in any
   order and with the keys in any order inside them, and builds a table of
   buckets: a key is appended to the bucket its identifier hashes to. A client
   retrieves the bucket of an e-mail and looks for the key in it.

   Each key is one e-mail here: the selection of the newest key of an e-mail is
   specified in Ingestion. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Emails,    \* 1..n, ordered
          Buckets,   \* number of buckets
          Servers,
          Sorting    \* TRUE: the keys are sorted before they are put in buckets
ASSUME Emails \subseteq Nat

VARIABLES stored,    \* the e-mails of the stored keys
          hash,      \* e-mail -> bucket
          unread,    \* server -> the keys in the order of its files, still to read
          list,      \* server -> the keys in memory
          dir,       \* server -> bucket -> sequence of keys
          pc,        \* server -> "read" / "fill" / "up"
          looked     \* e-mail -> what its lookup returned (0: nothing yet, -1: not found)
vars == <<stored, hash, unread, list, dir, pc, looked>>

Orders(S) == {o \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN o : i # j => o[i] # o[j]}
Bucket == 0..(Buckets - 1)
NotFound == 99

Init ==
  /\ stored \in SUBSET Emails
  /\ hash \in [Emails -> Bucket]
  /\ unread \in [Servers -> Orders(stored)]
  /\ list = [s \in Servers |-> <<>>]
  /\ dir = [s \in Servers |-> [b \in Bucket |-> <<>>]]
  /\ pc = [s \in Servers |-> "read"]
  /\ looked = [e \in Emails |-> 0]

\* insertion in descending order
RECURSIVE Insert(_, _)
Insert(l, k) == IF l = <<>> THEN <<k>>
                ELSE IF Head(l) < k THEN <<k>> \o l
                ELSE <<Head(l)>> \o Insert(Tail(l), k)

Read(s) ==
  /\ pc[s] = "read"
  /\ IF unread[s] = <<>> THEN pc' = [pc EXCEPT ![s] = "fill"] /\ UNCHANGED <<unread, list>>
     ELSE /\ unread' = [unread EXCEPT ![s] = Tail(@)]
          /\ list' = [list EXCEPT ![s] = IF Sorting THEN Insert(@, Head(unread[s])) ELSE Append(@, Head(unread[s]))]
          /\ UNCHANGED pc
  /\ UNCHANGED <<stored, hash, dir, looked>>

Fill(s) ==
  /\ pc[s] = "fill"
  /\ IF list[s] = <<>> THEN pc' = [pc EXCEPT ![s] = "up"] /\ UNCHANGED <<dir, list>>
     ELSE /\ dir' = [dir EXCEPT ![s][hash[Head(list[s])]] = Append(@, Head(list[s]))]
          /\ list' = [list EXCEPT ![s] = Tail(@)]
          /\ UNCHANGED pc
  /\ UNCHANGED <<stored, hash, unread, looked>>

\* all the servers have to hold the same bucket, or the shares do not fit
Lookup(e) ==
  /\ \A s \in Servers : pc[s] = "up"
  /\ looked[e] = 0
  /\ \E s \in Servers :
       LET b == dir[s][hash[e]] IN
       looked' = [looked EXCEPT ![e] = IF e \in {b[i] : i \in DOMAIN b} THEN e ELSE NotFound]
  /\ UNCHANGED <<stored, hash, unread, list, dir, pc>>

Next == \/ \E s \in Servers : Read(s) \/ Fill(s)
        \/ \E e \in Emails : Lookup(e)
Spec == Init /\ [][Next]_vars

\* the directories are identical when they are built
Identical == \A s, t \in Servers : pc[s] = "up" /\ pc[t] = "up" => dir[s] = dir[t]
\* every key is there exactly once
Occurrences(d, k) == Cardinality({<<b, i>> \in Bucket \X (1..Cardinality(Emails)) : i \in DOMAIN d[b] /\ d[b][i] = k})
Complete == \A s \in Servers : pc[s] = "up" =>
              \A k \in Emails : Occurrences(dir[s], k) = IF k \in stored THEN 1 ELSE 0
\* what a lookup returns
Result(e, st) == IF e \in st THEN e ELSE NotFound
Found == \A e \in Emails : looked[e] # 0 => looked[e] = Result(e, stored)
=============================================================================
