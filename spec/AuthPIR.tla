------------------------------- MODULE AuthPIR -------------------------------
(* Authenticated point retrieval (lib/client/client.go: reconstructPIR).

   A block is  data \o count \o hashes \o index \o padding, the announced proof
   length tells where the proof starts. The dishonest servers know the database
   and may guess the queried index, so they can turn the reconstructed block
   into any block they can write down: any record, any hash that occurs in the
   tree, any count, any index, any padding. The client must return the data of
   the record it asked for, or an error.

   The forgeries explored are the blocks that differ from a genuine block in at
   most two of the five fields; they are exported, and the driver presents each
   of them to the real client. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

CONSTANTS NumRecords, MaxServers

\* records 1 and 2 may be equal in a real database; here all are different
Item(j) == <<"item", j>>
Records == [j \in 1..NumRecords |-> Item(j-1)]
M == INSTANCE Merkle WITH Items <- {}, MaxItems <- NumRecords, Separated <- TRUE, items <- Records, claim <- <<>>
D == M!Depth(NumRecords)
RootHash == M!Root(Records)

\* a hash is written down by its place in the tree
Places == UNION {{<<lv, kk>> : kk \in 0..(M!Pow2(D - lv) - 1)} : lv \in 0..D}
HashAt(p) == IF p[1] = -1 THEN <<"junk">> ELSE M!Node(Records, p[1], p[2])
PathPlaces(j) == [lv \in 1..D |-> <<lv-1, M!Sibling(j \div M!Pow2(lv-1))>>]
Junk == <<-1, 0>>

\* data fields: lists of records and of pieces; "cut" and "ext" stand for a
\* record without its last, and with one more, byte; "node" for the
\* concatenation of two hashes (an inner node presented as a record)
DataFields == {<<[kind |-> "record", j |-> j]>> : j \in 0..(NumRecords-1)}
  \cup {<<>>}
  \cup {<<[kind |-> "cut", j |-> j]>> : j \in 0..(NumRecords-1)}
  \cup {<<[kind |-> "ext", j |-> j]>> : j \in 0..(NumRecords-1)}
  \cup {<<[kind |-> "node", j |-> j]>> : j \in 0..((M!Pow2(D) - 1) \div 2)}
DataTerm(d) == IF d = <<>> THEN <<"empty">>
               ELSE IF d[1].kind = "record" THEN Item(d[1].j) ELSE <<"other", d[1].kind, d[1].j>>
CountFields == (0..(D+1)) \cup {M!RandomIndex}
IndexFields == (0..(M!Pow2(D) + 1)) \cup {M!RandomIndex}
PadFields == {"80", "none", "8080", "0080", "808000"}
PathFields ==
  {PathPlaces(j) : j \in 0..(NumRecords-1)}
  \cup {SubSeq(PathPlaces(j), a, b) : j \in 0..(NumRecords-1), a \in 1..(D+1), b \in 0..D}
  \cup {PathPlaces(j) \o <<Junk>> : j \in 0..(NumRecords-1)}
  \cup {Reverse(PathPlaces(j)) : j \in 0..(NumRecords-1)}
  \cup {[PathPlaces(j) EXCEPT ![x] = p] : j \in 0..(NumRecords-1), x \in 1..D, p \in Places \cup {Junk}}

Genuine(j) == [data |-> <<[kind |-> "record", j |-> j]>>, count |-> D, path |-> PathPlaces(j), index |-> j, pad |-> "80"]
Forgeries == UNION {
    LET g == Genuine(j) IN
       {[g EXCEPT !.data = d, !.path = p] : d \in DataFields, p \in PathFields}
  \cup {[g EXCEPT !.data = d, !.index = i] : d \in DataFields, i \in IndexFields}
  \cup {[g EXCEPT !.data = d, !.count = c] : d \in DataFields, c \in CountFields}
  \cup {[g EXCEPT !.data = d, !.pad = p] : d \in DataFields, p \in PadFields}
  \cup {[g EXCEPT !.path = p, !.index = i] : p \in PathFields, i \in IndexFields}
  \cup {[g EXCEPT !.path = p, !.count = c] : p \in PathFields, c \in CountFields}
  \cup {[g EXCEPT !.index = i, !.count = c] : i \in IndexFields, c \in CountFields}
  \cup {[g EXCEPT !.pad = p, !.count = c] : p \in PadFields, c \in CountFields}
  \cup {[g EXCEPT !.pad = p, !.index = i] : p \in PadFields, i \in IndexFields}
  : j \in 0..(NumRecords-1)}

\* what the client does with a block when it asked for record q
Err == <<"err">>
Client(q, b) ==
  \* the proof is taken from the end: with a path of another length, or without
  \* a proper padding, the fields do not lie where they are expected
  IF b.pad # "80" \/ Len(b.path) # D \/ b.count # D THEN Err
  ELSE IF b.index # q THEN Err
  ELSE IF M!Verify(DataTerm(b.data), b.index, [x \in 1..D |-> HashAt(b.path[x])], RootHash)
       THEN DataTerm(b.data) ELSE Err

VARIABLES phase, q, k, honest, block, outcome
vars == <<phase, q, k, honest, block, outcome>>
Init == phase = "start" /\ q = 0 /\ k = 0 /\ honest = {} /\ block = Genuine(0) /\ outcome = Err
Ask == /\ phase = "start" /\ phase' = "asked"
       /\ q' \in 0..(NumRecords-1) /\ k' \in 2..MaxServers
       /\ UNCHANGED <<honest, block, outcome>>
\* all answer honestly, or all but at least one collude
Honest == /\ phase = "asked" /\ phase' = "answered" /\ honest' = 1..k /\ block' = Genuine(q)
          /\ UNCHANGED <<q, k, outcome>>
Collude == /\ phase = "asked" /\ phase' = "answered"
           /\ honest' = {1} /\ block' \in Forgeries
           /\ UNCHANGED <<q, k, outcome>>
Reconstruct == /\ phase = "answered" /\ phase' = "done" /\ outcome' = Client(q, block)
               /\ UNCHANGED <<q, k, honest, block>>
Next == Ask \/ Honest \/ Collude \/ Reconstruct
Spec == Init /\ [][Next]_vars

Integrity == phase = "done" => outcome \in {Err, Item(q)}
Correct == phase = "done" /\ honest = 1..k => outcome = Item(q)

Export == "VERIF_SCEN" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.VERIF_SCEN, SetToSeq(Forgeries))
ASSUME Export
=============================================================================
