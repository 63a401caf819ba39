--------------------------- MODULE IngestionTrace ---------------------------
(* Recorded ingestions of lib/pgp and of the data command. A key is described
   by its user ids, creation time, revocation and size; the keys of a trace
   are numbered from 1, e-mails by positive numbers (0: none). *)
EXTENDS TraceLib
VARIABLES l, at,      \* the line with the keys of this trace
          expected    \* set of [email, key] to be kept
vars == <<l, at, expected>>

SizeLimit == 8192
K == Trace[at].keys

\* The primary user id is the newest of those flagged as primary, or of all if
\* none is; the alphabetically first among equally new ones.
Ahead(a, b) == a.t > b.t \/ (a.t = b.t /\ a.rank < b.rank)
First(S) == CHOOSE a \in S : \A b \in S : a = b \/ Ahead(a, b)
PrimaryId(k) == LET all == Range(k.idents)
                    flagged == {i \in all : i.flag = 1}
                IN First(IF flagged # {} THEN flagged ELSE all)
\* its e-mail, or the alphabetically first e-mail if it has none
PrimaryEmail(k) ==
  LET p == PrimaryId(k)
      with == {i \in Range(k.idents) : i.email # 0}
  IN IF p.email # 0 \/ with = {} THEN p.email
     ELSE (CHOOSE i \in with : \A j \in with : i.erank <= j.erank).email

Newest(ks) ==
  LET mail == [i \in DOMAIN ks |-> PrimaryEmail(ks[i])]
      usable == {i \in DOMAIN ks : ~ks[i].revoked /\ mail[i] # 0}
  IN {[email |-> mail[i], key |-> i] :
       i \in {j \in usable : \A k \in usable : mail[k] = mail[j] => ks[k].created <= ks[j].created}}

Pair(x) == [email |-> x.email, key |-> x.key]
Exactly(s, S) == /\ {Pair(x) : x \in Range(s)} = S
                 /\ Len(s) = Cardinality(S)
                 /\ \A x \in Range(s) : x.intact /\ x.subkeys = 0

AnalyzeOk(e) == e.out = "ok" /\ Exactly(e.kept, expected)
WriteOk(e) == e.out = "ok"
Writable == {x \in expected : K[x.key].size <= SizeLimit}
LoadOk(e) == e.out = "ok" /\ Exactly(e.keys, Writable)

\* lists of opaque keys are split and loaded without loss
SplitOk(e) == /\ e.out = "ok" /\ Len(e.loaded) = Len(e.written)
              /\ Range(e.loaded) = Range(e.written)    \* the numbers are different

\* A file cut between two keys is a shorter file; anywhere else it is damaged.
CutOk(e) == \/ e.out = "err"
            \/ e.boundary /\ e.out = "ok" /\ e.loaded = SubSeq(e.written, 1, Len(e.loaded)) /\ Len(e.loaded) = e.complete
DamagedOk(e) == e.out = "err"

Ok(e) == CASE e.ev \in {"begin", "keys"} -> TRUE
           [] e.ev = "analyze" -> AnalyzeOk(e)
           [] e.ev = "write" -> WriteOk(e)
           [] e.ev = "load" -> LoadOk(e)
           [] e.ev = "split" -> SplitOk(e)
           [] e.ev = "cut" -> CutOk(e)
           [] e.ev = "damaged" -> DamagedOk(e)
           [] OTHER -> FALSE

Init == l = 1 /\ at = 0 /\ expected = {}
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ at' = IF e.ev = "keys" THEN l ELSE at
           /\ expected' = IF e.ev = "keys" THEN Newest(e.keys) ELSE expected
           /\ Explained(Ok(e), l)
           /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
