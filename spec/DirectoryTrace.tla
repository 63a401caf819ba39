--------------------------- MODULE DirectoryTrace ---------------------------
(* Recorded directories of lib/database and lookups in them. Digests are
   numbers: equal numbers stand for identical directories. *)
EXTENDS TraceLib
VARIABLES l, n,      \* the keys 0..n-1 are stored
          built      \* layout -> digest
vars == <<l, n, built>>

\* every server builds the directory the others have
BuildOk(e) == /\ e.out = "ok"
              /\ e.layout \in DOMAIN built => built[e.layout] = e.digest

\* the metadata table describes every stored key exactly once
TableOk(e) == /\ Len(e.rows) = n /\ Range(e.rows) = 0..(n-1)
              /\ e.announced = n

\* a stored key is found, and nothing else
LookupOk(e) == /\ e.out = "ok"
               /\ IF e.asked >= 0 THEN e.res = "key" /\ e.got = e.asked
                  ELSE e.res = "absent"

Ok(e) == CASE e.ev \in {"begin", "keys"} -> TRUE
           [] e.ev = "build" -> BuildOk(e)
           [] e.ev = "table" -> TableOk(e)
           [] e.ev = "lookup" -> LookupOk(e)
           [] OTHER -> FALSE

Init == l = 1 /\ n = 0 /\ built = <<>>
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ n' = IF e.ev = "keys" THEN e.n ELSE n
           /\ built' = IF e.ev = "begin" THEN <<>>
                       ELSE IF e.ev = "build" /\ e.layout \notin DOMAIN built /\ e.out = "ok"
                       THEN (e.layout :> e.digest) @@ built ELSE built
           /\ Explained(Ok(e), l)
           /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
