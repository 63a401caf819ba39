----------------------------- MODULE Ingestion -----------------------------
(* The ingestion of key dumps: keys are parsed in any order, one key per e-mail
   is kept, the kept keys are written in any order if they are not too large,
   the file is split into chunks, and the chunks are loaded. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Keys,      \* 1..n; a higher number is a later creation time
          Emails,    \* positive numbers
          ChunkLimit \* a chunk is closed when it exceeds this many keys

VARIABLES email, revoked, large,   \* attributes of the keys (e-mail 0: none)
          todo,                    \* keys to parse
          kept,                    \* e-mail -> key, 0 for none
          file,                    \* what is written
          chunks, pos,             \* the chunks, and how much of the file they hold
          loaded,
          pc
vars == <<email, revoked, large, todo, kept, file, chunks, pos, loaded, pc>>

Init ==
  /\ email \in [Keys -> Emails \cup {0}]
  /\ revoked \in [Keys -> BOOLEAN]
  /\ large \in [Keys -> BOOLEAN]
  /\ todo = Keys
  /\ kept = [e \in Emails |-> 0]
  /\ file = <<>> /\ chunks = <<>> /\ pos = 0 /\ loaded = <<>>
  /\ pc = "parse"

Parse(k) ==
  /\ pc = "parse" /\ k \in todo
  /\ todo' = todo \ {k}
  /\ LET e == email[k] IN
     kept' = IF revoked[k] \/ e = 0 THEN kept
             ELSE IF kept[e] < k THEN [kept EXCEPT ![e] = k] ELSE kept
  /\ UNCHANGED <<email, revoked, large, file, chunks, pos, loaded, pc>>

\* the keys of the map, in any order
Orders(S) == {o \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN o : i # j => o[i] # o[j]}
Write ==
  /\ pc = "parse" /\ todo = {}
  /\ \E o \in Orders({e \in Emails : kept[e] # 0}) :
       file' = SelectSeq([i \in DOMAIN o |-> kept[o[i]]], LAMBDA k : ~large[k])
  /\ pc' = "split"
  /\ UNCHANGED <<email, revoked, large, todo, kept, chunks, pos, loaded>>

\* a new chunk is started before the next key is read
Split ==
  /\ pc = "split"
  /\ LET cs == IF chunks = <<>> \/ Len(chunks[Len(chunks)]) > ChunkLimit THEN Append(chunks, <<>>) ELSE chunks IN
     IF pos = Len(file) THEN chunks' = cs /\ pc' = "load" /\ UNCHANGED pos
     ELSE /\ chunks' = [cs EXCEPT ![Len(cs)] = Append(@, file[pos + 1])]
          /\ pos' = pos + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<email, revoked, large, todo, kept, file, loaded>>

RECURSIVE Flatten(_)
Flatten(cs) == IF cs = <<>> THEN <<>> ELSE Head(cs) \o Flatten(Tail(cs))
\* the chunks are loaded in any order
Load ==
  /\ pc = "load"
  /\ \E o \in Orders(DOMAIN chunks) : loaded' = Flatten([i \in DOMAIN o |-> chunks[o[i]]])
  /\ pc' = "done"
  /\ UNCHANGED <<email, revoked, large, todo, kept, file, chunks, pos>>

Next == (\E k \in Keys : Parse(k)) \/ Write \/ Split \/ Load
Spec == Init /\ [][Next]_vars

\* what is kept, whatever the order
Usable(k, e) == email[k] = e /\ ~revoked[k]
Newest(e) == IF \E k \in Keys : Usable(k, e)
             THEN CHOOSE k \in Keys : Usable(k, e) /\ \A j \in Keys : Usable(j, e) => j <= k
             ELSE 0
Kept == todo = {} => \A e \in Emails : kept[e] = Newest(e)
Loaded == pc = "done" =>
  /\ {loaded[i] : i \in DOMAIN loaded} = {Newest(e) : e \in {f \in Emails : Newest(f) # 0 /\ ~large[Newest(f)]}}
  /\ \A i, j \in DOMAIN loaded : i # j => loaded[i] # loaded[j]
=============================================================================
