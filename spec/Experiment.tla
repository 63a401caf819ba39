----------------------------- MODULE Experiment -----------------------------
(* The networked experiment: servers that are started one by one, and perhaps
   again, fill their database from a stream of random values; a client asks for
   so many consecutive blocks that they cover the wanted bits, one after the
   other, and reports what it has sent when all of them are there. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Servers,      \* 1..k
          Rows, Cols,
          DataBits,     \* data in a block
          ProofBits,    \* what authentication adds to a block
          Wanted,       \* set of numbers of bits
          Repetitions,
          Auth,         \* blocks are verified
          Restarts,     \* how often servers are started again
          Design        \* "as is", or a defective variant: "own stream",
                        \* "no last start", "stored bits", "any start"
VARIABLES stream,       \* what the key of the experiment expands to
          db,           \* server -> index -> value; <<>>: not running
          restarts,
          want, start,  \* of the client
          rep, got,     \* repetition, blocks of this repetition
          shares, ans,  \* of the current query: server -> set of columns, -> row values
          sent,         \* queries of this repetition
          stats,        \* repetition -> reported queries
          bad,          \* a server that gives wrong answers (0: none)
          phase
vars == <<stream, db, restarts, want, start, rep, got, shares, ans, sent, stats, bad, phase>>

Total == Rows * Cols
Index == 0..(Total - 1)
Streams == [Index -> 0..1]
None == <<>>
Last == Cardinality(Servers)
Up == {s \in Servers : db[s] # None}

\* the number of blocks with that many bits of data
CeilDiv(a, b) == (a + b - 1) \div b
Needed == CeilDiv(want, IF Design = "stored bits" THEN DataBits + ProofBits ELSE DataBits)
Covering == CeilDiv(want, DataBits)

Init == /\ stream \in Streams /\ db = [s \in Servers |-> None] /\ restarts = 0
        /\ want \in {w \in Wanted : CeilDiv(w, DataBits) <= Total}
        /\ start = 0 /\ rep = 0 /\ got = <<>>
        /\ shares = None /\ ans = [s \in Servers |-> None] /\ sent = 0 /\ stats = <<>>
        /\ bad \in (IF Auth THEN Servers \cup {0} ELSE {0}) /\ phase = "connect"

Client == <<want, start, rep, got, shares, ans, sent, stats, bad, phase>>
Fill(s) == /\ db[s] = None
           /\ IF Design = "own stream" THEN \E x \in Streams : db' = [db EXCEPT ![s] = x]
              ELSE db' = [db EXCEPT ![s] = stream]
           /\ UNCHANGED <<stream, restarts>> /\ UNCHANGED Client
Crash(s) == /\ db[s] # None /\ restarts < Restarts
            /\ restarts' = restarts + 1 /\ db' = [db EXCEPT ![s] = None]
            /\ UNCHANGED stream /\ UNCHANGED Client

Servs == <<stream, db, restarts>>
\* where the run starts; the defective designs never start at the last place,
\* or somewhere
Starts == CASE Design = "no last start" -> {x \in Index : x + Needed < Total}
            [] Design = "any start" -> Index
            [] OTHER -> {x \in Index : x + Needed <= Total}
\* what servers describe: the shape and, with authentication, the commitment
Describes(s) == IF Auth THEN db[s] ELSE None
Connect == /\ phase = "connect" /\ Up = Servers
           /\ IF \A s, t \in Servers : Describes(s) = Describes(t)
              THEN IF Starts = {} THEN phase' = "crashed" /\ UNCHANGED start
                   ELSE phase' = "ask" /\ start' \in Starts
              ELSE phase' = "error" /\ UNCHANGED start
           /\ UNCHANGED <<want, rep, got, shares, ans, sent, stats, bad>> /\ UNCHANGED Servs

Flip(S, c) == IF c \in S THEN S \ {c} ELSE S \cup {c}
RECURSIVE XorAll(_, _)
XorAll(f, S) == IF S = {} THEN {} ELSE LET s == CHOOSE x \in S : TRUE IN
                LET r == XorAll(f, S \ {s}) IN (f[s] \ r) \cup (r \ f[s])
At == start + Len(got)
Ask == /\ phase = "ask" /\ shares = None /\ Len(got) < Needed
       /\ IF At >= Total THEN phase' = "crashed" /\ UNCHANGED <<shares, sent>>
          ELSE /\ \E f \in [Servers \ {Last} -> SUBSET (0..(Cols - 1))] :
                    shares' = [s \in Servers |-> IF s # Last THEN f[s]
                                                 ELSE Flip(XorAll(f, Servers \ {Last}), At % Cols)]
               /\ sent' = sent + 1 /\ UNCHANGED phase
       /\ UNCHANGED <<want, start, rep, got, ans, stats, bad>> /\ UNCHANGED Servs

Sum(S) == Cardinality(S) % 2
Reply(s, S) == [r \in 0..(Rows - 1) |-> Sum({c \in S : db[s][r * Cols + c] = 1})]
Serve(s) == /\ phase = "ask" /\ shares # None /\ db[s] # None /\ ans[s] = None
            /\ LET a == Reply(s, shares[s]) IN
               \E x \in (IF s = bad THEN [0..(Rows - 1) -> 0..1] ELSE {a}) : ans' = [ans EXCEPT ![s] = x]
            /\ UNCHANGED <<want, start, rep, got, shares, sent, stats, bad, phase>> /\ UNCHANGED Servs

\* the client knows the commitment, so it accepts only what was committed to
Value == LET row == At \div Cols IN Sum({s \in Servers : ans[s][row] = 1})
Combine == /\ phase = "ask" /\ shares # None /\ \A s \in Servers : ans[s] # None
           /\ IF Auth /\ Value # stream[At] THEN phase' = "error" /\ UNCHANGED got
              ELSE got' = Append(got, Value) /\ UNCHANGED phase
           /\ shares' = None /\ ans' = [s \in Servers |-> None]
           /\ UNCHANGED <<want, start, rep, sent, stats, bad>> /\ UNCHANGED Servs
Report == /\ phase = "ask" /\ shares = None /\ Len(got) = Needed
          /\ stats' = Append(stats, sent) /\ sent' = 0
          /\ rep' = rep + 1
          /\ IF rep + 1 = Repetitions THEN phase' = "done" /\ UNCHANGED got ELSE got' = <<>> /\ UNCHANGED phase
          /\ UNCHANGED <<want, start, shares, ans, bad>> /\ UNCHANGED Servs

Next == \/ \E s \in Servers : Fill(s) \/ Crash(s) \/ Serve(s)
        \/ Connect \/ Ask \/ Combine \/ Report
Fair == /\ WF_vars(Connect) /\ WF_vars(Ask) /\ WF_vars(Combine) /\ WF_vars(Report)
        /\ \A s \in Servers : WF_vars(Fill(s)) /\ WF_vars(Serve(s))
Spec == Init /\ [][Next]_vars /\ Fair

\* started at any time, servers hold the same database
Same == \A s, t \in Up : db[s] = db[t]
Exact == bad = 0 => \A i \in DOMAIN got : got[i] = stream[start + i - 1]
Verified == Auth => \A i \in DOMAIN got : got[i] = stream[start + i - 1]
Covers == phase = "done" => Len(got) * DataBits >= want /\ (Len(got) - 1) * DataBits < want
NoCrash == phase # "crashed"
\* an honest run is completed
Honest == bad = 0 => phase # "error"
Reported == \A r \in DOMAIN stats : stats[r] = Covering
Terminates == <>(phase \in {"done", "error", "crashed"})
=============================================================================
