--------------------------- MODULE ExperimentTrace ---------------------------
(* Recorded runs of the experiment: its server processes, retrievals from them,
   and runs of its client program before servers whose messages the driver sees
   and alters. Contents are numbers, equal for equal bytes. What a database
   holds at a position (held) is known from the first retrieval; databases of
   the same parameters are the same, in all processes. *)
EXTENDS TraceLib
VARIABLES l, flags, infos, up, stopped, held, counts, run, asked
vars == <<l, flags, infos, up, stopped, held, counts, run, asked>>
None == 0
F == Trace[flags].flags
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE CeilSqrt(_, _)
CeilSqrt(n, r) == IF r * r >= n THEN r ELSE CeilSqrt(n, r + 1)
RECURSIVE CeilLog(_)
CeilLog(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog((n + 1) \div 2)

\* the shape that the flags ask for
Blocks == F.bits \div (8 * F.block)
Rows == IF F.rows = 1 THEN 1 ELSE CeilSqrt(Blocks, 0)
Cols == Blocks \div Rows
Total == Rows * Cols
Proof == 32 * CeilLog(Blocks) + 8 \* Merkle, Codec
InfoOk(e) ==
  /\ e.out = "ok"
  /\ \A i \in infos : LET d == Trace[i] IN \* Experiment!Same
       <<d.rows, d.cols, d.bs, d.type, d.root, d.proof>> = <<e.rows, e.cols, e.bs, e.type, e.root, e.proof>>
  /\ IF ~F.point THEN e.cols > 0
     ELSE /\ e.rows = Rows /\ e.cols = Cols
          /\ IF F.auth THEN e.type = "merkle" /\ e.root # 0 /\ e.proof = Proof /\ e.bs = F.block + Proof + 1
             ELSE e.type # "merkle" /\ e.bs = F.block

Key(i) == <<F.db, i>>
Holds(i, v) == /\ Key(i) \in DOMAIN held => held[Key(i)] = v
               /\ \A k \in DOMAIN held : k[1] = F.db /\ k[2] # i => held[k] # v
GetOk(e) == /\ e.out = "ok" /\ e.i \in 0..(Total - 1)
            /\ e.len = F.block /\ Holds(e.i, e.val)

\* keys: a count is the same whenever it is asked for, in both schemes; the
\* counts of a partition are all the keys
CKey(e) == <<e.what, e.i>>
CountOk(e) == e.out = "ok" /\ e.num >= 0 /\ (CKey(e) \in DOMAIN counts => counts[CKey(e)] = e.num)
RECURSIVE SumTo(_, _)
SumTo(w, n) == IF n = 0 THEN 0 ELSE counts[<<w, n - 1>>] + SumTo(w, n - 1)
PartitionOk(e) == /\ \A j \in 0..(e.n - 1) : <<e.what, j>> \in DOMAIN counts
                  /\ SumTo(e.what, e.n) = Trace[CHOOSE i \in infos : TRUE].cols

\* the client program
R == Trace[run]
Needed == IF F.point THEN CeilDiv(R.bits, 8 * F.block) ELSE 1
Possible == ~F.point \/ Needed <= Total
\* one query to every server, for a column, whose blocks are those of the database
AskedOk(e) == /\ run # None /\ ~R.desc /\ Possible
              /\ \/ e.servers = F.k
                 \/ R.at = Len(asked) + 1 \* the client ends before all of them are asked
              /\ (F.point /\ e.servers = F.k) => /\ e.col \in 0..(Cols - 1)
                                                 /\ Len(e.vals) \in {0, Rows}
                                                 /\ \A r \in DOMAIN e.vals : Holds((r - 1) * Cols + e.col, e.vals[r])
              /\ Len(asked) < R.reps * Needed
Sizes == [i \in DOMAIN asked |-> Trace[asked[i]].size]
RECURSIVE SumSizes(_, _)
SumSizes(a, b) == IF a > b THEN 0 ELSE Sizes[a] + SumSizes(a + 1, b)
\* the queries of a repetition are for consecutive blocks which all exist
ForCol(i, c) == LET e == Trace[asked[i]] IN e.col = c \/ e.servers < F.k
Consecutive(first, n) == \E start \in 0..(Total - Needed) :
                            \A i \in 1..n : ForCol(first + i - 1, (start + i - 1) % Cols)
Min(a, b) == IF a < b THEN a ELSE b
Places == F.point => \A r \in 0..(R.reps - 1) :
             LET n == Min(Needed, Len(asked) - r * Needed) IN n > 0 => Consecutive(r * Needed + 1, n)
Reports(e, n) == /\ Len(e.stats) = n
                 /\ \A r \in 1..n : e.stats[r] = <<r - 1, SumSizes((r - 1) * Needed + 1, r * Needed)>>
OutcomeOk(e) ==
  /\ run # None /\ ~e.hang /\ Places
  /\ IF R.desc \/ ~Possible THEN e.rc # 0 /\ asked = <<>> /\ e.stats = <<>>
     ELSE IF R.at > 0 /\ R.noticed THEN \* Experiment!Verified
          /\ e.rc # 0 /\ Len(asked) = R.at /\ Reports(e, (R.at - 1) \div Needed)
     ELSE e.rc = 0 /\ Len(asked) = R.reps * Needed /\ Reports(e, R.reps)
LoggedOk(e) == e.sizes = e.answers

\* a server that is asked to terminate does so when it has answered
PendingOk(e) == \/ e.out = "ok" /\ e.got = e.want
                \/ e.out = "unavailable" /\ ~e.accepted
ExitOk(e) == ~e.hang /\ e.rc = 0 /\ e.s \in stopped
\* peers that hold a connection do not hold the server
HeldOk(e) == e.s \in stopped /\ e.out = "exited"
EndOk(e) == up = {} /\ run = None

\* the experiments in one process complete, with an entry for each repetition
SimulOk(e) == /\ ~e.hang /\ e.rc = 0 /\ Len(e.results) = Len(e.lengths)
              /\ \A i \in DOMAIN e.results : e.results[i].length = e.lengths[i] /\ e.results[i].n = e.reps /\ e.results[i].right = e.reps

Ok(e) == CASE e.ev = "begin" -> TRUE
           [] e.ev = "start" -> e.out = "ok" /\ e.s \notin up
           [] e.ev = "info" -> InfoOk(e)
           [] e.ev = "get" -> GetOk(e)
           [] e.ev = "count" -> CountOk(e)
           [] e.ev = "partition" -> PartitionOk(e)
           [] e.ev = "run" -> run = None
           [] e.ev = "asked" -> AskedOk(e)
           [] e.ev = "logged" -> LoggedOk(e)
           [] e.ev = "outcome" -> OutcomeOk(e)
           [] e.ev = "pending" -> PendingOk(e)
           [] e.ev = "stop" -> TRUE
           [] e.ev = "exit" -> ExitOk(e)
           [] e.ev = "held" -> HeldOk(e)
           [] e.ev = "end" -> EndOk(e)
           [] e.ev = "simul" -> SimulOk(e)
           [] OTHER -> FALSE
Init == /\ l = 1 /\ flags = 1 /\ infos = {} /\ up = {} /\ stopped = {}
        /\ held = <<>> /\ counts = <<>> /\ run = None /\ asked = <<>>
Learn(e) == CASE e.ev = "get" /\ e.out = "ok" /\ Key(e.i) \notin DOMAIN held -> (Key(e.i) :> e.val) @@ held
              [] OTHER -> held
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ flags' = IF e.ev = "begin" THEN l ELSE flags
           /\ infos' = CASE e.ev = "begin" -> {}
                         [] e.ev = "info" /\ e.out = "ok" -> infos \cup {l}
                         [] OTHER -> infos
           /\ up' = CASE e.ev = "begin" -> {}
                      [] e.ev = "start" -> up \cup {e.s}
                      [] e.ev = "exit" -> up \ {e.s}
                      [] OTHER -> up
           /\ stopped' = CASE e.ev = "begin" -> {}
                           [] e.ev = "stop" -> stopped \cup {e.s}
                           [] e.ev = "start" -> stopped \ {e.s}
                           [] OTHER -> stopped
           /\ held' = Learn(e)
           /\ counts' = IF e.ev = "count" /\ CKey(e) \notin DOMAIN counts THEN (CKey(e) :> e.num) @@ counts ELSE counts
           /\ run' = CASE e.ev = "run" -> l [] e.ev \in {"outcome", "begin"} -> None [] OTHER -> run
           /\ asked' = CASE e.ev = "run" -> <<>> [] e.ev = "asked" -> Append(asked, l) [] OTHER -> asked
           /\ Explained(Ok(e), l)
           /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
