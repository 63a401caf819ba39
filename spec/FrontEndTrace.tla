--------------------------- MODULE FrontEndTrace ---------------------------
(* Requests to the real front ends, with the messages that servers under the
   control of the driver received and sent, explained by FrontEnd. Positions
   count from 0. A "request" opens a request: what every server describes (desc,
   equal numbers for equal values of every field), whether it does (info), and
   how it answers (ans):
     honest     as it should
     altered    wrongly, in the part that matters
     other      wrongly, perhaps in a part that does not matter
     malformed  with something that is no answer to the query
     none       not at all
   In a "mixed" request the servers run another scheme than the client, which
   may "demand" verification.
   Only one of the servers misbehaves, or more but not all. *)
EXTENDS TraceLib, Predicates
VARIABLES l, data, req, infos, asked
vars == <<l, data, req, infos, asked>>
None == 0
R == Trace[req]
Keys == Trace[data].keys
Now == Trace[data].now
Srv == DOMAIN R.servers
Described == \A s, t \in Srv : R.servers[s].desc = R.servers[t].desc
AllDescribe == \A s \in Srv : R.servers[s].info = "ok"
Pos(s) == s - 1

RequestOk(e) == /\ req = None
                /\ e.auth \in BOOLEAN
                /\ \A s \in DOMAIN e.servers : e.servers[s].ans \in {"honest", "altered", "other", "malformed", "none"}
                /\ \E s \in DOMAIN e.servers : e.servers[s].ans = "honest"
\* FrontEnd!Describe
InfoOk(e) == /\ req # None /\ e.s + 1 \in Srv /\ R.servers[e.s + 1].info = "ok"
\* FrontEnd!QueryOnlyIfAgreed and OwnMessage; a request can take several rounds
QueryOk(e) == /\ req # None /\ e.s + 1 \in Srv
              /\ AllDescribe /\ Described /\ infos = Srv
              /\ e.pos \in {-1, e.s}
              /\ Cardinality({i \in DOMAIN asked : asked[i] = e.s}) < R.rounds

Stored(email) == {i \in DOMAIN Keys : Keys[i].email = email}
Truth == CASE R.kind = "key" -> IF Stored(R.email) = {} THEN [kind |-> "missing"]
                                ELSE [kind |-> "key", fp |-> Keys[CHOOSE i \in Stored(R.email) : TRUE].fp]
           [] R.kind = "count" -> LET a == Answer(Keys, R.pred, Now) IN
                                  IF a = NoAnswer THEN [kind |-> "error"] ELSE [kind |-> "number", num |-> a]
           [] R.kind = "run" -> [kind |-> "done"]
Disturbed == \/ ~Described \/ ~AllDescribe
             \/ \E s \in Srv : R.servers[s].ans \in {"malformed", "none"} \/ (R.auth /\ R.servers[s].ans = "altered")
Quiet == \A s \in Srv : R.servers[s].ans = "honest"
ErrorShown(e) == e.out = "error" /\ e.kind = "nothing"
Is(e, t) == CASE t.kind = "missing" -> e.kind = "missing"
              [] t.kind = "key" -> e.out = "ok" /\ e.kind = "key" /\ e.fp = t.fp /\ e.email = R.email
              [] t.kind = "number" -> e.out = "ok" /\ e.kind = "number" /\ e.num = t.num
              [] t.kind = "done" -> e.out = "ok"
              [] t.kind = "error" -> ErrorShown(e)
\* without verification: whatever, but a key has the right e-mail
Unverified(e) == \/ e.kind \in {"nothing", "missing"}
                 \/ e.kind = "number" /\ R.kind = "count"
                 \/ e.kind = "key" /\ R.kind = "key" /\ e.email = R.email
EveryServerAsked == \A s \in Srv : Cardinality({i \in DOMAIN asked : asked[i] = Pos(s)}) = R.rounds
\* FrontEnd!OutcomeOf
OutcomeOk(e) ==
  /\ req # None
  /\ e.out \in {"ok", "error"}
  /\ IF ~R.valid \/ Disturbed THEN ErrorShown(e)
     ELSE IF R.mixed THEN ErrorShown(e) \/ (~R.demand /\ Is(e, Truth))
     ELSE IF Quiet THEN Is(e, Truth) /\ EveryServerAsked
     ELSE IF R.auth THEN ErrorShown(e) \/ Is(e, Truth)
     ELSE Unverified(e)
\* a request among others at the same time, all servers honest
AtOnceOk(e) == /\ req # None /\ R.valid /\ Quiet /\ Described /\ AllDescribe
               /\ Is(e, Truth)

Ok(e) == CASE e.ev = "begin" -> TRUE
           [] e.ev = "data" -> TRUE
           [] e.ev = "request" -> RequestOk(e)
           [] e.ev = "info" -> InfoOk(e)
           [] e.ev = "query" -> QueryOk(e)
           [] e.ev = "outcome" -> OutcomeOk(e)
           [] e.ev = "atonce" -> AtOnceOk(e)
           [] OTHER -> FALSE
Init == l = 1 /\ data = 1 /\ req = None /\ infos = {} /\ asked = <<>>
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ data' = IF e.ev = "data" THEN l ELSE data
           /\ req' = CASE e.ev = "request" -> l
                       [] e.ev \in {"outcome", "begin", "atonce"} -> None
                       [] OTHER -> req
           /\ infos' = CASE e.ev \in {"request", "begin"} -> {}
                         [] e.ev = "info" -> infos \cup {e.s + 1}
                         [] OTHER -> infos
           /\ asked' = CASE e.ev \in {"request", "begin"} -> <<>>
                         [] e.ev = "query" -> Append(asked, e.s)
                         [] OTHER -> asked
           /\ Explained(Ok(e), l)
           /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
