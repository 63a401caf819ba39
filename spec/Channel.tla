------------------------------ MODULE Channel ------------------------------
(* The channels between a front end and its servers (lib/utils/tls.go, the
   connections of cmd/grpc/client, manager and simulations/multi/client), in the
   hands of an attacker who owns the network.

   Every link leads to a server, and the attacker decides what is at its end:
     genuine  the server, which proves that it has a certificate that the
              client was shipped with
     unknown  the attacker, with a certificate of his own
     thief    the attacker, with a shipped certificate whose key he does not have
     plain    the attacker, who does not encrypt
   He also sees, alters, drops, replays and injects what passes on a genuine
   link, and cuts it; MaxFaults times.

   A record on a link is [seal, n, body]: the key it is sealed with (Open for
   none), its number, and a body. A key is the number of the connection for one
   between the client and a server, and Attacker for one that the attacker has.

   Design constants; the repository's are the first ones, the others are refuted:
     Verify     pinned | any (any certificate) | unproved (no proof of the key)
     Fallback   FALSE | TRUE: without encryption if it fails
     Again      TRUE | FALSE: verifies also when it connects again
     Integrity  TRUE | FALSE: altered records are noticed
     Ordered    TRUE | FALSE: records at the wrong place are noticed
     Sessions   requests of one front end, one after the other *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K, Sessions, MaxFaults, Verify, Fallback, Again, Integrity, Ordered
Links == 1..K
Ends == {"genuine", "unknown", "thief", "plain"}
Open == 0 - 1
Attacker == 0 - 2
NoKey == 0

VARIABLES end,      \* link -> who is at its end
          key,      \* link -> of the connection the client has
          epoch,    \* number of connections so far
          known1,   \* links the client has connected to before
          up, down, \* link -> records in flight, to and from the server
          ns, nr,   \* link -> [up, down] records sent, received on the connection
          seen,     \* link -> records that have passed
          phase, session, waiting, got, outcome,
          learnt,   \* what the attacker has read
          served,   \* link -> sessions whose query the server has received
          faults
vars == <<end, key, epoch, known1, up, down, ns, nr, seen, phase, session, waiting, got, outcome, learnt, served, faults>>
net == <<end, key, epoch, known1, up, down, ns, nr, seen>>

Zero == [up |-> 0, down |-> 0]
Init == /\ end \in [Links -> Ends] /\ key = [s \in Links |-> NoKey] /\ epoch = 0 /\ known1 = {}
        /\ up = [s \in Links |-> <<>>] /\ down = [s \in Links |-> <<>>]
        /\ ns = [s \in Links |-> Zero] /\ nr = [s \in Links |-> Zero] /\ seen = [s \in Links |-> {}]
        /\ phase = "connect" /\ session = 1 /\ waiting = {} /\ got = [s \in Links |-> "nothing"] /\ outcome = "none"
        /\ learnt = {} /\ served = [s \in Links |-> {}] /\ faults = 0

\* ---- the client
Checks(s) == Again \/ s \notin known1
Accepts(s) == CASE end[s] = "genuine" -> TRUE
                [] end[s] = "unknown" -> Verify = "any" \/ ~Checks(s)
                [] end[s] = "thief" -> Verify = "unproved" \/ ~Checks(s)
                [] end[s] = "plain" -> Fallback
KeyOf(s) == CASE end[s] = "genuine" -> epoch + 1 [] end[s] = "plain" -> Open [] OTHER -> Attacker
Fail == phase' = "done" /\ outcome' = "error" /\ waiting' = {} /\ UNCHANGED <<session, got>>
Connect(s) == /\ key[s] = NoKey
              /\ \/ phase = "connect"
                 \/ phase \in {"describe", "query"} /\ s \in waiting /\ got[s] = "nothing"
              /\ IF Accepts(s)
                 THEN /\ key' = [key EXCEPT ![s] = KeyOf(s)] /\ epoch' = epoch + 1 /\ known1' = known1 \cup {s}
                      /\ up' = [up EXCEPT ![s] = <<>>] /\ down' = [down EXCEPT ![s] = <<>>]
                      /\ ns' = [ns EXCEPT ![s] = Zero] /\ nr' = [nr EXCEPT ![s] = Zero]
                      /\ UNCHANGED <<end, seen, phase, session, waiting, got, outcome, learnt, served, faults>>
                 ELSE Fail /\ UNCHANGED <<net, learnt, served, faults>>
Connected == /\ phase = "connect" /\ \A s \in Links : key[s] # NoKey
             /\ phase' = "describe" /\ waiting' = Links /\ got' = [s \in Links |-> "nothing"]
             /\ UNCHANGED <<net, session, outcome, learnt, served, faults>>
\* id: of the request on the connection
Body(s) == [kind |-> IF phase = "describe" THEN "info" ELSE "query", for |-> session, id |-> ns[s].up + 1]
Readable(k) == k \in {Open, Attacker}
\* one request on each link in each phase
Send(s) == /\ phase \in {"describe", "query"} /\ s \in waiting /\ got[s] = "nothing" /\ key[s] # NoKey
           /\ got' = [got EXCEPT ![s] = "asked"]
           /\ LET r == [seal |-> key[s], n |-> ns[s].up + 1, body |-> Body(s)] IN
              /\ up' = [up EXCEPT ![s] = Append(@, r)]
              /\ seen' = [seen EXCEPT ![s] = @ \cup {r}]
              /\ ns' = [ns EXCEPT ![s].up = @ + 1]
              /\ learnt' = IF Readable(key[s]) THEN learnt \cup {Body(s).kind} ELSE learnt
           /\ UNCHANGED <<end, key, epoch, known1, down, nr, phase, session, waiting, outcome, served, faults>>
\* is the record one that the holder of the key takes
Intact(r, k, n) == /\ r.seal = k \/ (~Ordered /\ r.seal \notin {Open, Attacker})
                   /\ r.n = n + 1 \/ ~Ordered \/ r.seal = Open
                   /\ r.body.kind # "garbled" \/ ~Integrity \/ r.seal = Open
Closed(s) == key' = [key EXCEPT ![s] = NoKey] /\ up' = [up EXCEPT ![s] = <<>>] /\ down' = [down EXCEPT ![s] = <<>>]
Receive(s) ==
  /\ down[s] # <<>>
  /\ LET r == Head(down[s]) IN
     IF Intact(r, key[s], nr[s].down)
     THEN /\ down' = [down EXCEPT ![s] = Tail(@)] /\ nr' = [nr EXCEPT ![s].down = @ + 1]
          /\ LET wanted == IF phase = "describe" THEN "desc" ELSE "answer"
                 right == r.body.kind = wanted /\ (wanted = "desc" \/ r.body.for = session) /\ r.seal \notin {Open, Attacker} IN
             \* replies to requests that were given up are ignored
             /\ IF s \in waiting /\ got[s] = "asked" /\ r.body.id = ns[s].up
                THEN got' = [got EXCEPT ![s] = IF right THEN "right" ELSE "wrong"] /\ waiting' = waiting \ {s}
                ELSE UNCHANGED <<got, waiting>>
             /\ UNCHANGED <<end, key, epoch, known1, up, ns, seen, phase, session, outcome, learnt, served, faults>>
     ELSE /\ Closed(s) /\ IF s \in waiting /\ got[s] = "asked" THEN Fail ELSE UNCHANGED <<phase, session, waiting, got, outcome>>
          /\ UNCHANGED <<end, epoch, known1, ns, nr, seen, learnt, served, faults>>
Advance == /\ phase \in {"describe", "query"} /\ waiting = {}
           /\ IF phase = "describe"
              THEN phase' = "query" /\ waiting' = Links /\ got' = [s \in Links |-> "nothing"] /\ UNCHANGED outcome
              ELSE phase' = "done" /\ outcome' = (IF \E s \in Links : got[s] = "wrong" THEN "wrong" ELSE "right") /\ UNCHANGED <<waiting, got>>
           /\ UNCHANGED <<net, session, learnt, served, faults>>
NextSession == /\ phase = "done" /\ session < Sessions
               /\ phase' = "connect" /\ session' = session + 1 /\ outcome' = "none" /\ waiting' = {} /\ got' = [s \in Links |-> "nothing"]
               /\ UNCHANGED <<net, learnt, served, faults>>

\* ---- the server, or the attacker in its place
Reply(s, r) == [seal |-> key[s], n |-> ns[s].down + 1,
                body |-> [kind |-> IF r.body.kind = "info" THEN "desc" ELSE "answer", for |-> r.body.for, id |-> r.body.id]]
Serve(s) ==
  /\ up[s] # <<>>
  /\ LET r == Head(up[s]) IN
     IF Intact(r, key[s], nr[s].up) /\ r.body.kind # "garbled"
     THEN /\ up' = [up EXCEPT ![s] = Tail(@)] /\ nr' = [nr EXCEPT ![s].up = @ + 1]
          /\ down' = [down EXCEPT ![s] = Append(@, Reply(s, r))]
          /\ seen' = [seen EXCEPT ![s] = @ \cup {Reply(s, r)}]
          /\ ns' = [ns EXCEPT ![s].down = @ + 1]
          /\ served' = IF end[s] = "genuine" /\ r.body.kind = "query" THEN [served EXCEPT ![s] = @ \cup {r.body.for}] ELSE served
          /\ UNCHANGED <<end, key, epoch, known1, phase, session, waiting, got, outcome, learnt, faults>>
     ELSE /\ Closed(s) /\ IF s \in waiting /\ got[s] = "asked" THEN Fail ELSE UNCHANGED <<phase, session, waiting, got, outcome>>
          /\ UNCHANGED <<end, epoch, known1, ns, nr, seen, learnt, served, faults>>

\* ---- the attacker on the path
Fault == faults < MaxFaults /\ faults' = faults + 1
Cut(s) == Closed(s) /\ IF s \in waiting /\ got[s] = "asked" THEN Fail ELSE UNCHANGED <<phase, session, waiting, got, outcome>>
CutLink(s) == Fault /\ key[s] # NoKey /\ Cut(s) /\ UNCHANGED <<end, epoch, known1, ns, nr, seen, learnt, served>>
Replace(s, e) == /\ Fault /\ end[s] # e /\ end' = [end EXCEPT ![s] = e] /\ Cut(s)
                 /\ UNCHANGED <<epoch, known1, ns, nr, seen, learnt, served>>
Garbled(r) == [r EXCEPT !.body.kind = "garbled"]
OnPath(s) == end[s] = "genuine" /\ key[s] # NoKey
Quiet == UNCHANGED <<end, key, epoch, known1, ns, nr, seen, phase, session, waiting, got, outcome, learnt, served>>
\* what is lost leaves a gap, and the connection does not outlive it
Alter(s) == /\ Fault /\ OnPath(s)
            /\ \/ up[s] # <<>> /\ up' = [up EXCEPT ![s] = <<Garbled(Head(@))>> \o Tail(@)] /\ UNCHANGED down
               \/ down[s] # <<>> /\ down' = [down EXCEPT ![s] = <<Garbled(Head(@))>> \o Tail(@)] /\ UNCHANGED up
            /\ Quiet
Inject(s) == /\ Fault /\ OnPath(s)
             /\ \E r \in seen[s] :
                  \/ r.body.kind \in {"info", "query"} /\ up' = [up EXCEPT ![s] = <<r>> \o @] /\ UNCHANGED down
                  \/ r.body.kind \in {"desc", "answer"} /\ down' = [down EXCEPT ![s] = <<r>> \o @] /\ UNCHANGED up
             /\ Quiet

Step == \/ \E s \in Links : Connect(s) \/ Send(s) \/ Receive(s) \/ Serve(s)
        \/ Connected \/ Advance \/ NextSession
Next == Step \/ (\E s \in Links : CutLink(s) \/ Alter(s) \/ Inject(s) \/ \E e \in Ends : Replace(s, e))
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

\* ---- properties
\* nobody but the servers can read a request
Secret == learnt = {}
\* what is shown is right, or an error
RightOrError == outcome \in {"none", "error", "right"}
\* a result comes from the servers, all of them
FromServers == outcome = "right" => \A s \in Links : session \in served[s]
\* without an attacker it works
Works == (faults = 0 /\ \A s \in Links : end[s] = "genuine") => outcome \in {"none", "right"}
Terminates == <>[](phase = "done" /\ session = Sessions)
=============================================================================
