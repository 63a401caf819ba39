----------------------------- MODULE KeyServer -----------------------------
(* The key server program: a handler per request puts the query in a bounded
   queue, one worker answers, the handler waits for its own reply channel. A
   request may be cancelled at any time; a stop signal lets the accepted ones
   finish. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Requests, Capacity,
          Malformed,   \* requests whose query cannot be answered
          Peers,       \* "act": who begins a request ends it or goes away;
                       \* "stall": also never
          Design       \* "as is", or a defective variant: "unbuffered reply",
                       \* "shared reply", "close first"; "drop begun": a stop does
                       \* not wait for requests which were only begun
VARIABLES h,          \* handler: new, begun (not received whole), enqueue, wait, ok, error, cancelled, refused, crashed
          got,        \* the request whose answer a handler returned
          queue, working,
          reply,      \* request -> content of its reply channel (0: empty)
          stopping, closed, exited
vars == <<h, got, queue, working, reply, stopping, closed, exited>>

None == 0
Chan(r) == IF Design = "shared reply" THEN CHOOSE x \in Requests : TRUE ELSE r
Init == /\ h = [r \in Requests |-> "new"] /\ got = [r \in Requests |-> None]
        /\ queue = <<>> /\ working = None /\ reply = [r \in Requests |-> None]
        /\ stopping = FALSE /\ closed = FALSE /\ exited = "no"

Running == exited = "no"
Active == {r \in Requests : h[r] \in {"enqueue", "wait"}}
\* what the termination waits for
Held == {r \in Requests : h[r] \in {"enqueue", "wait"} \cup (IF Design = "drop begun" THEN {} ELSE {"begun"})}

Begin(r) == /\ h[r] = "new" /\ Running /\ ~stopping
            /\ h' = [h EXCEPT ![r] = "begun"]
            /\ UNCHANGED <<got, queue, working, reply, stopping, closed, exited>>

\* the whole request arrives, at once or after it was begun
Send(r) == /\ \/ h[r] = "new"
              \/ h[r] = "begun" /\ Running /\ ~closed
           /\ h' = [h EXCEPT ![r] = IF h[r] = "new" /\ (stopping \/ ~Running) THEN "refused" ELSE "enqueue"]
           /\ UNCHANGED <<got, queue, working, reply, stopping, closed, exited>>

Enqueue(r) == /\ Running /\ h[r] = "enqueue"
              /\ IF closed THEN exited' = "panic" /\ UNCHANGED <<queue, h>>
                 ELSE /\ Len(queue) < Capacity
                      /\ queue' = Append(queue, r) /\ h' = [h EXCEPT ![r] = "wait"]
                      /\ UNCHANGED exited
              /\ UNCHANGED <<got, working, reply, stopping, closed>>

Take == /\ Running /\ working = None /\ queue # <<>>
        /\ working' = Head(queue) /\ queue' = Tail(queue)
        /\ UNCHANGED <<h, got, reply, stopping, closed, exited>>

\* the reply does not wait for a handler which may be gone
Answer == /\ Running /\ working # None
          /\ Design = "unbuffered reply" => h[working] = "wait"
          /\ reply[Chan(working)] = None
          /\ reply' = [reply EXCEPT ![Chan(working)] = working]
          /\ working' = None
          /\ UNCHANGED <<h, got, queue, stopping, closed, exited>>

Deliver(r) == /\ Running /\ h[r] = "wait" /\ reply[Chan(r)] # None
              /\ got' = [got EXCEPT ![r] = reply[Chan(r)]]
              /\ reply' = [reply EXCEPT ![Chan(r)] = None]
              /\ h' = [h EXCEPT ![r] = IF reply[Chan(r)] \in Malformed THEN "error" ELSE "ok"]
              /\ UNCHANGED <<queue, working, stopping, closed, exited>>

Cancel(r) == /\ Running /\ h[r] \in {"begun", "enqueue", "wait"}
             /\ h' = [h EXCEPT ![r] = "cancelled"]
             /\ UNCHANGED <<got, queue, working, reply, stopping, closed, exited>>

Stop == /\ Running /\ ~stopping /\ stopping' = TRUE
        /\ UNCHANGED <<h, got, queue, working, reply, closed, exited>>
Close == /\ Running /\ stopping /\ ~closed
         /\ Design # "close first" => Held = {}
         /\ closed' = TRUE
         /\ UNCHANGED <<h, got, queue, working, reply, stopping, exited>>
Exit == /\ Running /\ closed /\ Active = {} /\ exited' = "clean"
        /\ UNCHANGED <<h, got, queue, working, reply, stopping, closed>>

Next == \/ \E r \in Requests : Begin(r) \/ Send(r) \/ Enqueue(r) \/ Deliver(r) \/ Cancel(r)
        \/ Take \/ Answer \/ Stop \/ Close \/ Exit
Fair == /\ WF_vars(Take) /\ WF_vars(Answer) /\ WF_vars(Close) /\ WF_vars(Exit)
        /\ \A r \in Requests : WF_vars(Enqueue(r)) /\ WF_vars(Deliver(r))
        /\ Peers = "act" => \A r \in Requests : WF_vars(h[r] = "begun" /\ (Send(r) \/ Cancel(r)))
Spec == Init /\ [][Next]_vars /\ Fair

\* safety
OwnAnswer == \A r \in Requests : h[r] \in {"ok", "error"} => got[r] = r
Refused == \A r \in Requests : (r \in Malformed => h[r] # "ok") /\ (r \notin Malformed => h[r] # "error")
Bounded == Len(queue) <= Capacity
NoCrash == exited # "panic"
\* nothing that was accepted is lost when the server terminates
Finished == exited # "no" => Active = {}
\* liveness
Resolved == \A r \in Requests : (h[r] = "enqueue") ~> (h[r] \in {"ok", "error", "cancelled"})
Terminates == stopping ~> (exited = "clean")
=============================================================================
