------------------------------ MODULE FrontEnd ------------------------------
(* The front ends (cmd/grpc/client: main.go, manager, web): a user's request
   becomes a request for the description of the database to every server, and,
   if all the descriptions agree, one query to every server; the answers are
   combined, verified and shown.

   Servers are positions of the configuration. Up to all but one of them
   misbehave: they describe something else, do not describe anything, answer
   wrongly, or do not answer. Messages take any time.

   Design constants; "good" ones are the repository's, the others are refuted:
     Compare   all | pairs (servers 1 and 2 only) | shape (not the root and the
               length of the proofs) | none
     Wait      all | first: the comparison starts when all descriptions are
               there, or with the first one
     Dispatch  position | arrival: message j goes to server j, or to the j-th
               server that described the database
     OnError   stop | show | missing: after a failed verification
     Sessions  requests that one front end handles, one after the other *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS K, Sessions, Compare, Wait, Dispatch, OnError, MaxFaults
Srv == 1..K
Fields == {"shape", "root", "prooflen"}
Truth == "truth"
Wrong == "wrong"
Requests == {"stored", "unknown"}
\* what a server does: its description and its answer
Honest == [desc |-> "same", ans |-> "honest"]
Behaviours == {[desc |-> d, ans |-> a] : d \in Fields \cup {"same", "none"}, a \in {"honest", "tampered", "malformed", "none"}}

VARIABLES phase,       \* of the front end
          session,     \* the number of the request
          request, behaviour, auth,
          infos,       \* servers whose descriptions have arrived, in that order
          agreed,      \* the comparison has succeeded
          inbox,       \* server -> messages it has received
          answers,     \* servers whose answers have arrived, in that order
          outcome,
          history      \* of the earlier sessions
vars == <<phase, session, request, behaviour, auth, infos, agreed, inbox, answers, outcome, history>>
ArrivedInfos == {infos[i] : i \in DOMAIN infos}
ArrivedAnswers == {answers[i] : i \in DOMAIN answers}

Faulty == {s \in Srv : behaviour[s] # Honest}
NoOutcome == [kind |-> "nothing", value |-> ""]
Error == [kind |-> "error", value |-> ""]
Shown(v) == [kind |-> "shown", value |-> v]
Missing == [kind |-> "missing", value |-> ""]
TruthOf(r) == IF r = "stored" THEN Shown(Truth) ELSE Missing

Start == /\ phase = "idle" /\ session < Sessions
         /\ session' = session + 1
         /\ request' \in Requests
         /\ auth' \in BOOLEAN
         /\ behaviour' \in {b \in [Srv -> Behaviours] : Cardinality({s \in Srv : b[s] # Honest}) <= MaxFaults}
         /\ phase' = "describing" /\ infos' = <<>> /\ agreed' = FALSE /\ inbox' = [s \in Srv |-> <<>>]
         /\ answers' = <<>> /\ outcome' = NoOutcome
         /\ UNCHANGED history
\* the descriptions are requested at the same time and arrive in any order
Describe(s) == /\ phase \in {"describing", "asking", "answering"} /\ s \notin ArrivedInfos
               /\ behaviour[s].desc # "none"
               /\ infos' = Append(infos, s)
               /\ UNCHANGED <<phase, session, request, behaviour, auth, agreed, inbox, answers, outcome, history>>
Finish(o) == /\ phase' = "idle" /\ outcome' = o
             /\ history' = Append(history, [request |-> request, behaviour |-> behaviour, auth |-> auth, outcome |-> o, inbox |-> inbox])
NoDescription(s) == /\ phase = "describing" /\ behaviour[s].desc = "none"
                    /\ Finish(Error)
                    /\ UNCHANGED <<session, request, behaviour, auth, infos, agreed, inbox, answers>>
Differs(s, t, what) == \/ behaviour[s].desc # behaviour[t].desc /\ {behaviour[s].desc, behaviour[t].desc} \cap what # {}
Looked == CASE Compare = "all" -> {<<s, t>> : s \in ArrivedInfos, t \in ArrivedInfos}
            [] Compare = "pairs" -> {<<infos[1], infos[2]>>}
            [] Compare = "shape" -> {<<s, t>> : s \in ArrivedInfos, t \in ArrivedInfos}
            [] Compare = "none" -> {}
Same == \A p \in Looked : ~Differs(p[1], p[2], IF Compare = "shape" THEN {"shape"} ELSE Fields)
DescriptionsIn == IF Wait = "all" THEN ArrivedInfos = Srv ELSE Len(infos) >= 1
CompareDescriptions == /\ phase = "describing" /\ DescriptionsIn
                       /\ IF Same THEN /\ phase' = "asking" /\ agreed' = TRUE /\ UNCHANGED <<outcome, history>>
                                  ELSE /\ Finish(Error) /\ UNCHANGED agreed
                       /\ UNCHANGED <<session, request, behaviour, auth, infos, inbox, answers>>
\* message j is made for position j
Recipient(j) == IF Dispatch = "position" THEN j ELSE infos[j]
Ask == /\ phase = "asking" /\ (Dispatch = "position" \/ Len(infos) = K)
       /\ inbox' = [s \in Srv |-> SelectSeq([j \in 1..K |-> j], LAMBDA j : Recipient(j) = s)]
       /\ phase' = "answering"
       /\ UNCHANGED <<session, request, behaviour, auth, infos, agreed, answers, outcome, history>>
Reply(s) == /\ phase = "answering" /\ s \notin ArrivedAnswers /\ behaviour[s].ans # "none"
            /\ answers' = Append(answers, s)
            /\ UNCHANGED <<phase, session, request, behaviour, auth, infos, agreed, inbox, outcome, history>>
NoReply(s) == /\ phase = "answering" /\ behaviour[s].ans = "none"
              /\ Finish(Error)
              /\ UNCHANGED <<session, request, behaviour, auth, infos, agreed, inbox, answers>>
\* what the combination of the answers is: genuine, detectably wrong, or wrong
Positions == \A s \in Srv : inbox[s] = <<s>>
Described == \A s, t \in Srv : ~Differs(s, t, Fields)
Combined == IF \E s \in Srv : behaviour[s].ans = "malformed" THEN "malformed"
            ELSE IF Positions /\ Described /\ \A s \in Srv : behaviour[s].ans = "honest" THEN "genuine" ELSE "altered"
Failed == CASE OnError = "stop" -> Error
            [] OnError = "missing" -> Missing
            [] OnError = "show" -> Shown(Wrong)
\* keys are looked up in the combination only if it is verified, or cannot be
Show == /\ phase = "answering" /\ ArrivedAnswers = Srv
        /\ \/ Combined = "genuine" /\ Finish(TruthOf(request))
           \/ Combined = "malformed" /\ Finish(Failed)
           \/ Combined = "altered" /\ auth /\ Finish(Failed)
           \/ Combined = "altered" /\ ~auth /\ \E o \in {Error, Missing, Shown(Wrong)} : Finish(o)
        /\ UNCHANGED <<session, request, behaviour, auth, infos, agreed, inbox, answers>>
Terminated == phase = "idle" /\ session = Sessions /\ UNCHANGED vars
Init == /\ phase = "idle" /\ session = 0 /\ request = "stored" /\ behaviour = [s \in Srv |-> Honest] /\ auth = TRUE
        /\ infos = <<>> /\ agreed = FALSE /\ inbox = [s \in Srv |-> <<>>] /\ answers = <<>> /\ outcome = NoOutcome /\ history = <<>>
Progress == CompareDescriptions \/ Ask \/ Show \/ \E s \in Srv : Describe(s) \/ NoDescription(s) \/ Reply(s) \/ NoReply(s)
Next == Start \/ Progress \/ Terminated
Spec == Init /\ [][Next]_vars /\ WF_vars(Progress)

\* a query reaches a server only if all servers have given one and the same description
QueryOnlyIfAgreed == (\E s \in Srv : inbox[s] # <<>>) => Described /\ \A s \in Srv : behaviour[s].desc # "none" /\ s \in ArrivedInfos
\* at most one message, the one for the position of the server
OwnMessage == \A s \in Srv : inbox[s] \in {<<>>, <<s>>}
\* for every finished request
Done(P(_)) == \A i \in DOMAIN history : P(history[i])
FaultsOf(h) == {s \in Srv : h.behaviour[s] # Honest}
\* nothing but the truth is shown or reported missing if answers can be verified
Verified == Done(LAMBDA h : h.auth => h.outcome \in {Error, TruthOf(h.request)})
\* a request that no server disturbs gives the truth, whatever came before
Works == Done(LAMBDA h : FaultsOf(h) = {} => h.outcome = TruthOf(h.request))
\* disturbances give errors
Noticed == Done(LAMBDA h : (\E s \in Srv : h.behaviour[s].desc # "same" \/ h.behaviour[s].ans \in {"malformed", "none"} \/ (h.auth /\ h.behaviour[s].ans = "tampered"))
                           => h.outcome = Error)
\* the outcome is a function of the request and the behaviours: no schedule matters
OutcomeOf(h) == IF \E s \in Srv : h.behaviour[s].desc # "same" \/ h.behaviour[s].ans \in {"malformed", "none"} THEN {Error}
                ELSE IF \A s \in Srv : h.behaviour[s].ans = "honest" THEN {TruthOf(h.request)}
                ELSE IF h.auth THEN {Error} ELSE {Error, Missing, Shown(Wrong)}
ScheduleFree == Done(LAMBDA h : h.outcome \in OutcomeOf(h))
\* every request ends
Ends == (phase = "describing") ~> (phase = "idle")

Scenarios == {[k |-> K, request |-> r, servers |-> [s \in Srv |-> <<b[s].desc, b[s].ans>>]] :
              r \in Requests, b \in {b \in [Srv -> Behaviours] : Cardinality({s \in Srv : b[s] # Honest}) <= MaxFaults}}
Export == "VERIF_SCEN" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.VERIF_SCEN, SetToSeq(Scenarios))
ASSUME Export
=============================================================================
