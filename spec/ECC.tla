--------------------------------- MODULE ECC ---------------------------------
(* The repetition code of lib/ecc, used by the amplified scheme to survive
   selective failures: a symbol is sent 2t+1 times, a channel corrupts some
   positions, and the receiver takes the symbol which has the majority, or
   reports an error.

   The decoder is specified declaratively (Decode) and, as in the
   implementation, as a one-pass vote (candidate, votes) followed by a count;
   the invariants say that both agree and that the code corrects t errors. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Symbols, MaxT, MaxLen

None == "none"

Occurrences(w, s) == Cardinality({i \in DOMAIN w : w[i] = s})
Majority(w, s) == 2 * Occurrences(w, s) > Len(w)
\* the declarative decoder
Decode(w) == IF \E i \in DOMAIN w : Majority(w, w[i])
             THEN w[CHOOSE i \in DOMAIN w : Majority(w, w[i])]
             ELSE None
Encode(s, t) == [i \in 1..(2*t+1) |-> s]
Errors(w, s) == Cardinality({i \in DOMAIN w : w[i] # s})

VARIABLES phase,      \* "idle", "channel", "vote", "done"
          sent,       \* the encoded symbol, or None when the word is arbitrary
          t,
          word, received,
          pos, cand, votes,
          out
vars == <<phase, sent, t, word, received, pos, cand, votes, out>>

Init == /\ phase = "idle" /\ sent = None /\ t = 0 /\ word = <<>> /\ received = <<>>
        /\ pos = 0 /\ cand = None /\ votes = 0 /\ out = None

\* the sender encodes a symbol
Send == \E s \in Symbols, tt \in 0..MaxT :
        /\ phase = "idle"
        /\ phase' = "channel" /\ sent' = s /\ t' = tt /\ word' = Encode(s, tt)
        /\ UNCHANGED <<received, pos, cand, votes, out>>
\* the channel corrupts one position
Corrupt == \E i \in DOMAIN word, s \in Symbols :
        /\ phase = "channel" /\ word[i] = sent /\ s # sent
        /\ word' = [word EXCEPT ![i] = s]
        /\ UNCHANGED <<phase, sent, t, received, pos, cand, votes, out>>
\* a word that no sender has produced (any length, also even or empty)
Arbitrary == \E n \in 0..MaxLen : \E w \in [1..n -> Symbols] :
        /\ phase = "idle"
        /\ phase' = "channel" /\ word' = w
        /\ UNCHANGED <<sent, t, received, pos, cand, votes, out>>
Receive == /\ phase = "channel" /\ phase' = "vote" /\ received' = word /\ pos' = 1
           /\ UNCHANGED <<sent, t, word, cand, votes, out>>
\* the one-pass majority vote
Vote == /\ phase = "vote" /\ pos <= Len(word)
        /\ cand' = IF votes = 0 THEN word[pos] ELSE cand
        /\ votes' = IF word[pos] = cand' THEN votes + 1 ELSE votes - 1
        /\ pos' = pos + 1
        /\ UNCHANGED <<phase, sent, t, word, received, out>>
Count == /\ phase = "vote" /\ pos > Len(word)
         /\ phase' = "done"
         /\ out' = IF Len(word) > 0 /\ Majority(word, cand) THEN cand ELSE None
         /\ UNCHANGED <<sent, t, word, received, pos, cand, votes>>
Next == Send \/ Corrupt \/ Arbitrary \/ Receive \/ Vote \/ Count
Spec == Init /\ [][Next]_vars

\* the vote finds the majority symbol exactly when there is one
VoteIsMajority == phase = "done" => out = Decode(word)
\* t errors are corrected
Corrects == phase = "done" /\ sent # None /\ Errors(word, sent) <= t => out = sent
\* and more than t equal errors never yield the sent symbol
NoWrongConfidence == phase = "done" /\ out # None => Majority(word, out)
Unchanged == phase \in {"vote", "done"} => word = received
=============================================================================
