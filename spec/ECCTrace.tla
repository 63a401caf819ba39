------------------------------ MODULE ECCTrace ------------------------------
(* Recorded calls of the real encoder and decoder, explained by ECC. *)
EXTENDS TraceLib
CONSTANTS Symbols, MaxT, MaxLen
VARIABLE l
E == INSTANCE ECC WITH phase <- 0, sent <- 0, t <- 0, word <- 0, received <- 0, pos <- 0, cand <- 0, votes <- 0, out <- 0

EncodeOk(e) == /\ e.out = "ok"
               /\ e.word = E!Encode(e.val, e.t)
DecodeOk(e) ==
  /\ e.after = e.word                      \* the decoder does not change the word
  /\ LET d == E!Decode(e.word) IN
     IF d = E!None THEN e.out = "err" ELSE e.out = "ok" /\ e.val = d
  \* the word of a sender with at most t errors
  /\ Has(e, "sent") /\ E!Errors(e.word, e.sent) <= e.t => e.out = "ok" /\ e.val = e.sent

\* long words, as runs of equal symbols
RECURSIVE Sum(_, _, _)
Sum(rs, s, i) == IF i > Len(rs) THEN 0 ELSE (IF rs[i][1] = s THEN rs[i][2] ELSE 0) + Sum(rs, s, i + 1)
RunDecode(rs, n) == IF \E i \in DOMAIN rs : 2 * Sum(rs, rs[i][1], 1) > n
                    THEN rs[CHOOSE i \in DOMAIN rs : 2 * Sum(rs, rs[i][1], 1) > n][1]
                    ELSE E!None
LongEncodeOk(e) == e.out = "ok" /\ e.len = 2 * e.t + 1 /\ Len(e.runs) = 1 /\ e.runs[1][1] = e.val
LongDecodeOk(e) ==
  /\ e.after = e.runs
  /\ LET d == RunDecode(e.runs, e.len) IN
     IF d = E!None THEN e.out = "err" ELSE e.out = "ok" /\ e.val = d
  /\ Has(e, "sent") /\ e.len - Sum(e.runs, e.sent, 1) <= e.t => e.out = "ok" /\ e.val = e.sent

Ok(e) == CASE e.ev = "begin" -> TRUE
           [] e.ev = "encode" -> EncodeOk(e)
           [] e.ev = "decode" -> DecodeOk(e)
           [] e.ev = "longencode" -> LongEncodeOk(e)
           [] e.ev = "longdecode" -> LongDecodeOk(e)
           [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ Explained(Ok(Trace[l]), l)
        /\ Finished(l)
Spec == Init /\ [][Next]_l
=============================================================================
