------------------------------ MODULE FSSTrace ------------------------------
(* Recorded key generations and evaluations of lib/fss and calls of lib/field. *)
EXTENDS TraceLib, FieldP
VARIABLES l, keys    \* the lines of the generated keys of this trace, by number
vars == <<l, keys>>

Key(k) == Trace[keys[k]]
GenOk(e) == e.out = "ok" /\ e.k = Len(keys) + 1

PointFunction(key, x, j) == IF x = key.a THEN key.b[j] ELSE 0
EvalOk(e) ==
  LET key == Key(e.k) IN
  /\ e.out = "ok"
  /\ Len(e.v0) = Len(key.b) /\ Len(e.v1) = Len(key.b)
  /\ \A j \in DOMAIN e.v0 :
       /\ Small(e.v0[j]) /\ Small(e.v1[j])
       /\ AddP(Residue(e.v0[j]), Residue(e.v1[j])) = PointFunction(key, e.x, j)
\* the same evaluation again, with the same or another evaluator
AgainOk(e) == e.out = "ok" /\ e.same
\* helpers of the field
NegateOk(e) == /\ e.out = "ok" /\ Len(e.res) = Len(e.in)
               /\ \A j \in DOMAIN e.in : WordIsCanonical(e.res[j]) /\ Residue(e.res[j]) = NegP(Residue(e.in[j]))
ElementsOk(e) == e.out = "ok" /\ Len(e.res) = e.n /\ e.same /\ \A j \in DOMAIN e.res : WordIsCanonical(e.res[j])

Ok(e) == CASE e.ev = "begin" -> TRUE
           [] e.ev = "gen" -> GenOk(e)
           [] e.ev = "eval" -> EvalOk(e)
           [] e.ev = "again" -> AgainOk(e)
           [] e.ev = "negate" -> NegateOk(e)
           [] e.ev = "elements" -> ElementsOk(e)
           [] OTHER -> FALSE
Init == l = 1 /\ keys = <<>>
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ keys' = IF e.ev = "begin" THEN <<>> ELSE IF e.ev = "gen" THEN Append(keys, l) ELSE keys
           /\ Explained(Ok(e), l)
           /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
