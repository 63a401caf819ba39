---------------------------- MODULE MerkleTrace ----------------------------
(* Recorded trees, proofs and verifications of lib/merkle. Hashes, items and
   roots are numbers: equal numbers stand for equal bytes. Merkle!Binding says
   which claims a tree accepts: exactly the genuine ones. *)
EXTENDS TraceLib
VARIABLES l, trees       \* the lines of the trees of this trace
vars == <<l, trees>>

Tree(i) == Trace[trees[i]]
N(t) == Len(t.items)

\* the proof of one position: made, of the announced length, the same after
\* encoding and decoding, and verified
ProofOk(t, p) ==
  /\ p.out = "ok" /\ p.verified
  /\ p.index \in 0..(N(t)-1) /\ t.items[p.index+1] = t.items[p.pos+1]
  /\ (p.by = "position" => p.index = p.pos)
  /\ p.enclen = t.prooflen
  /\ p.decindex = p.index /\ p.decpath = p.path
  /\ p.unchanged

TreeOk(e) ==
  /\ e.out = "ok"
  /\ \A k \in DOMAIN e.proofs : ProofOk(e, e.proofs[k])
  \* the same root exactly for the same list
  /\ \A i \in DOMAIN trees : (Tree(i).root = e.root) <=> (Tree(i).items = e.items)

Genuine(e) ==
  LET t == Tree(e.tree) IN
  /\ e.index \in 0..(N(t)-1)
  /\ e.root = t.root
  /\ e.item = t.items[e.index+1]
  /\ \E k \in DOMAIN t.proofs : t.proofs[k].index = e.index /\ t.proofs[k].path = e.path
ClaimOk(e) == IF Genuine(e) THEN e.out = "ok" /\ e.verified
              ELSE e.out \in {"ok", "err"} /\ ~e.verified

\* the empty list has no tree, an unknown item or position no proof
EmptyOk(e) == e.out = "err"
AbsentOk(e) == e.out = "err"

Ok(e) == CASE e.ev = "begin" -> TRUE
           [] e.ev = "tree" -> TreeOk(e)
           [] e.ev = "claim" -> ClaimOk(e)
           [] e.ev = "empty" -> EmptyOk(e)
           [] e.ev = "absent" -> AbsentOk(e)
           [] OTHER -> FALSE

Init == l = 1 /\ trees = <<>>
Next == /\ l <= TraceLen
        /\ l' = l + 1
        /\ trees' = IF Trace[l].ev = "begin" THEN <<>>
                    ELSE IF Trace[l].ev = "tree" THEN Append(trees, l) ELSE trees
        /\ Explained(Ok(Trace[l]), l)
        /\ Finished(l)
Spec == Init /\ [][Next]_vars
=============================================================================
