------------------------------- MODULE Merkle -------------------------------
(* The authentication tree of lib/merkle, over symbolic (collision free) hashes.

   The leaf of position i holding item d is L(d, i); missing leaves up to the
   next power of two are Z; an inner node is N(left, right). A proof for (d, i)
   is the list of the siblings on the path to the root.

   What is hashed for a node, left \o right, could also be what is hashed for a
   leaf whose data are the first bytes of it, Pre(n), and whose index is its last
   four bytes, LastBytes(n). These are random, outside of every tree, unless somebody
   has searched for an item ("ground") whose leaf ends with the index that is
   wanted - 2^32 hashes. Therefore leaves and nodes are hashed in two domains
   (Separated); without this the tree accepts what it must not.

   Model: for every list of items, an adversary presents any item with any
   index and any path over all the hashes it can know. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Items,      \* the possible items, tuples <<"item", ...>>
          MaxItems,   \* the longest list
          Separated   \* leaves and nodes are never hashed alike

RandomIndex == 1000000
RECURSIVE Depth(_)
Depth(n) == IF n <= 1 THEN 0 ELSE 1 + Depth((n + 1) \div 2)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

Z == <<"Z">>
N(a, b) == <<"N", a, b>>
Pre(n) == <<"pre", n>>
Ground == <<"item", "ground">>
LastBytes(n) == IF n[1] = "N" /\ n[3][1] = "L" /\ n[3][2] = Ground THEN 0 ELSE RandomIndex
L(d, i) == IF ~Separated /\ d[1] = "pre" /\ i = LastBytes(d[2]) THEN d[2] ELSE <<"L", d, i>>

\* the node number k of the given level (0: leaves) of the tree over the items
RECURSIVE Node(_, _, _)
Node(items, lv, k) ==
  IF lv = 0 THEN IF k < Len(items) THEN L(items[k+1], k) ELSE Z
  ELSE N(Node(items, lv-1, 2*k), Node(items, lv-1, 2*k+1))
Root(items) == Node(items, Depth(Len(items)), 0)
Sibling(k) == IF k % 2 = 0 THEN k + 1 ELSE k - 1
Path(items, i) ==
  [j \in 1..Depth(Len(items)) |-> Node(items, j-1, Sibling(i \div Pow2(j-1)))]
Nodes(items) ==
  LET D == Depth(Len(items)) IN
  UNION {{Node(items, lv, k) : k \in 0..(Pow2(D - lv) - 1)} : lv \in 0..D}

RECURSIVE Climb(_, _, _)
Climb(h, i, path) ==
  IF path = <<>> THEN h
  ELSE Climb(IF i % 2 = 0 THEN N(h, Head(path)) ELSE N(Head(path), h), i \div 2, SubSeq(path, 2, Len(path)))
\* what the verifier does: the index must belong to a tree of the depth of the path
Verify(d, i, path, root) ==
  /\ i < Pow2(Len(path))
  /\ Climb(L(d, i), i, path) = root

\* what it has to decide
Genuine(items, d, i, path) ==
  /\ i < Len(items)
  /\ items[i+1] = d
  /\ path = Path(items, i)

VARIABLES items, claim
vars == <<items, claim>>
NoClaim == <<>>

Lists == UNION {[1..n -> Items] : n \in 1..MaxItems}
Init == items \in Lists /\ claim = NoClaim
Claims ==
  LET ns == Nodes(items)
      ds == Items \cup {Pre(n) : n \in ns}
      D == Depth(Len(items))
  IN {<<d, i, p>> : d \in ds, i \in (0..Pow2(D)) \cup {RandomIndex}, p \in UNION {[1..m -> ns] : m \in 0..D}}
Present == claim = NoClaim /\ claim' \in Claims /\ UNCHANGED items
Next == Present
Spec == Init /\ [][Next]_vars

\* the verifier accepts exactly the genuine claims
Binding == claim # NoClaim =>
  (Verify(claim[1], claim[2], claim[3], Root(items)) <=> Genuine(items, claim[1], claim[2], claim[3]))
Complete == \A i \in 0..(Len(items)-1) : Verify(items[i+1], i, Path(items, i), Root(items))
\* different lists have different roots
RootsDiffer == claim = NoClaim => \A other \in Lists : Root(other) = Root(items) => other = items
=============================================================================
