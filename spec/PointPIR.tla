------------------------------ MODULE PointPIR ------------------------------
(* The multi-server point scheme of lib/client/pir_point.go and
   lib/server/point.go: a database of rows x cols blocks of different lengths,
   a client which shares the unit vector of the wanted column between k servers
   (additive shares in GF(2); the two-server point-function keys are an encoding
   of such a pair of shares), servers which answer, for each row, the XOR of
   the blocks selected by their share, and a client that XORs the answers and
   takes the wanted row.

   The blocks are sequences of bits here (the XOR is bitwise); an answer block
   has the length of the longest block. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxRows, MaxCols, MaxBlock, MaxServers

Bit == {0, 1}
BlocksOf(n) == UNION {[1..m -> Bit] : m \in 0..n}
Zero(n) == [i \in 1..n |-> 0]
\* zero fill up to the block size
Pad(b, n) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE 0]
Xor(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % 2]
RECURSIVE XorAll(_, _)
XorAll(s, n) == IF s = <<>> THEN Zero(n) ELSE Xor(Head(s), XorAll(Tail(s), n))

Block(db, r, c) == db.blocks[r * db.cols + c + 1]
BlockSize(db) == CHOOSE n \in 0..MaxBlock :
                   /\ \A i \in DOMAIN db.blocks : Len(db.blocks[i]) <= n
                   /\ \E i \in DOMAIN db.blocks : Len(db.blocks[i]) = n
Row(i, db) == i \div db.cols
Col(i, db) == i % db.cols
\* what a client has to obtain for index i
Content(db, i) == Pad(db.blocks[i+1], BlockSize(db))

Unit(c, n) == [j \in 1..n |-> IF j = c + 1 THEN 1 ELSE 0]
Answer(db, share) ==
  [r \in 1..db.rows |->
     XorAll([c \in 1..db.cols |-> IF share[c] = 1 THEN Pad(Block(db, r-1, c-1), BlockSize(db))
                                  ELSE Zero(BlockSize(db))], BlockSize(db))]

Databases == UNION {[rows : {r}, cols : {c}, blocks : [1..(r*c) -> BlocksOf(MaxBlock)]]
                      : r \in 1..MaxRows, c \in 1..MaxCols}

VARIABLES db, db0, phase, k, index, shares, answers, result
vars == <<db, db0, phase, k, index, shares, answers, result>>
None == <<>>            \* no answer yet: an answer has at least one row
NoResult == <<-1>>

Init == /\ db \in Databases /\ db0 = db
        /\ phase = "idle" /\ k = 0 /\ index = 0 /\ shares = <<>> /\ answers = <<>> /\ result = NoResult

Query == \E n \in 2..MaxServers, i \in 0..(db.rows * db.cols - 1) :
         \E random \in [1..(n-1) -> [1..db.cols -> Bit]] :
         /\ phase = "idle"
         /\ phase' = "asked" /\ k' = n /\ index' = i
         /\ shares' = Append(random, Xor(XorAll(random, db.cols), Unit(Col(i, db), db.cols)))
         /\ answers' = [s \in 1..n |-> None]
         /\ UNCHANGED <<db, db0, result>>
\* the servers answer in any order
Serve == \E s \in 1..k :
         /\ phase = "asked" /\ answers[s] = None
         /\ answers' = [answers EXCEPT ![s] = Answer(db, shares[s])]
         /\ UNCHANGED <<db, db0, phase, k, index, shares, result>>
Reconstruct ==
         /\ phase = "asked" /\ \A s \in 1..k : answers[s] # None
         /\ phase' = "done"
         /\ result' = XorAll([s \in 1..k |-> answers[s][Row(index, db) + 1]], BlockSize(db))
         /\ UNCHANGED <<db, db0, k, index, shares, answers>>
Again == /\ phase = "done" /\ phase' = "idle" /\ k' = 0 /\ index' = 0
         /\ shares' = <<>> /\ answers' = <<>> /\ result' = NoResult
         /\ UNCHANGED <<db, db0>>
Next == Query \/ Serve \/ Reconstruct \/ Again
Spec == Init /\ [][Next]_vars

Correct == phase = "done" => result = Content(db, index)
Untouched == db = db0
\* shares are a sharing of the unit vector
Sharing == phase = "asked" => XorAll(shares, db.cols) = Unit(Col(index, db), db.cols)
=============================================================================
