------------------------------- MODULE Codec -------------------------------
(* The encodings of lib/matrix, lib/merkle/proof, lib/database (blocks, group
   elements) and lib/utils as functions on sequences of digits (bytes when
   Base = 256). A decoder is a partial function: None for what no encoder
   produces. The decoders read the digits through At, which is undefined
   outside of the message: TLC reports it, so a decoder which reads outside is
   found. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Base,   \* digits are 0..Base-1
          W,      \* digits of a number in a header
          Lim     \* numbers above are as good as infinite (no message is that long)

None == <<>>                 \* a decoder gives <<value>> or None
Some(v) == <<v>>
At(b, i) == b[i]
Part(b, i, n) == [j \in 1..n |-> At(b, i + j - 1)]       \* n digits from position i

RECURSIVE Num(_, _)
Num(n, w) == IF w = 0 THEN <<>> ELSE Append(Num(n \div Base, w - 1), n % Base)
RECURSIVE ValUp(_, _)
\* the number of the digits, at most Lim
ValUp(b, acc) == IF b = <<>> THEN acc
                 ELSE LET x == acc * Base + Head(b) IN ValUp(Tail(b), IF x > Lim THEN Lim ELSE x)
Val(b) == ValUp(b, 0)
Reverse(b) == [i \in DOMAIN b |-> b[Len(b) - i + 1]]
\* whether a x c = n, without large products
Product(a, c, n) == IF a = 0 \/ c = 0 THEN n = 0 ELSE a <= n /\ c <= n /\ a * c = n

(* matrices: rows, columns, elements of e digits *)
EncMat(m) == Num(m.rows, W) \o Num(m.cols, W) \o m.data
MatShape(b, e) ==
  IF Len(b) < 2 * W \/ (Len(b) - 2 * W) % e # 0 THEN None
  ELSE LET r == Val(Part(b, 1, W))  c == Val(Part(b, W + 1, W))
       IN IF Product(r, c, (Len(b) - 2 * W) \div e) THEN Some(<<r, c>>) ELSE None
DecMat(b, e) == LET s == MatShape(b, e) IN
  IF s = None THEN None ELSE Some([rows |-> s[1][1], cols |-> s[1][2], data |-> Part(b, 2 * W + 1, Len(b) - 2 * W)])
MatLen(r, c, e) == 2 * W + r * c * e

(* batches of matrices of the same dimensions: their length, then all of them *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
EncBatch(ms) == Num(Len(EncMat(ms[1])), W) \o Flat([i \in DOMAIN ms |-> EncMat(ms[i])])
DecBatch(b, e) ==
  IF Len(b) < W THEN None
  ELSE LET n == Val(Part(b, 1, W)) IN
       IF n < 2 * W \/ n > Len(b) - W \/ (Len(b) - W) % n # 0 THEN None
       ELSE LET ms == [i \in 1..((Len(b) - W) \div n) |-> DecMat(Part(b, W + (i - 1) * n + 1, n), e)] IN
            IF (\E i \in DOMAIN ms : ms[i] = None) THEN None
            ELSE IF ms = <<>> THEN None
            ELSE IF (\E i \in DOMAIN ms : ms[i][1].rows # ms[1][1].rows \/ ms[i][1].cols # ms[1][1].cols) THEN None
            ELSE Some([i \in DOMAIN ms |-> ms[i][1]])

(* proofs: number of hashes, hashes of h digits, index (least significant digit first) *)
EncProof(p, h) == Reverse(Num(Len(p.hashes), W)) \o Flat(p.hashes) \o Reverse(Num(p.index, W))
DecProof(b, h) ==
  IF Len(b) < 2 * W \/ (Len(b) - 2 * W) % h # 0 THEN None
  ELSE LET n == Val(Reverse(Part(b, 1, W))) IN
       IF n # (Len(b) - 2 * W) \div h THEN None
       ELSE Some([hashes |-> [i \in 1..n |-> Part(b, W + (i - 1) * h + 1, h)], index |-> Val(Reverse(Part(b, Len(b) - W + 1, W)))])
ProofLen(n, h) == 2 * W + n * h

(* lists of elements of e digits: group elements, integers, field elements *)
DecList(b, e) == IF Len(b) % e # 0 THEN None ELSE Some([i \in 1..(Len(b) \div e) |-> Part(b, (i - 1) * e + 1, e)])

(* blocks: a signal digit and zeros *)
CONSTANT Signal
Zeros(n) == [i \in 1..n |-> 0]
Pad(b, n) == b \o <<Signal>> \o Zeros(n)
RECURSIVE Trim(_)
Trim(b) == IF b # <<>> /\ b[Len(b)] = 0 THEN Trim(SubSeq(b, 1, Len(b) - 1)) ELSE b
Unpad(b) == LET t == Trim(b) IN
  IF t = <<>> THEN None ELSE IF t[Len(t)] # Signal THEN None ELSE Some(SubSeq(t, 1, Len(t) - 1))
=============================================================================
