------------------------------ MODULE MCCodec ------------------------------
(* A sender encodes a value, the channel may replace the message by any other,
   the receiver decodes. Checked for all small values and all messages up to
   MaxLen digits. *)
EXTENDS Codec, TLC
CONSTANTS E, H, MaxCells, MaxBatch, MaxLen
VARIABLES phase, kind, value, wire, result
vars == <<phase, kind, value, wire, result>>
Digits == 0..(Base-1)
Strings(n) == UNION {[1..k -> Digits] : k \in 0..n}
Dims == {d \in (0..MaxCells) \X (0..MaxCells) : d[1] * d[2] <= MaxCells}
Mats(d) == {[rows |-> d[1], cols |-> d[2], data |-> x] : x \in [1..(d[1] * d[2] * E) -> Digits]}
Matrices == UNION {Mats(d) : d \in Dims}
Batches == UNION {UNION {[1..n -> Mats(d)] : d \in {x \in Dims : x[1] * x[2] * n <= MaxCells + 1}} : n \in 1..MaxBatch}
Proofs == UNION {{[hashes |-> hs, index |-> i] : hs \in [1..n -> [1..H -> Digits]], i \in {0, 1, 3}} : n \in 0..3}
Kinds == {"matrix", "batch", "proof", "list", "block"}
Values(k) == CASE k = "matrix" -> Matrices
               [] k = "batch" -> Batches
               [] k = "proof" -> Proofs
               [] k = "list" -> UNION {[1..n -> [1..E -> Digits]] : n \in 0..4}
               [] k = "block" -> Strings(5)
Encode(k, v) == CASE k = "matrix" -> EncMat(v)
                  [] k = "batch" -> EncBatch(v)
                  [] k = "proof" -> EncProof(v, H)
                  [] k = "list" -> Flat(v)
                  [] k = "block" -> Pad(v, 2)
Decode(k, b) == CASE k = "matrix" -> DecMat(b, E)
                  [] k = "batch" -> DecBatch(b, E)
                  [] k = "proof" -> DecProof(b, H)
                  [] k = "list" -> DecList(b, E)
                  [] k = "block" -> Unpad(b)
Size(k, v) == CASE k = "matrix" -> MatLen(v.rows, v.cols, E)
                [] k = "batch" -> W + Len(v) * MatLen(v[1].rows, v[1].cols, E)
                [] k = "proof" -> ProofLen(Len(v.hashes), H)
                [] k = "list" -> E * Len(v)
                [] k = "block" -> Len(v) + 3
Init == kind \in Kinds /\ phase = "start" /\ value = None /\ wire = <<>> /\ result = None
Send == /\ phase = "start" /\ phase' = "sent" /\ \E v \in Values(kind) : value' = Some(v) /\ wire' = Encode(kind, v)
        /\ UNCHANGED <<kind, result>>
\* the message is not from an encoder
Forge == /\ phase = "start" /\ phase' = "sent" /\ wire' \in Strings(MaxLen) /\ UNCHANGED <<kind, value, result>>
Receive == /\ phase = "sent" /\ phase' = "received" /\ result' = Decode(kind, wire) /\ UNCHANGED <<kind, value, wire>>
Next == Send \/ Forge \/ Receive
Spec == Init /\ [][Next]_vars

Done == phase = "received"
RoundTrip == Done /\ value # None => result = value
SizeAnnounced == value # None => Len(wire) = Size(kind, value[1])
\* what is decoded is what would have been encoded so: no two messages mean the same
Canonical == Done /\ value = None /\ result # None /\ kind # "block" => Encode(kind, result[1]) = wire
CanonicalBlock == Done /\ kind = "block" /\ result # None =>
    Len(wire) > Len(result[1]) /\ wire = Pad(result[1], Len(wire) - Len(result[1]) - 1)
=============================================================================
