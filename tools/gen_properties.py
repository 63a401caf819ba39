#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles and statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
        "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "Multi-server point retrieval returns exactly the requested record",
 "When all servers hold the same database and answer honestly, a client that asks for record i obtains exactly the content of record i (its stored bytes followed only by zero fill up to the block size; in the authenticated variant exactly the record's data), for every database shape, every record index, every number of servers (two or more) and every mix of record lengths including empty records. Successive queries of one client are independent of each other, and asking never changes the database.",
 ["inputs", "configurations", "histories"],
 "all row/column shapes (including column counts at and around multiples of 8 and 128), all indices, 2 to 5 servers, constant and per-record variable block lengths, plain and Merkle-authenticated databases, sequences of queries on one client",
 "The unit tests retrieve a handful of blocks from a few fixed shapes of random databases with equal-length blocks; off-by-one errors in share length, tree depth, row offsets or variable-length handling only show for particular shapes, indices and server counts.",
 ["lib/client/pir_point.go", "lib/client/client.go", "lib/server/point.go", "lib/database/bytes.go", "lib/database/merkle.go", "lib/utils/utils.go"],
 [("secret sharing of the selection vector / point-function keys", "lib/client/pir_point.go: Query, secretShare"),
  ("per-row XOR of the selected blocks using the per-block lengths", "lib/server/point.go: Answer, xorValues"),
  ("row selection and XOR of the answers", "lib/client/client.go: reconstructPIR, reconstructValuePIR")],
 [("client state", "row and column of the outstanding query", "lib/client/client.go: state"),
  ("database layout", "rows, columns, block size, block lengths, entries", "lib/database/db.go: Info, lib/database/bytes.go: Bytes")],
 ["client QueryBytes", "server AnswerBytes", "client ReconstructBytes"])

prop("C02", "A single server learns nothing about what is queried",
 "What one server receives for a query - or, with three or more servers in the point scheme, what any coalition of all but one server receives - has the same distribution whatever record index, search text or other predicate input of the same kind and length is queried, and it carries no information about the client's secret verification keys; every query uses fresh randomness. A multi-server query is refused, never sent, when fewer than two servers are used, and the two-server predicate scheme is refused for any other number of servers.",
 ["inputs", "configurations", "histories"],
 "all pairs of queried values, all proper coalitions of servers, all values of the client's random tape (enumerated exactly for small column counts, by linear algebra for larger ones, statistically where the randomness is not injectable), all schemes: XOR shares, point-function keys, predicate keys, DH and lattice queries",
 "Privacy is a statement about the distribution of messages over all random choices; the tests only check that retrieval works, which a query sent in the clear also satisfies.",
 ["lib/client/pir_point.go", "lib/client/client.go", "lib/client/fss.go", "lib/client/dh.go", "lib/client/lwe.go", "lib/client/lwe128.go", "lib/client/amplify.go", "lib/fss/client.go", "lib/fss/common.go", "lib/matrix/matrix.go", "lib/matrix/matrix128.go", "lib/utils/gauss.go", "lib/utils/rand.go"],
 [("XOR secret sharing with k-1 uniformly random shares", "lib/client/pir_point.go: secretShare"),
  ("function secret sharing keys masked by a pseudorandom pad", "lib/fss/client.go: GenerateTreePF, lib/fss/common.go: convertBlock"),
  ("random exponents hiding the DH query", "lib/client/dh.go: QueryBytes"),
  ("secret vector and Gaussian noise hiding the lattice query", "lib/client/lwe.go, lwe128.go: Query; lib/matrix: NewGauss"),
  ("refusal of unsafe server counts", "lib/client/client.go: invalidQueryInputsIT, invalidQueryInputsFSS")],
 [("random tape", "the randomness handed to the client", "lib/client: rnd")],
 ["bytes handed to each server by QueryBytes / Query"])

prop("C03", "Authenticated retrieval yields the true record or an error",
 "In the Merkle-authenticated point scheme, a client that holds the genuine database description obtains, for the record index it asked for, either exactly that record's data or an error - whatever bytes the dishonest servers return, as long as at least one server answers honestly, and even if all other servers collude and know the database. In particular it never accepts another genuine record, an inner node of the authentication tree, a truncated or re-encoded proof, or a record from a different database, and it never crashes instead of reporting the error.",
 ["inputs", "fault_sequences", "configurations"],
 "all record indices, all adversarial differences added to the honest reconstruction (other records, swapped or forged proofs, changed indices, depth and length fields, padding, truncated and oversized answers), 2 to 5 servers, all tree sizes including non powers of two and single-record databases",
 "No test feeds a tampered answer to the client at all; integrity quantifies over every possible answer of the dishonest servers.",
 ["lib/client/client.go", "lib/merkle/proof.go", "lib/merkle/merkletree.go", "lib/database/merkle.go", "lib/database/pgp.go"],
 [("proof check against the trusted root before data is returned", "lib/client/client.go: reconstructPIR"),
  ("proof decoding", "lib/merkle/proof.go: DecodeProof"),
  ("proof verification", "lib/merkle/proof.go: VerifyProof"),
  ("padding removal", "lib/database/pgp.go: UnPadBlock")],
 [("trusted description", "root and proof length known to the client", "lib/database/db.go: Merkle")],
 ["client ReconstructBytes with tampered answers"])

prop("C04", "Private counting and averaging queries give the exact answer",
 "With two honest servers holding the same key metadata, a count query returns exactly the number of keys whose metadata satisfies the predicate the query carries (e-mail starts with / ends with / equals a text, key algorithm, creation instant, or conjunction of creation year and e-mail suffix), and an average query returns the exact integer average age in years of the matching keys that do not lie in the future, or an error when there is none - in both the plain and the authenticated scheme. The answer depends only on the metadata and the predicate, not on the time zone in which a creation time is represented, on the randomness used, on how often the servers were used before, or on what other queries they are serving at the same time.",
 ["inputs", "histories", "schedules"],
 "all metadata tables (including e-mails shorter than the pattern, duplicate and empty e-mails, keys created in the future and in different time zones), all patterns and predicates, repeated and concurrent queries on the same servers",
 "The existing tests count over one random table per predicate with one planted match; they do not cover short or empty e-mails, zero matches in averages, zone-dependent times or concurrent use.",
 ["lib/client/fss.go", "lib/client/predicate_apir.go", "lib/client/predicate_pir.go", "lib/server/fss.go", "lib/server/predicate_apir.go", "lib/server/predicate_pir.go", "lib/query/query.go", "lib/fss/server.go", "lib/field/field.go", "lib/utils/encoding.go"],
 [("predicate to bit-string encoding shared by client and server", "lib/query/query.go: IdFor*"),
  ("per-key evaluation and summation in the field", "lib/server/fss.go: answer"),
  ("reconstruction and averaging", "lib/client/fss.go: reconstruct")],
 [("key metadata", "e-mail, creation time and algorithm per key", "lib/database/db.go: KeyInfo")],
 ["client QueryBytes / ReconstructBytes", "server AnswerBytes / Answer"])

prop("C05", "Tampered predicate answers are rejected",
 "In the authenticated predicate scheme, when one of the two servers returns anything other than its correct answer - changed values or tags, values scaled, negated, swapped or replayed from another query, a well-formed answer of a different kind or length, or an answer computed over altered key metadata - the client reports an error instead of a number (except with probability about 2^-120, and except for a response that reconstructs to the same, correct number). This holds for counts and for averages.",
 ["inputs", "fault_sequences"],
 "all deviations of either server's answer vector (each coordinate, all pairs, structured and random deviations, wrong lengths), counts and averages, including zero counts",
 "No existing test tampers with predicate answers; the guarantee is about every possible deviation.",
 ["lib/client/fss.go", "lib/client/predicate_apir.go", "lib/server/fss.go", "lib/field/field.go", "lib/fss/client.go"],
 [("four independent secret keys and tag checks", "lib/client/fss.go: query, reconstruct")],
 [("secret keys", "alphas sampled per query", "lib/client/client.go: state")],
 ["client ReconstructBytes with tampered answers"])

prop("C06", "Single-server DH retrieval is exact and rejects tampering",
 "In the discrete-logarithm single-server scheme a client retrieves exactly the stored bit at every position of every database, including databases with all-zero or all-one rows and with few rows, when the server is honest; and for any answer other than the honest one the client reports an error or the true bit, never the wrong bit. The client refuses a database description whose row digests do not match the global digest, and a malformed answer is an error, not a crash.",
 ["inputs", "configurations", "fault_sequences"],
 "all bit matrices and shapes (vector and square layouts), all positions, all answer deviations: elements replaced, swapped, negated, replayed, computed over altered databases, wrong lengths and invalid encodings",
 "The test retrieves bits from one random square database; all-zero rows do not occur there, and no answer is tampered with.",
 ["lib/client/dh.go", "lib/server/dh.go", "lib/database/elliptic.go"],
 [("digest commitment check", "lib/client/dh.go: NewDH"),
  ("per-row check that the unblinded answer is the identity or the blinded generator", "lib/client/dh.go: ReconstructBytes"),
  ("row products", "lib/server/dh.go: processRows"), ("row digests", "lib/database/elliptic.go: computeDigests")],
 [("row digests", "one group element per row", "lib/database/db.go: Auth")],
 ["client QueryBytes / ReconstructBytes", "server AnswerBytes"])

prop("C07", "Lattice-based retrieval is exact with an honest server",
 "With an honest server, the 32-bit and 128-bit lattice schemes and the amplified scheme return exactly the stored bit at every position of every binary database of any rectangular shape that the parameters describe, on every query of a client, and the digest published with a database is the one its contents determine. The answer does not depend on which process, run or instance computed the digest and the query.",
 ["inputs", "configurations", "histories"],
 "all shapes (square and rectangular, one row, one column), all positions, all-zero / all-one / random contents, repeated queries with one client, all repetition counts of the amplified scheme",
 "The tests check random positions of a single large square database per scheme.",
 ["lib/client/lwe.go", "lib/client/lwe128.go", "lib/client/amplify.go", "lib/server/lwe.go", "lib/server/lwe128.go", "lib/server/amplify.go", "lib/database/lwe.go", "lib/database/lwe128.go", "lib/matrix/matrix.go", "lib/matrix/matrix128.go", "lib/matrix/matrixBytes.go", "lib/matrix/matrix.c", "lib/utils/lwe.go", "lib/utils/gauss.go"],
 [("query = secret*A + noise + t*e_row", "lib/client/lwe.go: Query"),
  ("answer = query * DB", "lib/server/lwe.go: Answer, lib/matrix: BinaryMul"),
  ("subtraction of secret*digest and range test", "lib/client/lwe.go: Reconstruct")],
 [("digest", "A*DB", "lib/database/db.go: Auth")],
 ["client QueryBytes / ReconstructBytes", "server AnswerBytes"])

prop("C08", "Tampered lattice answers are rejected",
 "In the lattice schemes, an answer in which any column deviates from the honest value by more than the noise bound leads to an error rather than to a bit, whichever column deviates and whichever position was queried; a deviation the client cannot see never flips the returned bit. This includes servers answering over a different database than the published digest describes, and in the amplified scheme any repetition being so altered.",
 ["inputs", "fault_sequences", "configurations"],
 "all columns, all positions, deviations of every magnitude around the acceptance bound and over the whole modulus, altered databases, all repetitions of the amplified scheme, 32- and 128-bit moduli",
 "No existing test tampers with an answer; whether a non-queried column is checked at all is invisible with honest servers.",
 ["lib/client/lwe.go", "lib/client/lwe128.go", "lib/client/amplify.go", "lib/utils/lwe.go"],
 [("range check of every column around 0 and t", "lib/client/lwe.go, lwe128.go: Reconstruct, inRange"),
  ("rejection of the whole amplified answer if one repetition is rejected", "lib/client/amplify.go: Reconstruct"),
  ("noise bound", "lib/utils/lwe.go: computeB")],
 [("secret t", "random value the server would need to flip a bit", "lib/client/lwe.go: StateLWE")],
 ["client ReconstructBytes with tampered answers"])

prop("C09", "Repetition decoding returns the majority symbol or an error",
 "Decoding a received word returns a symbol exactly when that symbol occurs in more than half of the positions, wherever the disagreeing positions are, and an error otherwise; encoding a value and corrupting at most t of its 2t+1 positions therefore always decodes to the value, and the decoder never changes the received word.",
 ["inputs"],
 "all words over small alphabets up to length 9 exhaustively, all t, all corruption patterns of weight at most t, plus empty words",
 "There is no unit test of the code; the amplification test only decodes unanimous words.",
 ["lib/ecc/ecc.go", "lib/client/amplify.go"],
 [("majority vote and verification count", "lib/ecc/ecc.go: Decode"), ("repetition", "lib/ecc/ecc.go: Encode")],
 [], ["ECC Encode / Decode"])

prop("C10", "Membership proofs are complete and bind value and position",
 "For every non-empty list of data items - of any length, any item sizes, with duplicate and empty items - the authentication tree yields for every item a proof that verifies against the root, of the announced encoded length, and that survives encoding and decoding. A proof verifies only together with the item, position and tree it was made for: changing the item, the position, any hash in the path, their order or number, or the root makes verification fail, and two different lists have different roots.",
 ["inputs", "configurations"],
 "all list lengths from 1 to several hundred including powers of two and neighbours, lists with duplicates, single-field mutations of every proof, cross products of items and proofs",
 "The tests verify proofs for random distinct items only, without a single negative case.",
 ["lib/merkle/merkletree.go", "lib/merkle/proof.go", "lib/merkle/hash.go", "lib/database/merkle.go"],
 [("tree construction with position-bound leaves", "lib/merkle/merkletree.go: NewUsing"),
  ("path extraction", "lib/merkle/merkletree.go: GenerateProof"),
  ("path recomputation", "lib/merkle/proof.go: generateProofHash")],
 [("nodes", "binary heap of hashes", "lib/merkle/merkletree.go: MerkleTree")],
 ["merkle New / GenerateProof / VerifyProof / EncodeProof / DecodeProof"])

prop("C11", "The key directory is identical everywhere and serves every key",
 "Servers that load the same set of parsed keys build the same directory (same shape, contents, authentication root and key metadata table), independently of the process, of the order of the key files and of the order of the keys inside them. In the plain and the authenticated directory of any size, looking up the e-mail of any stored key through the retrieval protocol returns exactly that key, and looking up an e-mail that is not stored, also one that falls into an empty bucket, is reported as not found.",
 ["inputs", "configurations", "histories"],
 "all key sets (few and many keys, colliding and empty buckets), file splittings and orders, plain and authenticated layouts, vector and square layouts, present and absent e-mails",
 "The only tests of the directory need the real key-server dump and are skipped without it; they look up keys present in the dump only.",
 ["lib/database/pgp.go", "lib/database/db.go", "lib/database/merkle.go", "lib/pgp/pgp.go", "lib/utils/utils.go"],
 [("sorting before hashing into buckets", "lib/database/pgp.go: sortById, makeHashTable"),
  ("bucket index", "lib/database/db.go: HashToIndex"),
  ("block padding", "lib/database/pgp.go: PadWithSignalByte, UnPadBlock"),
  ("key search in a bucket", "lib/pgp/pgp.go: RecoverKeyFromBlock")],
 [("hash table", "bucket -> concatenated keys", "lib/database/pgp.go: makeHashTable")],
 ["GenerateRealKeyDB / GenerateRealKeyBytes / GenerateRealKeyMerkle", "lookup through client and servers"])

prop("C12", "Key ingestion keeps exactly the newest usable key per e-mail",
 "Parsing key dumps keeps, for each e-mail address, exactly one key: the most recently created one among the non-revoked keys whose (lower-cased) primary e-mail it is, regardless of the order of keys and dump files, with subkeys removed; revoked keys and keys without e-mail are dropped. Writing the result, splitting it into chunks and loading the chunks back yields exactly the kept keys that serialize to at most 8 KiB, each under its e-mail, with nothing lost, duplicated or altered; a damaged key file is reported as an error.",
 ["inputs", "histories", "configurations"],
 "all multisets of keys over few e-mails with distinct creation times, revoked / e-mail-less / oversized keys, all dump file orders, sizes around the size limit, chunk boundaries, truncated files",
 "Only the e-mail regular expression has a test; ingestion has none.",
 ["lib/pgp/pgp.go", "data/main.go"],
 [("selection of the freshest key", "lib/pgp/pgp.go: saveKeyIfValid"),
  ("size limit and serialisation", "lib/pgp/pgp.go: WriteKeysOnDisk"),
  ("chunking", "data/main.go: splitFullDumpIntoChunks"), ("loading", "lib/pgp/pgp.go: LoadKeysFromDisk")],
 [("key map", "e-mail -> entity", "lib/pgp/pgp.go: AnalyzeKeyDump")],
 ["AnalyzeKeyDump, WriteKeysOnDisk, LoadKeysFromDisk, data command"])

prop("C13", "The key server gives every request its own correct answer",
 "Under every interleaving of concurrent clients, the key server answers each accepted query with the answer computed for that very query over its database, never with another request's answer, at most once, and without letting an invalid, cancelled or abandoned request disturb the others or stop the service. On a stop signal it finishes the requests it has accepted, then terminates cleanly; and when it is configured as one of exactly two servers it speaks the two-server variant the clients use.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "all interleavings of up to a bounded number of concurrent requests with queue overflow, cancellation, deadline, malformed queries and shutdown at any point; two- and three-server configurations; plain, authenticated and predicate schemes",
 "There are no tests of the server program; interleavings, cancellation and shutdown cannot be sampled by unit tests.",
 ["cmd/grpc/server/main.go", "lib/server/point.go", "lib/server/fss.go", "lib/fss/common.go", "lib/proto/vpir.proto"],
 [("single worker fed through a bounded queue, reply channel per request", "cmd/grpc/server/main.go: Query, startWorker"),
  ("shutdown sequence", "cmd/grpc/server/main.go: main, stopWorker")],
 [("queue", "accepted, not yet answered requests", "cmd/grpc/server/main.go: queryChan")],
 ["gRPC responses of a running server process", "process exit status"])

prop("C14", "Clients only trust servers that describe the same database",
 "The command-line client, the experiment client and the client library behind the web and interactive front ends use a database description only if all configured servers report the same one in every field that retrieval or verification depends on (shape, block size, scheme, authentication root, proof length); otherwise they stop with an error before sending any query. Each server receives the query intended for it by its position in the configuration, and the result does not depend on the order in which servers are contacted or answer, or on delays.",
 ["schedules", "configurations", "fault_sequences"],
 "all assignments of (possibly differing) descriptions to 2 to 4 servers in every field, all answer arrival orders and delays, all schemes",
 "No test runs the clients; with equal honest servers and lucky ordering all of this is invisible.",
 ["cmd/grpc/client/main.go", "cmd/grpc/client/manager/mod.go", "lib/utils/config.go", "simulations/multi/client/client.go"],
 [("equality check of descriptions", "cmd/grpc/client/main.go: equalDBInfo; manager: GetDBInfos"),
  ("query dispatch and answer collection", "cmd/grpc/client/main.go: runQueries; manager: RunQueries, GetKey"),
  ("server order from the configuration file", "lib/utils/config.go: LoadConfig")],
 [("connections", "one per configured server, in order", "cmd/grpc/client/main.go: localClient")],
 ["queries received by each (instrumented) server", "client output and exit status"])

prop("C15", "Front ends show a result only when it was verified",
 "The command-line client, the web front end and the interactive front end present a key or a number only if retrieval and verification succeeded and the request was a valid one; when the servers' answers are tampered with, inconsistent or erroneous the user gets an error (an error status, a non-zero exit or an error message) and no result value. A key that is shown belongs to the e-mail that was requested and a missing key is reported as missing.",
 ["inputs", "fault_sequences", "configurations"],
 "all schemes and request kinds, all failure points (description, answer, verification, key lookup), tampering by any one server, requests with missing or invalid parameters",
 "The front ends have no tests; error paths that print or return both an error and a value are not exercised.",
 ["cmd/grpc/client/main.go", "cmd/grpc/client/web/mod.go", "cmd/grpc/client/interactive/mod.go", "cmd/grpc/client/manager/mod.go", "lib/pgp/pgp.go"],
 [("error propagation from reconstruction to the user", "cmd/grpc/client/main.go: exec, main; cmd/grpc/client/web/mod.go: handlers"),
  ("check of the retrieved key against the requested e-mail", "lib/pgp/pgp.go: RecoverKeyFromBlock")],
 [], ["process output and exit status", "HTTP status and body"])

prop("C16", "Messages and stored values survive encoding and decoding",
 "Every value the system encodes for transport or storage is recovered exactly by the matching decoder, for every size and content: matrices and batches of matrices, membership proofs, lists of group elements (including the identity), integer lists, field elements, queries, padded blocks, and the configuration's server list. Encoded sizes are exactly what the announced lengths say, encoding is deterministic, and encoders do not modify their input.",
 ["inputs"],
 "all matrix dimensions (non-square, single row or column) and word values including extremes, all list lengths, blocks whose content ends in padding-like bytes, group elements including the identity, configurations with any number of servers in any order",
 "Tests round-trip only random square matrices and random proofs.",
 ["lib/matrix/matrix.go", "lib/matrix/matrix128.go", "lib/merkle/proof.go", "lib/database/elliptic.go", "lib/database/pgp.go", "lib/utils/encoding.go", "lib/utils/config.go", "lib/field/field.go", "lib/query/query.go"],
 [("matrix codecs", "lib/matrix: MatrixToBytes/BytesToMatrix, MatricesToBytes/BytesToMatrices, 128-bit variants"),
  ("proof codec", "lib/merkle/proof.go: EncodeProof/DecodeProof"),
  ("group element codec", "lib/database/elliptic.go: MarshalGroupElements/UnmarshalGroupElements"),
  ("block padding", "lib/database/pgp.go: PadBlock, PadWithSignalByte, UnPadBlock")],
 [], ["encoder/decoder return values"])

prop("C17", "Malformed messages produce errors, not crashes",
 "A client given answers of the wrong number, length or structure, and a server given a query of the wrong length or structure - truncated, extended, empty, inconsistent length or dimension fields, undecodable - returns an error and stays usable: it does not crash, does not read or write outside the message, and does not return a value as if the message had been well formed. This covers the multi-server point scheme, the predicate schemes, the DH scheme and the lattice schemes.",
 ["inputs", "fault_sequences"],
 "all schemes, both directions, all truncations and extensions of valid messages, all corruptions of length and dimension fields, wrong number of answers, arbitrary bytes",
 "The tests only exchange well-formed messages.",
 ["lib/client/client.go", "lib/client/fss.go", "lib/client/dh.go", "lib/client/lwe.go", "lib/client/lwe128.go", "lib/client/amplify.go", "lib/server/point.go", "lib/server/fss.go", "lib/server/dh.go", "lib/server/lwe.go", "lib/server/lwe128.go", "lib/server/amplify.go", "lib/matrix/matrix.go", "lib/matrix/matrix128.go", "lib/fss/server.go"],
 [("validation of decoded messages before use", "lib/server: AnswerBytes; lib/client: ReconstructBytes")],
 [], ["return values of AnswerBytes / ReconstructBytes"])

prop("C18", "Shared point functions add up to the point and nothing else",
 "For every target bit string and every output vector, the two generated keys evaluated by the two servers at any input of the same length add up to the output vector (modulo the field prime) exactly when the input equals the target, and to zero otherwise; evaluation is deterministic, gives canonical sums, and does not depend on previous or concurrent evaluations. Field arithmetic helpers return canonical elements for all inputs.",
 ["inputs", "histories", "schedules"],
 "all domain sizes from 1 bit, the whole input domain for small sizes and all near-misses (single bit flips, prefixes shared) for large ones, output vectors of every length from 1 upward including the values 0 and p-1, concurrent evaluations with one evaluator",
 "The tests sample random inputs of 64 bits, for which a wrong non-zero value at a near-miss is practically never hit.",
 ["lib/fss/client.go", "lib/fss/server.go", "lib/fss/common.go", "lib/field/field.go"],
 [("tree key generation and evaluation with correction words", "lib/fss/client.go: GenerateTreePF; lib/fss/server.go: EvaluatePF"),
  ("conversion of the last seed to field elements", "lib/fss/common.go: convertBlock")],
 [("keys", "seed, control bit, correction words, final correction", "lib/fss/common.go: FssKeyEq2P")],
 ["GenerateTreePF / EvaluatePF return values"])

prop("C19", "The networked experiment retrieves from one database and reports what it sent",
 "Experiment servers, started as separate processes, at different times and again after a stop, with the same scheme, size and layout, hold the same database: they describe the shape that their flags ask for, a block retrieved through any two to five of them (by any number of concurrent clients, before and after a restart of some of them) is always the same one and verifies in the Merkle scheme, and counts over their keys are always the same and add up to the number of keys. In each repetition the experiment client retrieves as many consecutive, existing blocks as are needed to hold the wanted number of data bits - up to the whole database - sends every server its own query, and reports the number of bytes of its queries; the servers report the size of each answer. It ends with an error, without a report for that repetition, when descriptions differ or are missing, when more is wanted than there is, or when an answer is missing, malformed or does not verify. A server that is told to stop, by a signal or over HTTP and however often, answers the queries it works on and terminates with status 0. The single-process experiments complete with one entry per repetition that holds the sizes of the real messages and digest.",
 ["inputs", "histories", "schedules", "configurations", "fault_sequences"],
 "all schemes, database sizes, block lengths and layouts, numbers of servers, orders of starting, restarts, concurrent clients, amounts to retrieve from one bit to the whole database, deviations of one server at any query, ways and moments of stopping",
 "The experiment programs have no tests at all, and no test has two processes.",
 ["simulations/multi/server/server.go", "simulations/multi/client/client.go", "simulations/simul.go", "simulations/preprocessing.go", "lib/database/bytes.go", "lib/database/merkle.go", "lib/database/db.go", "lib/utils/rand.go", "lib/utils/utils.go"],
 [("databases from a fixed random stream", "lib/database: CreateRandomBytes, CreateRandomMerkle, CreateRandomKeysDB"),
  ("choice of the blocks, queries, reports", "simulations/multi/client/client.go: retrievePointPIR, retrieveComplexPIR, runQueries"),
  ("service and shutdown", "simulations/multi/server/server.go: main")],
 [("database", "blocks by index, keys", "simulations/multi/server/server.go: dbBytes, dbFSS")],
 ["gRPC responses of the running servers", "messages, log and exit status of the client program", "exit status of the servers", "result files"])

prop("C20", "Front ends talk only to authenticated servers, over encrypted channels",
 "Whoever owns the network between a front end (the command-line, interactive and web clients, the manager package, the experiment client) and its servers: the front end opens channels only to parties that prove, at every connection, that they hold the key of one of the certificates it is shipped with, valid at that time and for the name it expects, and it sends no description request and no query to any other - not to a party with a certificate of its own, of an authority the system trusts, copied without the key, or placed before a shipped one, and not without encryption. If the party at one of the addresses is such an impostor from the start, no server gets a query; if it takes the place of a server later - between the description and the query, or between requests - the request ends with an error, and requests are answered again when the server is back. What is altered, lost, repeated, reordered, injected or cut on the way leads to an error or the right result, never to another one, and what passes is encrypted. The server programs prove one of the shipped certificates, answer nobody who does not encrypt, and remain usable whatever else is sent to them.",
 ["inputs", "histories", "schedules", "fault_sequences", "configurations"],
 "all front ends and schemes, impostors of every kind at any of the servers and from any moment, any alteration of any part of the traffic in either direction, unencrypted and unfinished connections to the servers",
 "There are no tests with connections at all; an attacker on the network cannot be sampled by unit tests.",
 ["lib/utils/tls.go", "cmd/grpc/client/main.go", "cmd/grpc/client/manager/mod.go", "simulations/multi/client/client.go", "cmd/grpc/server/main.go", "simulations/multi/server/server.go"],
 [("shipped certificates and how they are checked", "lib/utils/tls.go: ServerPublicKeys, LoadServersCertificates"),
  ("connections of the front ends", "cmd/grpc/client/main.go: connectToServers; cmd/grpc/client/manager/mod.go: Connect; simulations/multi/client/client.go: connectToServer"),
  ("connections of the servers", "cmd/grpc/server/main.go, simulations/multi/server/server.go: main")],
 [("channel", "TLS connection per server", "grpc.ClientConn of the front ends")],
 ["bytes on the network", "gRPC requests received by servers and impostors", "what the front ends show"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
