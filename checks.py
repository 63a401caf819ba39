"""What decides each property: the models TLC explores, the drivers that run
the real code, and the trace specifications that judge what they recorded."""

CHECKS = {}

CHECKS["C09"] = dict(
    models=[dict(module="ECC", cfg="ECC.cfg")],
    drivers=[dict(cmd="c09", trace="ECCTrace")],
    level="model_checking",
    technique="TLA+ specification of the repetition code checked with TLC; recorded runs of the real codec validated against it",
    note="TLC proves the one-pass vote equals the declarative majority decoder for all words up to the bound; the real decoder is run on all words over 3-symbol alphabets up to length 8 (9 thorough), on borderline words of larger lengths (up to 70000 positions) and on corrupted code words, and every recorded call must be a step of the specification. Larger alphabets and lengths are sampled.",
    assumptions=["the decoder treats symbols only by equality, so two three-symbol alphabets stand for all of them"],
)

CHECKS["C10"] = dict(
    models=[dict(module="MCMerkle", cfg="Merkle.cfg"), dict(module="MCMerkle", cfg="Merkle_made.cfg"),
            dict(module="MCMerkle", cfg="Merkle_alike.cfg", refuted="RootsDiffer is violated"),
            dict(module="MCMerkle", cfg="Merkle_node.cfg", refuted="Binding is violated")],
    drivers=[dict(cmd="c10", trace="MerkleTrace")],
    level="model_checking",
    technique="TLA+ model of the Merkle tree with an adversary over symbolic hashes, checked with TLC; recorded trees, proofs and verifications of the real code validated against it",
    note="TLC: for all lists of up to 4 items every claim (item, index, path over all known hashes, inner nodes presented as leaves) is accepted exactly when genuine, also for lists that somebody has made for the purpose, where hashing leaves and nodes alike is refuted. Implementation: trees of 1 to 200 (1000 thorough) items with duplicates and empty items, and of up to 65637 at chosen indices; every proof and thousands of mutated claims (with items that 2^32 trials have found, whose leaves end with a chosen index) must be decided as the specification decides them. Assumes BLAKE3 is collision resistant.",
    assumptions=["BLAKE3 behaves as a collision-free hash", "equal 32-byte values are treated as equal symbols"],
)

CHECKS["C01"] = dict(
    models=[dict(module="PointPIR", cfg="PointPIR.cfg"), dict(module="PointPIR", cfg="PointPIR3.cfg", tier="thorough")],
    drivers=[dict(cmd="c01", trace="PointTrace")],
    level="model_checking",
    technique="TLA+ specification of point retrieval checked with TLC for all small databases, shares and orders; recorded retrievals of the real client and servers validated against it",
    note="TLC: all databases up to 2x2 (1x3 thorough), all shares, all orders of answering, 2-3 servers. Implementation: column counts around multiples of 8 and 128 (to 257, 2049 thorough, and 256 to 70001 at chosen indices), 1-5 rows, 2-5 servers, equal and per-record lengths including empty records and records of up to 70000 bytes, plain and Merkle, two interleaved clients per session; every retrieved value must be the content the specification gives for the last query of that client.",
    assumptions=["shapes between the sampled ones behave as their neighbours"],
)

CHECKS["C03"] = dict(
    models=[dict(module="AuthPIR", cfg="AuthPIR.cfg", scenarios="forgeries3.ndjson"),
            dict(module="AuthPIR", cfg="AuthPIR1.cfg", scenarios="forgeries1.ndjson"),
            dict(module="AuthPIR", cfg="AuthPIR5.cfg", scenarios="forgeries5.ndjson", tier="thorough"),
            dict(module="MCMerkle", cfg="Merkle.cfg"), dict(module="MCMerkle", cfg="Merkle_made.cfg")],
    drivers=[dict(cmd="c03", trace="PointTrace")],
    level="model_checking",
    technique="TLA+ model of authenticated retrieval against colluding servers (TLC), whose forged blocks are replayed into the real client; the recorded outcomes are validated against the specification",
    note="TLC explores every block that differs from a genuine one in at most two of the five fields (data, count, path, index, padding) for every queried record, and exports them; each is presented to the real client by XORing the difference into an answer. Byte-level tampering (bits, splices, lengths, numbers, replays, other databases) is added, also with 66000 records. Accepts only an error or exactly the requested record. Assumes BLAKE3 is collision resistant.",
    assumptions=["BLAKE3 behaves as a collision-free hash", "blocks further than two fields from any genuine block are covered by the byte-level part only by sampling"],
)

CHECKS["C18"] = dict(
    models=[dict(module="FSS", cfg="FSS.cfg"), dict(module="FSS", cfg="FSS3.cfg", tier="thorough"), dict(module="FSS", cfg="FSSq3.cfg", tier="thorough")],
    drivers=[dict(cmd="c18", trace="FSSTrace")],
    level="model_checking",
    technique="TLA+ specification of the point-function tree checked with TLC for all generators over a small domain; recorded key generations and evaluations validated against it",
    note="TLC: the construction is correct for every pseudorandom generator and conversion over one-bit seeds, all targets, values and inputs of 1-2 (3 thorough) bits, GF(3). Implementation: all inputs for 1-7 (10 thorough) bits, all single-bit neighbours for sizes up to 512 bits, output vectors of length 1-40 with 0, 1 and p-1, concurrent evaluations; sums computed by TLC modulo 2^31-1.",
    assumptions=["sizes between the sampled ones behave as their neighbours"],
)

CHECKS["C04"] = dict(
    models=[dict(module="MCFssCount", cfg="FssCount0.cfg"), dict(module="MCFssCount", cfg="FssCount.cfg", tier="thorough")],
    drivers=[dict(cmd="c04", trace="FssCountTrace")],
    level="model_checking",
    technique="TLA+ specification of private counting and averaging checked with TLC; answers of the real client and servers over generated tables validated against the specification's own count",
    note="TLC: all tables up to 3 keys, all predicates over a small alphabet. Implementation: tables of 0-150 (1000 thorough), 1025, 4099 and 66000 keys with short, empty, duplicate and non-ASCII e-mails, future keys, times in other zones; all predicate kinds, both schemes, repeated and concurrent queries; the expected number is computed by TLC from the recorded table.",
    assumptions=["the calendar year does not change during the run (checked)"],
)

CHECKS["C05"] = dict(
    models=[dict(module="MCFssCount", cfg="FssCount.cfg"), dict(module="MCFssCount", cfg="FssCount5.cfg", tier="thorough"),
            dict(module="MCFssCount", cfg="FssCount2.cfg", tier="thorough")],
    drivers=[dict(cmd="c05", trace="FssCountTrace")],
    level="model_checking",
    technique="TLA+ specification of authenticated counting with a deviating server checked with TLC; recorded outcomes of tampered answers validated against it",
    note="TLC: over small fields every deviation of either server is accepted with a wrong value only if it is a multiple of the secret tag vector (probability Q^-tags). Implementation: every coordinate and pair, scalings, swaps, replays, other kinds and lengths, altered metadata, and deviations that satisfy all tags but one (the harness computes the secrets from both keys), and the secrets of many queries must be independent (no relation between two of them repeats, every bit varies, also when the randomness begins with the same bytes); each answer must end in an error or the correct number.",
    assumptions=["an honest run accepts a random wrong answer with probability 2^-120"],
)

_FRONTS = {"vclient": ("cmd/grpc/client", ["certs.go"]), "vweb": ("cmd/grpc/client/web", ["certs.go", "webcfg.go"]),
           "vinter": ("cmd/grpc/client/interactive", ["certs.go", "webcfg.go"]), "vmgr": ("cmd/verifmgr", ["mgr.go", "certs.go"])}
CHECKS["C02"] = dict(
    models=[dict(module="QueryPrivacy", cfg="QueryPrivacy.cfg"), dict(module="QueryPrivacy", cfg="QueryPrivacy3.cfg", tier="thorough"),
            dict(module="QueryPrivacy", cfg="QueryPrivacyKey2.cfg", tier="thorough", workers=8)],
    drivers=[dict(cmd="c02", trace="QueryPrivacyTrace"), dict(cmd="c02front", trace="QueryPrivacyTrace")],
    programs=dict(_FRONTS, vsim=("simulations/multi/client", ["certs.go"])),
    level="model_checking",
    technique="TLA+ specification of what servers see, privacy as equality of tape counts checked with TLC; the tape-to-view maps and distributions measured on the real clients validated against it",
    note="TLC: for every proper coalition of up to 3 (4 thorough) servers, every index and view, and for one server's point-function key, the number of tapes is the same. Implementation: all 2^16 tapes for 3 servers and up to 7 columns, the affine space of the views (exact) for larger ones; for keys made with the system's randomness, bit frequencies and combinations of key, own evaluations and final words compared across inputs and secrets (7 standard errors); DH and lattice queries compared for equal tapes; uncorrelated noise of lattice queries; freshness of all randomness, also when it begins with the same 12 bytes, and from readers that deliver it in pieces; sources of randomness that fail before they have delivered enough, with which no query may be sent; secrets of the clients of one process and of several processes; the queries of the command-line, web, interactive and simulation front ends, also for the same request repeated and for many at once; refusals.",
    assumptions=["AES in the Matyas-Meyer-Oseas mode is a pseudorandom generator, DDH, LWE", "leaks in the operating-system-randomised keys which no measured bit or combination shows are not detected"],
)

CHECKS["C06"] = dict(
    models=[dict(module="MCDHPir", cfg="DHPir.cfg", scenarios="dh.ndjson"), dict(module="MCDHPir", cfg="DHPir2.cfg"),
            dict(module="MCDHPir", cfg="DHPir3.cfg")],
    drivers=[dict(cmd="c06", trace="DHTrace")],
    level="model_checking",
    technique="TLA+ model of the discrete-logarithm scheme against an algebraic adversary (TLC), whose answers are replayed into the real client; recorded sessions validated against the specification",
    note="TLC: all databases up to 2x2 and 1x3, all positions, all answers that combine the elements of the query with coefficients -1..2 and one foreign element, in one or all rows: only the honest answer is accepted. Implementation: the same answers for every 2x2 database and position; databases from 1 to 130 bits (random, all zero, all one; vector, square and other shapes) read at every position, three groups; replaced, combined, replayed, bit-flipped and malformed answers; descriptions whose digests do not match.",
    assumptions=["discrete logarithms and DDH are hard in the groups", "shapes between the sampled ones behave as their neighbours"],
)

_LWE = [dict(module="LWEPir", cfg="LWEPirQ.cfg"), dict(module="LWEPir", cfg="LWEPir_small.cfg", refuted="Correct is violated"), dict(module="LWEPir", cfg="LWEPir1.cfg"), dict(module="LWEPir", cfg="LWEPir.cfg", tier="thorough", workers=8)]
CHECKS["C07"] = dict(
    models=_LWE, drivers=[dict(cmd="c07", trace="LWETrace")],
    level="model_checking",
    technique="TLA+ model of the lattice scheme with noise and bounds checked with TLC; recorded retrievals and digests of the real code validated against it",
    note="TLC: modulo 32 and 64, all databases, noises, positions and values of t; a client that uses every t is refuted. Implementation: 32-bit, 128-bit and amplified schemes, shapes from 1x1 to 60x40, 3000x1 and 1x1500 (500x500 thorough), all zero, all one and random, every position of the small ones, several queries per client; tapes that offer the client scalars around the noise bound; digests compared with those of another process, of the matrix built by hand and of the sum of its entries.",
    assumptions=["the 128-bit scheme may fail when the random t is within the noise bound of 0 (probability 2^-100)"],
)
CHECKS["C08"] = dict(
    models=_LWE, drivers=[dict(cmd="c08", trace="LWETrace")],
    level="model_checking",
    technique="TLA+ model of the lattice scheme with a deviating server checked with TLC; recorded outcomes of altered answers, and the measured windows of tolerated deviations, validated against it",
    note="TLC: modulo 32 and 64, every deviation of every column for all noises and values of t. Implementation: for every column the exact interval of accepted deviations is measured and must have at most 2B values around the noise; deviations over the whole modulus, of all the columns, negated, rotated, replayed, answers over altered databases, one repetition altered, t hit in any number of up to 25 repetitions.",
    assumptions=["the server does not know t; coincidences with it are measured before they are excused"],
)

CHECKS["C16"] = dict(
    models=[dict(module="MCCodec", cfg="MCCodec.cfg"), dict(module="MCCodec", cfg="MCCodec3.cfg")],
    drivers=[dict(cmd="c16", trace="CodecTrace")],
    level="model_checking",
    technique="TLA+ specification of the message formats checked with TLC over all small values and all short messages; recorded encodings and decodings of the real code validated against it",
    note="TLC: encoders and decoders of matrices, batches, proofs, lists and blocks with two- and three-symbol digits: every value is recovered, every message of up to 13 digits decodes to at most one value and never reads outside. Implementation: matrices and 128-bit matrices from 0x0 to 2^18 rows or columns with extreme words, batches of 1-65536, proofs of trees and arbitrary ones, lists of group elements of four groups with identities, integers, field elements, bits, blocks of every length to 40 that end like paddings, queries, configurations of 0-23 servers in any order; also all at once concurrently.",
    assumptions=["sizes between the sampled ones behave as their neighbours"],
)

CHECKS["C17"] = dict(
    models=[dict(module="Malformed", cfg="Malformed1.cfg", scenarios="headers.ndjson"), dict(module="Malformed", cfg="Malformed.cfg", tier="thorough", workers=8),
            dict(module="MCCodec", cfg="MCCodec.cfg")],
    drivers=[dict(cmd="c17", trace="MessagesTrace")],
    level="model_checking",
    technique="TLA+ specification of which byte strings are queries and answers, checked with TLC over a channel that replaces messages; reactions of the real clients and servers to such messages validated against it",
    note="TLC: a client and a server of the matrix schemes with a channel that replaces up to one (two thorough) messages by any header with data of any length: they never read outside, return nothing for malformed messages and stay usable. Implementation: all schemes (point with 2-4 servers, predicate, DH in three groups, 32- and 128-bit lattice, amplified), both directions: truncations, extensions, the header and length fields of the specification, structures of predicate queries, undecodable elements, wrong numbers of answers, random bytes; each message is given in two different surroundings, and undisturbed exchanges are made in between.",
    assumptions=["messages of other lengths and structures than the generated ones are treated alike"],
)

CHECKS["C11"] = dict(
    models=[dict(module="Directory", cfg="Directory.cfg"), dict(module="Directory", cfg="Directory4.cfg", tier="thorough")],
    drivers=[dict(cmd="c11", trace="DirectoryTrace")],
    level="model_checking",
    technique="TLA+ specification of the directory built by several servers checked with TLC; directories built by the real code from reordered files, and lookups in them, validated against it",
    note="TLC: all sets of up to 3 (4 thorough) keys, all hash functions to 2 buckets, all orders of reading on 2 servers. Implementation: real OpenPGP keys, 1-250 (3000 thorough) of them, with empty, first-only, last-only and colliding buckets, packets ending like paddings, keys of almost 8 KiB and buckets above 64 KiB; files split and reordered, rebuilt in other processes; five layouts; every key (a sample of the large sets) and absent e-mails in empty and full buckets looked up with 2 and 3 servers.",
    assumptions=["numbers of keys between the sampled ones behave as their neighbours"],
)

CHECKS["C12"] = dict(
    models=[dict(module="Ingestion", cfg="Ingestion.cfg"), dict(module="Ingestion", cfg="Ingestion4.cfg", tier="thorough")],
    drivers=[dict(cmd="c12", trace="IngestionTrace")],
    programs={"data": ("data", [])},
    level="model_checking",
    technique="TLA+ specification of the ingestion (parse, keep, write, split, load) checked with TLC; recorded ingestions of generated OpenPGP dumps by the library and the data command validated against it",
    note="TLC: all sets of 3 keys over 3 e-mails (4 over 2 thorough) with all combinations of revocation and size, all orders of parsing, writing and loading. Implementation: dumps of 1-80 (400 thorough) OpenPGP keys with several user ids, flags, upper-case e-mails, subkeys, revocations, creation times from 1970 to 2105, packets of 8191-8193 bytes; orders, splittings, repeated keys; the kept keys are computed by TLC from the description of the dump. Chunks of more than 100 MB, files cut at every byte, zeroed parts, altered keys.",
    assumptions=["keys of one e-mail have different creation times", "unreadable keys in original dumps are skipped by the OpenPGP library by design"],
)

CHECKS["C13"] = dict(
    models=[dict(module="KeyServer", cfg="KeyServer.cfg"), dict(module="KeyServer", cfg="KeyServer4.cfg", tier="thorough"),
            dict(module="KeyServer", cfg="KeyServer_dropbegun.cfg"),
            dict(module="KeyServer", cfg="KeyServer_stalled.cfg", refuted="Temporal property Terminates was violated"),
            dict(module="KeyServer", cfg="KeyServer_unbufferedreply.cfg", refuted="Temporal properties .*violated"),
            dict(module="KeyServer", cfg="KeyServer_sharedreply.cfg", refuted="OwnAnswer is violated"),
            dict(module="KeyServer", cfg="KeyServer_closefirst.cfg", refuted="NoCrash is violated")],
    drivers=[dict(cmd="c13", trace="KeyServerTrace")],
    programs={"vserver": ("cmd/grpc/server", [])},
    level="model_checking",
    technique="TLA+ specification of the server's handlers, queue, worker and shutdown checked with TLC (safety and liveness); recorded request histories of the running server program validated against it",
    note="TLC: 3 (4 thorough) requests with queue of 1 (2), one malformed, cancellation and stop at any point, liveness under weak fairness; three defective designs are refuted. Implementation: the real server processes with 2 and 3 (5 thorough) servers, all four schemes, with and without -experiment/-cores: storms of 60-150 concurrent requests with malformed, cancelled and expired ones, queries that hardly differ, more than the queue holds; every answer must be the one of that query; stop signals idle and with 40 requests that the server has provably accepted; exit status 0.",
    assumptions=["interleavings inside the server are those that the load produces", "the answer of a query is what the server library gives for it alone (checked by C01-C05)"],
)
CHECKS["C11"]["models"].append(dict(module="Directory", cfg="Directory_unsorted.cfg", refuted="Identical is violated"))

_FRONT_REFUTED = [dict(module="FrontEnd", cfg="FrontEnd_pairs.cfg", refuted="QueryOnlyIfAgreed is violated"),
                  dict(module="FrontEnd", cfg="FrontEnd_shape.cfg", refuted="QueryOnlyIfAgreed is violated"),
                  dict(module="FrontEnd", cfg="FrontEnd_eager.cfg", refuted="QueryOnlyIfAgreed is violated"),
                  dict(module="FrontEnd", cfg="FrontEnd_arrival.cfg", refuted="OwnMessage is violated")]
CHECKS["C14"] = dict(
    models=[dict(module="FrontEnd", cfg="FrontEnd.cfg", scenarios="front3.ndjson"), dict(module="FrontEnd", cfg="FrontEnd2.cfg", scenarios="front2.ndjson"),
            dict(module="FrontEnd", cfg="FrontEnd4.cfg", tier="thorough", workers=8)] + _FRONT_REFUTED,
    drivers=[dict(cmd="c14", trace="FrontEndTrace")],
    programs=dict(_FRONTS, vsim=("simulations/multi/client", ["certs.go"])),
    level="model_checking",
    technique="TLA+ specification of the front ends' rounds with misbehaving servers checked with TLC (safety and termination); the messages that adversarial servers receive from the real front ends validated against it",
    note="TLC: 2 servers with two consecutive requests and 3 (4 thorough) servers, up to all but one of them misbehaving in every combination, all orders of arrival; four defective designs are refuted. Implementation: the real command-line, interactive (through a terminal), web and simulation clients and the manager package against servers that the driver controls: every combination of the specification, each field of the description at every proper subset of 2-4 servers, missing descriptions, orders and delays of descriptions and answers, 11 s (65 s thorough) late ones, servers that start late or stay away, configuration files in any order; servers record what they receive, including whether a query is the one for their position.",
    assumptions=["delays are as long as 11 s (65 s thorough)"],
)
CHECKS["C15"] = dict(
    models=[dict(module="FrontEnd", cfg="FrontEnd.cfg"), dict(module="FrontEnd", cfg="FrontEnd2.cfg"),
            dict(module="FrontEnd", cfg="FrontEnd4.cfg", tier="thorough", workers=8),
            dict(module="FrontEnd", cfg="FrontEnd_show.cfg", refuted="Noticed is violated"),
            dict(module="FrontEnd", cfg="FrontEnd_missing.cfg", refuted="Noticed is violated")],
    drivers=[dict(cmd="c15", trace="FrontEndTrace")],
    programs=_FRONTS,
    level="model_checking",
    technique="TLA+ specification of the front ends' rounds with misbehaving servers checked with TLC; what the real front ends show for requests that adversarial servers disturb validated against it",
    note="TLC: as for C14, for the outcomes; two defective designs are refuted. Implementation: the command-line, interactive (through a terminal) and web clients and the manager, all schemes, 2-3 servers: every way of answering wrongly (altered, malformed, erroneous, absent) by each server and by several, in between undisturbed requests on the same process; stored, absent and similar e-mails; all predicates and flags; missing and invalid parameters; unreachable and restarted servers; servers of another scheme; up to 20 concurrent web requests. The truth is computed by TLC from the recorded keys.",
    assumptions=["ways of altering an answer between the sampled ones are treated alike"],
)
CHECKS["C19"] = dict(
    models=[dict(module="Experiment", cfg="Experiment.cfg"), dict(module="Experiment", cfg="Experiment3.cfg"),
            dict(module="Experiment", cfg="Experiment4.cfg", tier="thorough", workers=8),
            dict(module="Experiment", cfg="Experiment_own.cfg", refuted="Exact is violated"),
            dict(module="Experiment", cfg="Experiment_last.cfg", refuted="NoCrash is violated"),
            dict(module="Experiment", cfg="Experiment_any.cfg", refuted="NoCrash is violated"),
            dict(module="Experiment", cfg="Experiment_stored.cfg", refuted="Covers is violated")],
    drivers=[dict(cmd="c19", trace="ExperimentTrace")],
    programs={"vxserver": ("simulations/multi/server", []), "vsim": ("simulations/multi/client", ["certs.go"]), "vsimul": ("simulations", [])},
    level="model_checking",
    technique="TLA+ specification of the networked experiment checked with TLC (safety and termination); recorded retrievals from the real experiment servers and recorded runs of the real experiment client validated against it",
    note="TLC: 2-3 servers that start in any order and again, all databases of 2x2 and 1x3 blocks, all shares, a server that deviates; four defective designs are refuted. Implementation: the real server processes (2-5 of them), vector and matrix layouts, plain and Merkle, both predicate schemes over the 100000 keys: descriptions as the flags imply, every block (a sample of large databases) retrieved by concurrent clients and, after a restart of a server, again; counts over partitions of the keys; all ways of stopping, with queries under way. The real client through proxies that see its queries: numbers, positions, sizes and reports of the retrievals; other descriptions, altered and missing answers. The single-process experiments over small databases.",
    assumptions=["databases larger than 4 MB behave as smaller ones", "that a server works on a query when the stop arrives is known from its log; otherwise it may be turned away"],
)
CHECKS["C20"] = dict(
    models=[dict(module="Channel", cfg="Channel.cfg"), dict(module="Channel", cfg="Channel3.cfg", tier="thorough", workers=8),
            dict(module="Channel", cfg="Channel_any.cfg", refuted="Secret is violated"),
            dict(module="Channel", cfg="Channel_unproved.cfg", refuted="Secret is violated"),
            dict(module="Channel", cfg="Channel_fallback.cfg", refuted="Secret is violated"),
            dict(module="Channel", cfg="Channel_once.cfg", refuted="Secret is violated"),
            dict(module="Channel", cfg="Channel_weak.cfg", refuted="RightOrError is violated"),
            dict(module="Channel", cfg="Channel_replay.cfg", refuted="RightOrError is violated")],
    drivers=[dict(cmd="c20", trace="ChannelTrace")],
    programs=dict(_FRONTS, vsim=("simulations/multi/client", ["certs.go"]), vserver=("cmd/grpc/server", []), vxserver=("simulations/multi/server", [])),
    level="model_checking",
    technique="TLA+ specification of the channels between front ends and servers with an attacker on the network checked with TLC (safety and termination); recorded requests of the real front ends over links of an attacker, and what the real servers prove and refuse, validated against it",
    note="TLC: 2 (3 thorough) links, two requests of one front end, an attacker who puts himself at the ends of links in any combination at any time, and alters, replays, injects and cuts, twice; six defective designs are refuted. Implementation: the command-line, interactive, web and experiment clients and the manager, with links that lead to the servers or to impostors with their service: eight kinds (own, look-alike, chained, system-trusted, expired and other-named certificates, shipped ones without the key, no encryption), from the start, between the description and the query and between requests; eleven ways of altering any of the first nine records in either direction; what passes has to be TLS records. The real server programs: which certificate they prove, and clients that do not encrypt or stop in the handshake.",
    assumptions=["TLS keeps what it seals secret (the library's), so records on the wire stand for encrypted contents", "any server may present any of the shipped certificates, as the code has it: they are not bound to positions"],
)
