RT = "runtime monitoring: randomized and hostile workloads on the real code, judged by "
prop("C01", "DKG: honest keypers agree on one working shared key",
 "Whatever up to all-but-threshold of the dealers send, leave out or send late, all honest keypers that received the same broadcast messages agree on whether key generation succeeded and on the same eon public key and public key shares. Each honest keyper's secret key share belongs to its public key share, and the shares of any threshold of them yield the epoch secret key of the agreed eon public key.",
 ["inputs", "schedules", "fault_sequences"], "all keyper set sizes and thresholds, all behaviours of byzantine dealers, all losses and per-keyper delivery orders",
 "The tests run a handful of fixed message sequences with three or four keypers; they don't vary orders, losses and byzantine combinations.",
 ["shlib/puredkg/puredkg.go", "shlib/shcrypto/feldman.go", "shlib/shcrypto/keys.go"],
 [("result computation over the dealers that aren't corrupt", "shlib/puredkg/puredkg.go ComputeResult"), ("verification of evaluations against commitments", "shlib/shcrypto/feldman.go VerifyPolyEval")],
 observe=["puredkg.Result of every keyper", "epoch secret keys combined from it"],
 technique=RT + "an independent reference model of the DKG and by using the generated keys",
 note="random exploration; the monitor keeps the dealers' polynomials itself and recomputes every key; trusts blst group operations")
prop("C02", "DKG: cheating dealers are excluded, honest ones never are",
 "A dealer whose commitment is missing or who left an accusation unanswered or answered it wrongly doesn't contribute to the key; a dealer who followed the protocol towards everybody always contributes. An honest keyper accuses exactly the dealers from whom it lacks a commitment or a matching evaluation, and publishes correct apologies for exactly the accusations against it.",
 ["inputs", "schedules", "fault_sequences"], "all combinations of cheating (no, wrong or late commitments, evaluations, apologies, false accusations) and delivery orders",
 "Tests cover single instances of a wrong evaluation and of an accusation; combinations are unbounded.",
 ["shlib/puredkg/puredkg.go"],
 [("accusation phase", "shlib/puredkg/puredkg.go StartPhase2Accusing"), ("apology phase", "shlib/puredkg/puredkg.go StartPhase3Apologizing"), ("exclusion", "shlib/puredkg/puredkg.go isCorrupt")],
 observe=["accusations and apologies sent", "set of dealers that make up the public key"],
 technique=RT + "an independent reference model of accountability",
 note="random exploration over byzantine strategies; the contributing set is inferred from the public key by the monitor's knowledge of all polynomials")
prop("C03", "DKG: which messages count, and a restart changes nothing",
 "A DKG message counts exactly if it's for this eon, arrives in its phase, comes from a member, is well formed and is the first of its kind; every other message is refused and leaves no trace. Saving a running DKG and restoring it at any point between two messages or phases changes neither which messages it accepts nor what it sends or computes.",
 ["inputs", "histories", "crash_points"], "all message sequences in all phases, and all points to save and restore",
 "One test encodes a fresh instance; no test continues a restored one and few send unexpected messages.",
 ["shlib/puredkg/puredkg.go", "shlib/shcrypto/feldman.go"],
 [("duplicate and phase checks", "shlib/puredkg/puredkg.go Handle*Msg"), ("gob encoding of commitments and evaluations", "shlib/shcrypto/feldman.go GobEncode/GobDecode")],
 observe=["error results of the message handlers", "messages and results after a restore"],
 technique=RT + "a reference model of message acceptance, with save and restore injected between steps",
 note="random exploration of message sequences and of restore points")
prop("C04", "Any quorum of keypers recovers the epoch key, fewer cannot",
 "For every eon key and epoch, the correct epoch secret key shares of any threshold of keypers in any order combine to the same epoch secret key, which verifies against the eon public key and decrypts what was encrypted for that epoch. Fewer or more shares than the threshold, or a mismatch of shares and keypers, are refused, and a quorum with a wrong share doesn't yield an accepted key.",
 ["inputs", "configurations"], "all numbers of keypers, thresholds, quorums, share orders and epochs",
 "Tests use one quorum of one 3 of 4 setup.",
 ["shlib/shcrypto/keys.go", "shlib/shcrypto/feldman.go"],
 [("interpolation in the exponent", "shlib/shcrypto/keys.go lagrangeCoefficient, ComputeEpochSecretKey")],
 observe=["return values of the key functions"],
 technique=RT + "the key computed from the known master secret",
 note="all quorums up to six keypers, random ones up to thirty; trusts blst group operations")
prop("C05", "Shares, keys and evaluations verify if and only if they are right",
 "An epoch secret key share is accepted exactly if it's the share of that keyper for that epoch, an epoch secret key exactly if it's the key of that eon and epoch, and a polynomial evaluation exactly if it's the committed polynomial's value for that keyper and of the right degree. No other value, including the neutral element, another keyper's or another epoch's value, is ever accepted.",
 ["inputs"], "all keys, epochs and candidate values",
 "Tests try one right and one or two wrong values each.",
 ["shlib/shcrypto/keys.go", "shlib/shcrypto/feldman.go"],
 [("pairing check", "shlib/shcrypto/keys.go VerifyEpochSecretKeyShare"), ("trial encryption", "shlib/shcrypto/keys.go VerifyEpochSecretKeyDeterministic"), ("Feldman check", "shlib/shcrypto/feldman.go VerifyPolyEval")],
 observe=["verdicts of the verification functions"],
 technique=RT + "a monitor that knows the secrets and hence the right value",
 note="random keys with twelve kinds of candidates each")
prop("C06", "Encryption round-trips, and tampering never changes a message",
 "Decrypting with the epoch's key returns exactly the encrypted message, for messages of any length and content; no other key decrypts it. A ciphertext altered in any way is either refused or decrypts to the original message; encryption is a function of its arguments, uses different keys for all blocks and doesn't touch the caller's memory.",
 ["inputs"], "all messages, keys, epochs, random values and alterations of the ciphertext",
 "Tests encrypt a few short messages and flip a few fields.",
 ["shlib/shcrypto/encryption.go"],
 [("C1 check after decryption", "shlib/shcrypto/encryption.go Decrypt"), ("block keys", "shlib/shcrypto/encryption.go computeBlockKey"), ("padding", "shlib/shcrypto/encryption.go PadMessage")],
 observe=["ciphertexts and plaintexts", "memory behind the message"],
 technique=RT + "a round trip, tamper, key stream and memory canary monitor",
 note="random messages to 40 kB, ten alterations and four wrong keys each")
prop("C07", "Encodings round-trip and malformed input is refused",
 "Keys, shares, epoch ids, commitments, blocks and encrypted messages survive their byte, text and gob encodings unchanged, whether decoded into a new or a used object. Bytes that aren't the encoding of a value (wrong length, not on the curve, outside the group, wrong version, broken hex) are refused with an error and never crash the decoder.",
 ["inputs"], "all values and all byte strings",
 "Tests round-trip single values and truncate one message; malformed points aren't tried.",
 ["shlib/shcrypto/encoding.go", "shlib/shcrypto/feldman.go", "shlib/shcrypto/keys.go"],
 [("decoders", "shlib/shcrypto/encoding.go Unmarshal*"), ("gob decoder of commitments", "shlib/shcrypto/feldman.go GobDecode")],
 observe=["errors and values of the decoders"],
 technique=RT + "an independent validity predicate for encodings",
 note="structured mutation (truncation, extension, bit flips, off-subgroup points, bad infinity encodings); trusts blst to decide point validity")
prop("C08", "BLS signatures verify exactly for signer set and message",
 "A signature verifies under a public key exactly if it was made with its secret key for that message; the aggregate of signatures verifies exactly under the aggregate of the signers' keys, in any order and grouping, and not with a signer missing, added or wrong. Signatures, public and secret keys survive encoding, malformed ones are refused, and one signature doesn't let anybody make another.",
 ["inputs"], "all keys, messages, signer sets and encodings",
 "Tests use two fixed signers and messages.",
 ["shlib/shcrypto/shbls/shbls.go", "shlib/shcrypto/shbls/encoding.go"],
 [("pairing check", "shlib/shcrypto/shbls/shbls.go Verify"), ("aggregation", "shlib/shcrypto/shbls/shbls.go Aggregate*")],
 observe=["verdicts, aggregates and decoded values"],
 technique=RT + "algebraic oracles that know the secret keys, and a forgery attempt",
 note="one known finding: the hash to the curve is a known multiple of the generator, so signatures can be forged")
prop("C09", "Shuffling is a fair permutation fixed by the epoch key",
 "Shuffling a list of transactions with an epoch key returns exactly the same transactions in an order that depends only on the key and their number, so that everybody who has the key computes the same order. Different keys give different orders, all positions are equally likely, and the given list isn't changed.",
 ["inputs"], "all keys and lists",
 "The test shuffles one list with one key.",
 ["shlib/shcrypto/shuffle.go"],
 [("seed from the key", "shlib/shcrypto/shuffle.go computeSeed"), ("seeded shuffle of a copy", "shlib/shcrypto/shuffle.go Shuffle")],
 observe=["resulting lists"],
 technique=RT + "a permutation, determinism and bias monitor",
 note="random keys and list lengths up to 3000; chi-square tests of all orders of 3, 4 and 5 transactions and of all positions of 8 and 23, over 30000 keys")
