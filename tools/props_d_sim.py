SIM = "simulations in which the real deciders of several keypers act on the real application and the real contracts (in go-ethereum's EVM)"
DEC = "shuttermint/keyper/decide.go"
prop("C20", "Distributed key generation: honest keypers agree with what the chain says",
 "Given the messages on shuttermint, every honest keyper of an eon that finishes the key generation has the eon public key, the public key shares, and a secret share matching its public one, that follow from the messages accepted in their phases, and never finishes early or with too few qualified keypers. If no message is late, honest keypers accuse and disqualify no honest keyper, and all of them get the key whenever enough keypers qualified; they broadcast exactly that key once. A keyper ends with a key exactly if what the chain holds for it suffices, and otherwise votes, once per failure, for another key generation. Restarts, absences and late starts change nothing else.",
 ["inputs", "histories", "schedules", "fault_sequences"], "all numbers of keypers and thresholds, all byzantine messages, all delays and restarts",
 "Tests run the pure key generation with honest participants who see everything at once.",
 [DEC, "shlib/puredkg/puredkg.go", "shuttermint/keyper/observe/shutter.go", "shuttermint/app/app.go"],
 [("phases and messages of the key generation", DEC + " handleDKGs, syncDKGWithEon, dkgFinalize"), ("pure key generation", "shlib/puredkg/puredkg.go PureDKG"), ("restored state", "shuttermint/keyper/keyper.go LoadState")],
 observe=["keyper.State and the actions after each decision", "messages the application accepted"],
 technique=RT + SIM + "; an oracle derives the outcome of each key generation from the accepted messages",
 note="1-5 keypers, up to t-1 byzantine ones (bad or missing evaluations, commitments, apologies, false accusations, other votes), lag, restarts, keypers that are away for stretches or start late, a second config")
prop("C21", "Epoch key shares are released after the batch is over, correct, and once",
 "An honest keyper releases its share of a batch's epoch key only once users can no longer add transactions to the batch as the contracts see it (as far as it follows the main chain), not after the execution timeout, only for batches of active configs, for the eon in force, correctly, and not twice; and it does release it if it had the eon key before the batch's end and is not held up.",
 ["inputs", "histories", "schedules", "fault_sequences"], "all configurations, delays, reorganisations up to the follow distance, restarts and reconfigurations",
 "Releasing early breaks the front-running protection; not releasing it stops the system. Tests never run the decider.",
 [DEC, "shuttermint/contract/batchconfig.go", "contracts/contracts/BatcherContract.sol"],
 [("release", DEC + " publishEpochSecretKeyShares, publishEpochSecretKeyShare, executionTimeoutReachedOrInactive"), ("batch boundaries", "shuttermint/contract BatchConfig.BatchIndex, BatchEndBlock")],
 observe=["actions of each decision against the contracts' own batch boundaries"],
 technique=RT + SIM + "; monitors on every decision",
 note="1-5 keypers, with restarts, reorganisations, byzantine early and bad shares, a second config with other keypers, lag")
prop("C22", "Epoch keys come from enough valid shares on chain, at once, and are right",
 "Whatever shares byzantine keypers send, in whatever order and number, an honest keyper has an epoch key exactly if the threshold of valid shares of distinct keypers of the eon is on the chain it has seen, and the key always verifies against the eon public key.",
 ["inputs", "histories", "schedules"], "all orders of valid, invalid, early, repeated and missing shares",
 "Tests of epochkg use a handful of honest shares.",
 ["shuttermint/keyper/epochkg/epochkg.go", DEC],
 [("collecting shares", "shuttermint/keyper/epochkg/epochkg.go HandleEpochSecretKeyShare"), ("feeding from the chain", DEC + " syncEKGs, syncEKGWithEon"), ("crypto", "shlib/shcrypto ComputeEpochSecretKey, VerifyEpochSecretKeyShare")],
 observe=["EpochKG.SecretKeys after each decision", "share messages the application accepted"],
 technique=RT + SIM + "; the shares on chain are verified independently and counted after every decision",
 note="1-5 keypers, up to t-1 byzantine ones, restarts, reconfiguration, lag")
prop("C23", "Batches execute exactly the users' transactions, in order, in time, by quorum",
 "An honest keyper executes a batch only with the transactions users added to it, each decrypted with the batch's key (undecryptable ones left out) in the order the key determines, signed by a threshold of keypers, within its time and turn, and the next half steps in order; plain batches likewise; it skips only after the timeout. Nothing is skipped that could be executed, and the half steps always advance. It does not crash on any configuration.",
 ["inputs", "histories", "schedules", "fault_sequences"], "all users' transactions, configurations, delays, restarts, reorganisations and byzantine keypers below the threshold",
 "The system's purpose: users' transactions are executed unaltered in an order nobody chose. Tests never run the decider.",
 [DEC, "shuttermint/keyper/observe/mainchain.go", "contracts/contracts/ExecutorContract.sol", "shlib/shcrypto/shuffle.go"],
 [("execution", DEC + " maybeExecuteBatch, maybeExecuteHalfStep, executionDelay, executeCipherBatch, executePlainBatch"), ("decryption", DEC + " decryptBatches, decryptTransactions"), ("gathering signatures", DEC + " syncBatch")],
 observe=["actions of each decision, receipts and half steps on chain"],
 technique=RT + SIM + ", and of single decisions on made-up worlds; monitors compare with what the users encrypted",
 note="1-5 keypers; undecryptable, repeated and plain transactions; restarts, reorganisations, slow nodes, reconfiguration; made-up worlds with odd configs and backlogs")
prop("C24", "Wrong executions are accused, right ones are not or are appealed for",
 "If a batch with transactions is executed with anything else than its decrypted transactions, honest keypers that know its key accuse the executor and nobody can appeal. An honest keyper never accuses for a right execution, accuses only as a keyper of the batch, and accusations against right executions are appealed with authorizations the contract accepts, whatever malformed or malleated signatures byzantine keypers send.",
 ["inputs", "histories", "schedules", "fault_sequences"], "all behaviours of byzantine executors, accusers and signers below the threshold, delays and restarts",
 "Slashing the innocent or not slashing the guilty costs deposits. Tests never run the decider.",
 [DEC, "contracts/contracts/KeyperSlasher.sol", "shuttermint/contract/contract.go"],
 [("accusation", DEC + " maybeAccuse, maybeAccuseHalfStep"), ("appeal", DEC + " maybeAppeal, getSortedDecryptionSignaturesWithIndices"), ("signatures", DEC + " Batch.VerifySignature")],
 observe=["actions of each decision, accusations and receipts in the contracts"],
 technique=RT + SIM + ", and of single decisions on made-up worlds; appeals are tried on the real contract when they are decided",
 note="1-5 keypers with byzantine executors, accusers and signers; restarts, reconfiguration, lag, slow nodes")
