APP = "shuttermint/app/app.go"
MODEL = RT + "an independent reference model of the application, in lockstep"
prop("C10", "All replicas of the shuttermint app give the same answers",
 "Replicas of the shuttermint application that execute the same blocks give byte-identical transaction results, events, validator updates, app hashes and heights. That holds regardless of which transactions CheckTx saw, of restarts from a saved state, of saving to disk and of the random iteration order of maps.",
 ["inputs", "histories", "schedules"], "all chains of blocks, CheckTx traffic and restarts",
 "Unit tests call single handlers on one instance; they never compare two.",
 [APP, "shuttermint/app/powermap.go", "shuttermint/app/voting.go"],
 [("sorted validator updates", "shuttermint/app/powermap.go ValidatorUpdates, SortValidators"), ("vote counting", "shuttermint/app/voting.go OutcomeIndex")],
 observe=["ResponseDeliverTx without log", "ResponseEndBlock", "ResponseCommit", "ResponseInfo"],
 technique=RT + "comparing five replicas after every call",
 note="replicas run in one process; Go randomises map iteration per loop, so order dependence shows up there")
prop("C11", "A restarted or crashed shuttermint app continues where it was",
 "An application loaded from a saved state gives exactly the answers it would have given without the restart, including when tendermint replays blocks since an older save. A crash at any moment of saving, a failing disk operation or the remains of an interrupted save never leave a state that cannot be loaded, and never lose a completed save.",
 ["histories", "crash_points", "fault_sequences"], "all chains, all heights to restart from, all points of a save to crash or fail at",
 "Tests don't restart the application or interrupt a save.",
 [APP, "shuttermint/app/types.go"],
 [("write to a temporary file, sync, rename", "shuttermint/app/app.go PersistToDisk"), ("load", "shuttermint/app/app.go LoadShutterAppFromFile"), ("last height", "shuttermint/app/app.go Info")],
 observe=["answers after a restart", "state file after a SIGKILL", "order of system calls while saving"],
 technique=RT + "comparison with a never restarted run; crash and fault injection with SIGKILL and strace at the system calls of a save",
 note="power loss isn't simulated; instead the order of write, sync and rename is checked")
prop("C12", "Only authentic, fresh transactions take effect, and at most once",
 "A transaction takes effect only if it carries a valid signature over its content, names this chain and has a nonce that its signer hasn't used before; its effects are attributed to the signer. Replayed, altered, re-encoded or misdirected transactions are refused, and a refused transaction changes nothing but may use up its nonce.",
 ["inputs", "histories"], "all sequences of transactions including forged and replayed ones",
 "Tests verify one signature and one nonce.",
 [APP, "shuttermint/shmsg/encode.go", "shuttermint/app/noncetracker.go"],
 [("signature check", "shuttermint/shmsg/encode.go GetSigner"), ("nonce check", "shuttermint/app/app.go DeliverTx"), ("chain id check", "shuttermint/app/app.go DeliverTx")],
 observe=["ResponseDeliverTx", "a shadow replica that gets only the accepted transactions"],
 technique=MODEL + ", and a shadow replica that sees only accepted transactions",
 note="random chains with a quarter of hostile envelopes, including malleated signatures and respelled encodings")
prop("C13", "CheckTx admits only members' fresh transactions, ten per block each",
 "CheckTx admits a transaction exactly if it's authentic, for this chain, from a keyper of any known config, with a nonce neither delivered nor already admitted since the last commit, and if fewer than ten transactions of its sender were admitted since the last commit. Its decisions never influence the execution of blocks.",
 ["inputs", "histories", "schedules"], "all interleavings of CheckTx calls with blocks",
 "Tests exercise CheckTxState on its own.",
 [APP, "shuttermint/app/checktx.go", "shuttermint/app/noncetracker.go"],
 [("admission", "shuttermint/app/checktx.go AddTx"), ("reset", "shuttermint/app/app.go Commit"), ("members", "shuttermint/app/app.go updateCheckTxMembers")],
 observe=["ResponseCheckTx", "results of a twin without CheckTx traffic"],
 technique=MODEL + ", and a twin replica without CheckTx traffic",
 note="CheckTx calls between blocks, within blocks, before and after commits, and floods by one sender")
prop("C14", "A batch config is accepted only by its keypers' threshold vote",
 "A new batch config becomes known exactly when as many keypers of the last config as its threshold says have voted for exactly that config since the last one was accepted, each with at most one vote. Only valid configs (some keypers, no duplicates, threshold from one to their number, growing index, non-decreasing start) are ever accepted. It's announced once, and starts a new eon exactly if keypers or threshold differ from the running one's.",
 ["inputs", "histories"], "all sequences of votes, competing candidates and malformed configs",
 "Tests cover one vote count and single invalid configs.",
 [APP, "shuttermint/app/configvoting.go", "shuttermint/keyper/shutterevents/batchconfig.go"],
 [("vote", "shuttermint/app/app.go deliverBatchConfig"), ("validity", "shuttermint/keyper/shutterevents/batchconfig.go EnsureValid"), ("checkConfig", "shuttermint/app/app.go checkConfig")],
 observe=["results and events of BatchConfig transactions"],
 technique=MODEL, note="random exploration with competing campaigns")
prop("C15", "Validators change only to the keypers of a started config",
 "A config is started exactly when at least the threshold of the preceding config's keypers reported it started, and its keypers become the validators with equal power once it's started and at least its threshold checked in; power of absent keypers is held by a key nobody has until they check in. Each keyper checks in once. Validator updates are exactly the difference to the previous validators.",
 ["inputs", "histories"], "all sequences of config changes, start votes and check-ins",
 "Tests check the power map arithmetic only.",
 [APP, "shuttermint/app/powermap.go"],
 [("start and switch of validators", "shuttermint/app/app.go EndBlock"), ("start votes", "shuttermint/app/app.go deliverBatchConfigStarted"), ("check-in", "shuttermint/app/app.go deliverCheckIn")],
 observe=["ResponseEndBlock.ValidatorUpdates", "results of CheckIn and BatchConfigStarted transactions"],
 technique=MODEL, note="a config that its voters accepted with the started flag set counts as started")
prop("C16", "Key generation messages, eon votes and signatures count once",
 "A key generation message is published exactly if its eon is known, sender and all addressees are distinct keypers of that eon, it's well formed and the first of its kind from that sender (for that receiver); an eon starts exactly when a threshold of the batch's keypers currently vote for the same start batch, with a fresh number. Each keyper responsible for a batch can publish one decryption signature for it. Everything is published as sent, with the true sender.",
 ["inputs", "histories"], "all sequences of messages by members and outsiders",
 "Tests register a few messages with one DKG instance.",
 [APP, "shuttermint/app/dkg.go", "shuttermint/app/messages.go", "shuttermint/app/eonvoting.go", "shuttermint/app/batch_state.go"],
 [("registration", "shuttermint/app/dkg.go Register*Msg"), ("parsing", "shuttermint/app/messages.go"), ("eon voting", "shuttermint/app/app.go maybeStartEon"), ("signatures", "shuttermint/app/batch_state.go AddDecryptionSignature")],
 observe=["results and events of the transactions"],
 technique=MODEL, note="random exploration; the point decoder of the oracle is go-ethereum's other bn256 implementation")
prop("C17", "Shuttermint events survive encoding, malformed ones are refused",
 "Every event the application can emit, including ones with empty lists, zero or huge numbers, is decoded by the keypers to exactly the same content at the height it was emitted. Malformed events are refused with an error and never crash or are misread.",
 ["inputs"], "all event contents and all damage to their encoding",
 "Tests round-trip one or two instances per event type.",
 ["shuttermint/keyper/shutterevents/events.go", "shuttermint/keyper/shutterevents/marshal.go"],
 [("encoders and decoders", "shuttermint/keyper/shutterevents/marshal.go"), ("event types", "shuttermint/keyper/shutterevents/events.go MakeEvent")],
 observe=["decoded events and errors"],
 technique=RT + "a round-trip oracle and a catalogue of malformed attributes",
 note="random fields biased to boundaries, nine kinds of damage")
