FX = "shuttermint/keyper/fx/"
prop("C25", "Pending actions survive crashes, complete and exactly once",
 "The list of actions a keyper still has to run is the same after a restart or a crash at any moment: every added action that wasn't removed is there once, with its number, unchanged content and recorded transaction hash, and nothing else; adding the same actions again after a restart doesn't duplicate them. A change is on disk when the call that makes it returns, a save that fails doesn't go unnoticed and doesn't lose the earlier list, and parallel changes don't get lost.",
 ["inputs", "histories", "crash_points", "schedules"], "all sequences of changes, all crash points of a save, all interleavings of the workers",
 "The test adds actions to one list that is never loaded again.",
 [FX + "pending.go", FX + "actions.go"],
 [("save", FX + "pending.go save, Load"), ("numbering", FX + "pending.go AddActions")],
 observe=["fx.PendingActions after each change and load", "the file after SIGKILL", "the order of the system calls of a save"],
 technique=RT + "comparison of the loaded list with a model after every change; SIGKILL at random moments and, through strace, at each system call; injected I/O errors; race detector with parallel workers",
 note="acknowledged changes must be on disk after a crash; sync before rename is monitored in the system call trace")
prop("C26", "Actions run in order, until they succeed, and not again",
 "The keyper sends its shuttermint messages one at a time in the order it decided on, the next only after the one before was accepted or refused for good, and its main chain transactions in their order. An action is retried while sending fails, dropped when it has expired or is refused for good, never sent again after its success was acknowledged, and stays on disk until it's done, transactions with their hash until they are mined. This holds whatever errors nodes give, across stops and restarts at any moment; the runner doesn't crash and ends promptly when told to.",
 ["inputs", "histories", "fault_sequences", "schedules"], "all sequences of actions, answers, failing or silent nodes, expiries, stops and restarts",
 "There are no tests of the action runner.",
 [FX + "runenv.go", FX + "messagesender.go", FX + "actions.go", "shuttermint/contract/caller.go", "shuttermint/medley/medley.go"],
 [("workers", FX + "runenv.go handleActions, handleInFlightTXs, scheduleAction"), ("sending", FX + "runenv.go sendMainChainTX, sendShuttermintMessage; " + FX + "messagesender.go SendMessage"), ("expiry", FX + "actions.go IsExpired")],
 observe=["messages and transactions as the nodes receive them", "fx.PendingActions while running and on disk after stops", "how long a stop takes"],
 technique=RT + "trace oracles over the messages and transactions that reach a scripted message sender and a simulated Ethereum node with failing and hanging RPCs; race detector",
 note="up to 50 actions, up to 5 stops per run; expiries are injected while an attempt fails, so that the last moment to notice is known")

K = "shuttermint/keyper/"
prop("C27", "A keyper that is killed or stopped anywhere goes on where it was",
 "Whenever a keyper is killed or stopped and started again, it goes on as if it hadn't been interrupted: with the state it finds on disk it takes the same decisions; the key generation ends with the same keys everywhere and nobody is accused or excluded as long as everybody takes part in time; a keyper never contradicts what it said before (commitments, evaluations, shares, signatures) and repeats a message at most when it was interrupted while sending it; a decision taken is carried out once, wherever it was interrupted; every batch is executed exactly once with the users' transactions. It always starts again, from whatever directory, and ends promptly and with success on SIGTERM and SIGINT.",
 ["inputs", "histories", "crash_points", "schedules"], "all runs and all moments at which processes are killed, stopped and started",
 "Tests don't restart keypers, let alone kill the program.",
 [K + "keyper.go", K + "decide.go", K + "fx/runenv.go", K + "fx/pending.go", "shuttermint/cmd/keyper.go", K + "observe/shutter.go", K + "observe/mainchain.go"],
 [("persistence", K + "keyper.go LoadState, saveState, runOneStep"), ("pending actions", K + "fx/runenv.go Load"), ("signals", "shuttermint/cmd/keyper.go keyperMain")],
 observe=["the messages and transactions that processes send to the simulated nodes", "both chains at the end", "state.gob and actions.gob", "exit status and log of the processes", "decisions of keyper.Decider with the live and with the reloaded state"],
 technique=RT + "differential monitor (every decision of simulated keypers against that of a copy restored from what was saved after the decision before); SIGKILL, SIGTERM and SIGINT at random moments and while sending, against the real program (race detector) running with simulated nodes, with oracles over all messages, chains and exits",
 note="3-4 keypers, about one fault a second, 4 batches in quick runs; the chains' pace gives interrupted keypers time to do their part")
prop("C28", "Failing connections to the nodes don't harm a running keyper",
 "When connections to the Ethereum or the shuttermint node break, are refused or hang, for any time and at any moment, a running keyper neither crashes nor ends; it goes on when they work again, without missing or repeating anything: the key generation succeeds without accusations and every batch is executed once with the users' transactions, also if one of the keypers is lost for good (with a lower threshold). SIGTERM and SIGINT end it promptly and with success while a node is away, SIGUSR1 does no harm, and the keyper's transactions offer the gas price that the node suggests times the configured multiplier. There are no data races.",
 ["inputs", "fault_sequences", "schedules"], "all sequences of connection failures and stops",
 "Tests have no nodes and no connections.",
 [K + "keyper.go", K + "observe/mainchain.go", K + "observe/shutter.go", K + "fx/runenv.go", "shuttermint/cmd/keyper.go"],
 [("reconnecting", K + "observe/mainchain.go SyncMain; " + K + "observe/shutter.go SyncShutter"), ("start", K + "keyper.go init, connect"), ("signals", "shuttermint/cmd/keyper.go keyperMain")],
 observe=["the messages and transactions that processes send to the simulated nodes", "both chains at the end", "exit status and log of the processes", "race detector reports"],
 technique=RT + "real keyper processes (race detector) whose connections go through proxies that cut, refuse and stall them; oracles over all messages, chains, exits and the time a stop takes",
 note="about one fault a second; connections fail for up to 7 seconds")

S = "shuttermint/cmd/"
prop("C29", "Config commands make the contract hold exactly the given config",
 "'config set-next' makes the config contract's next config equal to the given one in every field, whatever it was before, and nothing else; 'config schedule' appends exactly the next config (or the given one) to the contract's configs. A start that isn't given is chosen so that the contract accepts it and batches go on without gap or overlap. The command ends with success only after its transactions were mined and succeeded; otherwise it fails, and says why if a transaction reverted. Malformed configs and callers other than the owner are refused before anything is sent. 'query' and 'list' print what the contract has, and what they print is read again as it was. Gas price and environment variables are used as documented.",
 ["inputs", "histories"], "all configs, all states of the contract and all ways to give the arguments",
 "Tests cover reading and writing one config as JSON, none runs a command.",
 [S + "config/", "shuttermint/contract/config.go", "shuttermint/contract/config_json.go", "shuttermint/medley/txbatch/txbatch.go", "shuttermint/medley/medley.go"],
 [("set-next", S + "config/setnext.go"), ("schedule", S + "config/schedule.go"), ("transactions", "shuttermint/medley/txbatch/txbatch.go")],
 observe=["the config contract's state before and after every command, read by other code", "the transactions that arrive at the simulated node", "exit status and output"],
 technique=RT + "state-based oracles before and after every run of the real program against the config contract's bytecode in a simulated Ethereum node, with random histories, pending transactions, late mining and spoiled files",
 note="random histories of up to 4 configs, 4-7 commands each")
prop("C30", "A system can be set up with the program, and bad input does no harm",
 "'deploy' deploys all contracts referring to each other correctly, waits for them and prints and writes their addresses; if anything fails it fails and writes no file. 'prepare configs' writes config files with new keys of every keyper, readable by the owner only, and a matching config.json, and never overwrites keys; a keyper config is read exactly as it was written, and a malformed or incomplete one is refused before anything happens. 'fund' raises every keyper with less than half an ether to one, 'unfund' sends everything but the fee of the given keypers to the receiver, and to nobody else. 'bootstrap' makes shuttermint's config the contract's and starts it, only with genesis keypers' keys. 'txsearch' and 'show' print every transaction and event of the given heights in order, and the state there. No command crashes or hangs.",
 ["inputs", "fault_sequences"], "all parameters, balances, numbers of keypers, chains and spoiled inputs",
 "Tests don't run commands.",
 [S + "deploy/", S + "prepare/", S + "bootstrap.go", S + "txsearch.go", S + "show.go", S + "keyper.go", "shuttermint/keyper/config.go", "shuttermint/contract/erc1820/erc1820.go"],
 [("deploy", S + "deploy/deploy.go"), ("keyper configs", "shuttermint/keyper/config.go WriteTOML, Unmarshal"), ("money", S + "prepare/fund.go, unfund.go"), ("bootstrap", S + "bootstrap.go")],
 observe=["contracts' getters, balances and transactions in the simulated Ethereum node", "the real shuttermint application's configs", "files, exit status and output of every command"],
 technique=RT + "state-based oracles around every run of the real program against simulated nodes (real contract bytecode, real shuttermint application), with failing nodes, poor accounts and spoiled files",
 note="up to 7 keypers; config files with 13 kinds of mistakes")
prop("C31", "Real shuttermint nodes stay in agreement through crashes and stops",
 "A node set up with 'init' and run with 'chain' executes every block of the chain and answers to it as the application's rules say and as all other nodes do: several validators agree on every transaction's result, every event and every change of the validators; with --dev the validators never change. After being killed, stopped, paused or joining late a node catches up and goes on with the same state; nothing that was committed is lost or changed. SIGTERM and SIGINT end it with success. 'init' describes a chain that the new node validates, with the given keypers, two thirds of them (rounded up) as threshold, ports by index and the requested block time, and run again it changes neither keys nor genesis.",
 ["inputs", "histories", "crash_points", "schedules"], "all chains of transactions, numbers of nodes and moments of kills, stops and pauses",
 "Tests don't run nodes; the application is tested without tendermint.",
 [S + "chain.go", S + "init.go", "shuttermint/app/app.go"],
 [("node", S + "chain.go newTendermint, chainMain"), ("setup", S + "init.go initFiles"), ("replay after a restart", "shuttermint/app/app.go Info, InitChain, Commit, LoadShutterAppFromFile")],
 observe=["blocks, block results and validators reported by every node's RPC", "genesis file, keys and config", "exit status and log of every process"],
 technique=RT + "real nodes under kills, stops, pauses and late joins on loopback; everything they committed compared between nodes and with the reference model",
 note="up to 4 validators and one late node, random and hostile transactions for about 20 seconds each")
W = "shuttermint/shcryptowasm/"
prop("C32", "The browser modules encrypt for the keypers, and bad input is harmless",
 "The WebAssembly modules built from the repository (encrypt, decrypt, both) can be built and agree with the keypers' code: what they encrypt for an eon key and an epoch is what the keypers' code makes of the same input and what the keypers' epoch key decrypts to the user's message; they decrypt exactly what the keypers decrypt, and refuse what they refuse; verifyDecryptionKey is true for the epoch's key only. Wrong numbers, types or lengths of arguments and malformed points give an error, never end the module, and arguments aren't changed.",
 ["inputs"], "all messages, epochs, keys, sigmas and arguments of any type",
 "There are no tests of the modules; the build doesn't include them.",
 [W + "both_wasm.go", W + "encrypt_wasm.go", W + "decrypt_wasm.go", "shuttermint/keyper/epochkg/epochkg.go"],
 [("encrypt, decrypt, verify", W + "both_wasm.go"), ("keypers' keys", "shuttermint/keyper/epochkg/epochkg.go")],
 observe=["results of the modules' functions called from JavaScript", "the modules staying alive"],
 technique=RT + "differential monitor: the modules, compiled to WebAssembly and run by node, against the keypers' native code, under random and hostile arguments",
 note="compiled with Go rather than TinyGo, which isn't available")
