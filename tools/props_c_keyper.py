SH = "a simulated tendermint node running the real application"
ETH = "a simulated Ethereum node running the real contracts in go-ethereum's EVM"
prop("C18", "A keyper's view of shuttermint equals the chain's history of events",
 "However a keyper's synchronisation with shuttermint is cut into steps, repeated, filtered, interrupted by errors or by saving and restoring the view, its view of keypers, batch configs, batches, eons and key generation messages contains exactly what the chain's events up to the synced height say, once each and in order; a failing synchronisation leaves the earlier view as it was, and views handed out earlier never change.",
 ["inputs", "histories", "fault_sequences"], "all chains, all ways to divide, fail, repeat and filter the synchronisation",
 "Tests apply single events to an empty view.",
 ["shuttermint/keyper/observe/shutter.go", "shuttermint/keyper/shutterevents/marshal.go"],
 [("fetching and applying events", "shuttermint/keyper/observe/shutter.go fetchAndApplyEvents, applyEvent"), ("copy on sync", "shuttermint/keyper/observe/shutter.go Clone, SyncToHead"), ("filter", "shuttermint/keyper/observe/shutter.go ApplyFilter")],
 observe=["observe.Shutter after each synchronisation"],
 technique=RT + SH + ", with injected faults; the oracle folds the application's own recorded responses",
 note="random chains with byzantine senders; sync steps of any size; errors, lag, gob round trips between")
prop("C19", "A keyper's view of the main chain equals the contracts' state",
 "After a synchronisation, a keyper's view of the main chain (configs, batches and their transactions, half steps and receipts, deposits, accusations) equals what the contracts' storage and logs say at the followed block, across several synchronisation steps, reorganisations within the follow distance, lagging nodes, errors and saved views; a failed synchronisation leaves the earlier view usable. The queries derived from it (config and keypers of a batch, whether a batch is over) agree with the contracts.",
 ["inputs", "histories", "fault_sequences"], "all sequences of contract transactions, reorganisations up to the follow distance and node faults",
 "There are no tests of the main chain synchronisation.",
 ["shuttermint/keyper/observe/mainchain.go", "shuttermint/contract/caller.go", "contracts/contracts/BatcherContract.sol", "contracts/contracts/ExecutorContract.sol", "contracts/contracts/KeyperSlasher.sol", "contracts/contracts/ConfigContract.sol"],
 [("sync", "shuttermint/keyper/observe/mainchain.go SyncToHead, syncConfigs, syncBatches, syncExecutorContract, syncSlashings, syncDeposits"), ("queries", "shuttermint/keyper/observe/mainchain.go ConfigForBatchIndex, CurrentHeadsUp")],
 observe=["observe.MainChain after each synchronisation", "storage and logs of the contracts"],
 technique=RT + ETH + ", with injected faults and reorganisations; the oracle reads contract storage and logs independently",
 note="random activity on all contracts, including governance that unschedules and replaces configs")
