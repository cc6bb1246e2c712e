// Command appcheck runs the checks of the shuttermint application (the replicated state machine)
// and of its event encoding.
package main

import (
	"os"
	"time"

	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "persist-child" {
		persistChild(os.Args[2:])
		return
	}
	model := []string{"libsecp256k1 recovers signers correctly", "the reference model states the rules of the application"}
	vt.Main([]vt.Check{
		{ID: "C10", Level: "exploration", MinEvals: 100, Run: checkC10, Assumptions: nil,
			Rule: "one case = one random chain of blocks executed by five replicas that differ in CheckTx traffic, restarts and disk use; non-trivial if it contains an accepted transaction; distinct by the transactions"},
		{ID: "C11", Level: "exploration", MinEvals: 60, Run: checkC11,
			Rule:        "one case = one random chain with restarts at random heights, or one process killed at a chosen or random point while persisting; distinct by transactions and crash points",
			Assumptions: []string{"the file system keeps what was synced and renames atomically"}},
		{ID: "C12", Level: "exploration", MinEvals: 100, Run: checkC12, Assumptions: model,
			Rule: "one case = one random chain of blocks rich in forged, altered, replayed and misdirected transactions; non-trivial if it contains an accepted transaction; distinct by the transactions"},
		{ID: "C13", Level: "exploration", MinEvals: 100, Run: checkC13, Assumptions: model,
			Rule: "one case = one random chain with heavy CheckTx traffic between the blocks; non-trivial if a transaction was admitted and another refused; distinct by the transactions"},
		{ID: "C14", Level: "exploration", MinEvals: 100, Run: checkC14, Assumptions: model,
			Rule: "one case = one random chain rich in votes for batch configs; non-trivial if a config was accepted; distinct by the transactions"},
		{ID: "C15", Level: "exploration", MinEvals: 100, Run: checkC15, Assumptions: model,
			Rule: "one case = one random chain rich in config changes, start votes and check-ins; non-trivial if the validators changed; distinct by the transactions"},
		{ID: "C16", Level: "exploration", MinEvals: 100, Run: checkC16, Assumptions: model,
			Rule: "one case = one random chain rich in key generation messages, eon votes and decryption signatures; non-trivial if a key generation message was accepted; distinct by the transactions"},
		{ID: "C17", Level: "exploration", MinEvals: 2000, Run: checkC17,
			Rule: "one case = one event of a random type with random, possibly empty fields, encoded and decoded, and malformed variants of it; distinct by encoding"},
		{ID: "C31", Level: "exploration", CaseLimit: 600 * time.Second, MinEvals: 8, Run: checkC31, Assumptions: []string{"a killed process loses nothing that it wrote"},
			Rule: "one case = one chain of 1-5 real nodes, with random and hostile transactions, kills, stops, pauses and late nodes; non-trivial if transactions were accepted and faults happened; distinct by chain"},
	})
}
