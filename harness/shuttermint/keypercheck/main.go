// Command keypercheck runs the checks of the keyper: its observation of the two chains, its
// decisions, and the execution of its actions.
package main

import (
	"os"
	"time"

	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "pending-child" {
		pendingChild(os.Args[2:])
		return
	}
	vt.Main([]vt.Check{
		{ID: "C18", Level: "exploration", MinEvals: 60, Run: checkC18,
			Rule: "one case = one random shuttermint chain observed by several observers with different step sizes, filters and restarts; non-trivial if it has events; distinct by the chain"},
		{ID: "C19", Level: "exploration", MinEvals: 40, Run: checkC19,
			Rule: "one case = 45+ blocks of random activity on the real contracts, with reorgs up to the follow distance, watched by three observers; non-trivial if more than ten heights were compared; distinct by the final view"},
		{ID: "C20", Level: "exploration", MinEvals: 40, Run: checkC20,
			Rule: "one case = one simulated run of 1-5 keypers on both chains; non-trivial if more than ten messages were accepted; distinct by roles, messages, eons and half steps"},
		{ID: "C21", Level: "exploration", MinEvals: 30, Run: checkC21,
			Rule: "one case = one simulated run of 1-5 keypers on both chains; non-trivial if more than ten messages were accepted; distinct by roles, messages, eons and half steps"},
		{ID: "C22", Level: "exploration", MinEvals: 30, Run: checkC22,
			Rule: "one case = one simulated run of 1-5 keypers on both chains; non-trivial if more than ten messages were accepted; distinct by roles, messages, eons and half steps"},
		{ID: "C23", Level: "exploration", MinEvals: 30, Run: checkC23,
			Rule: "one case = one simulated run of 1-5 keypers on both chains; non-trivial if more than ten messages were accepted; distinct by roles, messages, eons and half steps"},
		{ID: "C24", Level: "exploration", MinEvals: 30, Run: checkC24,
			Rule: "one case = one simulated run of 1-5 keypers on both chains; non-trivial if more than ten messages were accepted; distinct by roles, messages, eons and half steps"},
		{ID: "C25", Level: "exploration", MinEvals: 200, Run: checkC25, Assumptions: []string{"the file system keeps what was synced and renames atomically"},
			Rule: "one case = one history of changes of the list of pending actions with restarts, crashes or parallel workers; non-trivial if it was loaded again; distinct by operations and crash points"},
		{ID: "C26", Level: "exploration", CaseLimit: 600 * time.Second, MinEvals: 200, Run: checkC26,
			Rule: "one case = one run of the action runner with scripted answers, faults, stops and restarts (or one group of messages or expiries); non-trivial if more than one action was sent; distinct by the attempts and outcomes of all actions"},
		{ID: "C27", Level: "exploration", CaseLimit: 600 * time.Second, MinEvals: 20, Run: checkC27, Assumptions: []string{"both chains advance slowly enough for a keyper that restarts to do its part in time", "the simulated nodes answer as real ones do"},
			Rule: "one case = one simulated run in which every decision is compared with the one after a restart, or one cluster of real keyper processes that are killed or stopped again and again; non-trivial if more than ten messages were sent; distinct by roles, messages, eons and half steps"},
		{ID: "C28", Level: "exploration", CaseLimit: 600 * time.Second, MinEvals: 6, Run: checkC28, Assumptions: []string{"both chains advance slowly enough for a keyper that reconnects to do its part in time", "the simulated nodes answer as real ones do"},
			Rule: "one case = one cluster of real keyper processes whose connections to their nodes fail; non-trivial if more than ten messages were sent; distinct by stops, faults, messages and half steps"},
		{ID: "C29", Level: "exploration", CaseLimit: 600 * time.Second, MinEvals: 50, Run: checkC29, Assumptions: []string{"the simulated Ethereum node answers as real ones do"},
			Rule: "one case = a random history of a config contract and 4-7 runs of config commands of the program; non-trivial if the contract has a config; distinct by the contract's configs at the end"},
		{ID: "C30", Level: "exploration", CaseLimit: 600 * time.Second, MinEvals: 200, Run: checkC30, Assumptions: []string{"the simulated nodes answer as real ones do"},
			Rule: "one case = one system set up with the program from deploy to unfund, or one run of deploy, of keyper with a good or bad config, of txsearch and show, or one config file written and read; distinct by the parameters"},
	})
}
