// Command main runs the checks of the shlib module.
package main

import "github.com/shutter-network/shutter/shlib/verifharness/vt"

func main() {
	vt.Main([]vt.Check{
		{ID: "C01", Level: "exploration", MinEvals: 200, Run: checkC01,
			Rule: "one case = one complete DKG among real instances with random size, threshold, byzantine dealers, losses and per-keyper delivery order; non-trivial if more than one keyper; distinct by full message trace"},
		{ID: "C02", Level: "exploration", MinEvals: 200, Run: checkC02,
			Rule: "one case = one complete DKG with byzantine dealers (or a fair one); non-trivial if more than one keyper; distinct by full message trace"},
		{ID: "C03", Level: "exploration", MinEvals: 200, Run: checkC03,
			Rule: "one case = one DKG with save/restore at random points, or one instance hit by arbitrary messages in arbitrary phases; distinct by full message trace"},
		{ID: "C04", Level: "exploration", MinEvals: 500, Run: checkC04,
			Rule:        "one case = one quorum of correct shares of one random key setup (all quorums up to 6 keypers, random ones above); non-trivial if the threshold exceeds 1; distinct by quorum, order and epoch",
			Assumptions: []string{"blst computes the BLS12-381 group operations correctly"}},
		{ID: "C05", Level: "exploration", MinEvals: 1000, Run: checkC05,
			Rule:        "one case = one candidate share, key or evaluation judged by the verifier and by the monitor, which knows the secrets; distinct by candidate",
			Assumptions: []string{"blst computes the BLS12-381 group operations correctly"}},
		{ID: "C06", Level: "exploration", MinEvals: 500, Run: checkC06,
			Rule: "one case = one encryption with its round trip, wrong keys and ten tamperings; non-trivial if the message isn't empty; distinct by ciphertext"},
		{ID: "C07", Level: "exploration", MinEvals: 5000, Run: checkC07,
			Rule:        "one case = one value through every encoding plus four malformed variants; distinct by type and encoding",
			Assumptions: []string{"blst decides correctly which compressed encodings denote points of the prime order subgroups"}},
		{ID: "C08", Level: "exploration", MinEvals: 500, Run: checkC08,
			Rule: "one case = one signature with near misses, aggregations and malformed encodings; distinct by message and signature"},
		{ID: "C09", Level: "exploration", MinEvals: 1000, Run: checkC09,
			Rule: "one case = one list shuffled with one key; non-trivial if it has more than one element; distinct by key and length"},
	})
}
