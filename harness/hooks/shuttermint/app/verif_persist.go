//go:build verifhook

package app

import (
	"os"
	"strconv"
	"time"
)

// The check runs for less time than the application waits between two saves of its state, so it
// shortens that time.
func init() {
	if ms, err := strconv.Atoi(os.Getenv("VERIF_PERSIST_MS")); err == nil {
		PersistMinDuration = time.Duration(ms) * time.Millisecond
	}
}
