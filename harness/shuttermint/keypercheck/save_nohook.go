//go:build !verifhook

package main

import (
	"encoding/gob"
	"os"
	"path/filepath"

	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
)

// saveState writes the file as a running keyper does. It's only used if the hook for doing it with
// the keyper's own function doesn't build.
func saveState(cfg keyper.Config, st *keyper.State, w observe.World) error {
	f, err := os.Create(filepath.Join(cfg.DBDir, "state.gob"))
	if err != nil {
		return err
	}
	defer f.Close()
	return gob.NewEncoder(f).Encode(struct {
		State           *keyper.State
		Shutter         *observe.Shutter
		MainChain       *observe.MainChain
		HalfStepPending bool
	}{st, w.Shutter, w.MainChain, st.PendingHalfStep != nil})
}
