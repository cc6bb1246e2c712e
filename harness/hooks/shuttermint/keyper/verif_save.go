package keyper

import "github.com/shutter-network/shutter/shuttermint/keyper/observe"

// VerifSave saves a state the way a running keyper does.
func VerifSave(cfg Config, st *State, w observe.World) error {
	kpr := NewKeyper(cfg)
	kpr.State = st
	kpr.world.Store(w)
	return kpr.saveState()
}
