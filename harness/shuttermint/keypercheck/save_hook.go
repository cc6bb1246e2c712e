//go:build verifhook

package main

import (
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
)

func saveState(cfg keyper.Config, st *keyper.State, w observe.World) error {
	return keyper.VerifSave(cfg, st, w)
}
