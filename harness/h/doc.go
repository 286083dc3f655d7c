// Package h holds the harnesses: each exported function without arguments is
// one, run symbolically by the engine and natively to confirm what it reports.
package h

import (
	_ "github.com/perlin-network/noise/verif/vmodel" // its package state is set up with the harnesses'
)
