//go:build race

package simrt

import "runtime"

// RaceBuild tells that the race detector is on.
const RaceBuild = true

// RaceErrors found so far.
func RaceErrors() int { return runtime.RaceErrors() }

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }
