//go:build !race

package simrt

// RaceBuild tells that the race detector is on.
const RaceBuild = false

// RaceErrors found so far.
func RaceErrors() int { return 0 }

func raceDisable() {}

func raceEnable() {}
