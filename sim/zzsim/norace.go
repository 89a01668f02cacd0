//go:build !race

package zzsim

// RaceBuild says whether the race detector is in.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}

// RaceErrors returns the number of races reported so far.
func RaceErrors() int { return 0 }
