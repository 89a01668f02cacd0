//go:build race

package zzsim

import "runtime"

// RaceBuild says whether the race detector is in.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceErrors returns the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
