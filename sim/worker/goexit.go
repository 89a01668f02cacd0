package main

import (
	"runtime"

	"verifsim/scn"
)

type scnOp = scn.Op

func exitGoroutine() { runtime.Goexit() }
