package main

import (
	"os"
	"runtime/pprof"
)

func init() {
	if p := os.Getenv("SA_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		stopProf = pprof.StopCPUProfile
	}
}

var stopProf = func() {}
