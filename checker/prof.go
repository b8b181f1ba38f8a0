package main

import (
	"os"
	"runtime/pprof"
)

func startProf(path string) func() {
	f, err := os.Create(path)
	if err != nil {
		return func() {}
	}
	pprof.StartCPUProfile(f)
	return func() { pprof.StopCPUProfile(); f.Close() }
}
