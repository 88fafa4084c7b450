package main

import "runtime"

var gcN int

func gc() {
	if gcN++; gcN%16 == 0 {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 96<<20 {
			runtime.GC()
		}
	}
}
