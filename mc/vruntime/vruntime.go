// Package vruntime replaces package runtime in instrumented code.
package vruntime

import "verif/mc"

func Gosched()           { mc.Yield() }
func GOMAXPROCS(int) int { return 2 }
func NumCPU() int        { return 2 }
func NumGoroutine() int  { return 1 + len(mc.Live()) }
