// Package main (group run): the programs of lit under the explorer.
package main

import (
	"example.org/lit"
	"verif/mc"
)

var scenarios []mc.Scenario

func init() {
	for i := range lit.Progs {
		p := lit.Progs[i]
		scenarios = append(scenarios, mc.Scenario{
			Name:  p.Name,
			Doc:   p.Want,
			Quick: mc.Bound{D: 20, MaxEarly: 1},
			Run:   func() { mc.Begin(); mc.Outcome(p.Run()) },
		})
	}
}
