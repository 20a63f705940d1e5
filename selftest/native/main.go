// native runs the programs of lit as ordinary Go programs.
package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"example.org/lit"
)

func main() {
	bad := 0
	for _, p := range lit.Progs {
		got := map[string]bool{}
		t := time.Now()
		for i := 0; i < 20000 && (i < 5 || time.Since(t) < 2*time.Second/4); i++ {
			got[p.Run()] = true
		}
		want := map[string]bool{}
		for _, w := range strings.Fields(p.Want) {
			want[w] = true
		}
		for g := range got {
			if !want[g] && !p.SC {
				fmt.Println("native:", p.Name, "gave", g)
				bad++
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
	fmt.Println("native: every outcome is in the explored set")
}
