package main

import (
	"fmt"
	"strconv"
)

// dbgWalk prints the walks of a function.
func dbgWalk(p *Prog, args []string) {
	r := &Report{P: p, Cov: map[string]interface{}{}}
	f := r.buildFor(args[0], stopAt(args[2:]...))
	n, _ := strconv.Atoi(args[1])
	ts, over := tracesInit(f, 200000, nil, n, false, nil, map[string][]sbit{})
	fmt.Println(len(ts), over)
	for _, t := range ts {
		if !t.back {
			fmt.Println(t.dump())
		}
	}
}
