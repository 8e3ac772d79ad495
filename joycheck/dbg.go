package main

import (
	"fmt"
	"os"
	"strconv"
	"time"
)

// dbgInit prints the walks of a function over a slice of a given length.
func dbgInit(p *Prog, args []string) {
	r := &Report{P: p, Cov: map[string]interface{}{}}
	f := r.buildFor(args[0], stopAt(args[3:]...))
	l, _ := strconv.Atoi(args[1])
	n, _ := strconv.Atoi(args[2])
	t0 := time.Now()
	ts, over := tracesInit(f, 200000, nil, n, false, nil, map[string][]sbit{"len(p0)": ci(int64(l))})
	fmt.Println(len(ts), "paths", over, time.Since(t0))
	if os.Getenv("D") != "" {
		for _, t := range ts {
			fmt.Println(t.dump())
		}
	}
}
