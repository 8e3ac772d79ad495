package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if pf := os.Getenv("JC_PROF"); pf != "" {
		w, _ := os.Create(pf)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	repo := os.Getenv("JC_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if len(os.Args) > 2 && os.Args[1] == "-prop" {
		dir, _ := os.Getwd()
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(runCheck(os.Args[2], repo, dir, tier))
	}
	t := time.Now()
	p, err := loadProg(repo)
	if err != nil {
		panic(err)
	}
	if os.Args[1] == "fieldnn" {
		p.fieldNonNeg("")
		fmt.Println(strings.Join(sortedKeys(p.fieldNN), "\n"), "positive:", sortedKeys(p.fieldPos))
		return
	}
	if os.Args[1] == "fieldlens" {
		debugFieldLens(p)
		return
	}
	if os.Args[1] == "dbgwalk" {
		dbgWalk(p, os.Args[2:])
		return
	}
	if os.Args[1] == "dbginit" {
		dbgInit(p, os.Args[2:])
		return
	}
	if os.Args[1] == "mod" {
		m := newModular(p)
		m.verbose = true
		var es []*ssa.Function
		for _, i := range os.Args[2:] {
			k := strings.LastIndex(i, ":")
			fn := p.fn(i[:k], i[k+1:])
			if fn == nil {
				fmt.Println("no function", i)
				return
			}
			es = append(es, fn)
		}
		all, roots := p.reach(es, nil)
		for _, r := range roots {
			q := m.analyse(r)
			for _, o := range q.bad {
				fmt.Println(fnName(r), ":", o.Kind, p.pos(o.In.Orig.Pos()), o.What, o.How, o.In.Ctx)
			}
		}
		fmt.Println(len(all), "functions", len(roots), "roots", time.Since(t))
		return
	}
	ctr := newContracts(p, &InlineOpt{Stop: cursorStop})
	one := func(i string, verbose bool) {
		k := strings.LastIndex(i, ":")
		fn := p.fn(i[:k], i[k+1:])
		if fn == nil {
			fmt.Println("no function", i)
			return
		}
		t = time.Now()
		var f *Fn
		if os.Args[1] != "trace" {
			f = build(p, fn, ctr.opt)
		} else {
			f = &Fn{}
		}
		n := 0
		for _, b := range f.Blocks {
			n += len(b.Instrs)
		}
		if os.Args[1] == "dump" {
			fmt.Println(f.dump())
			fmt.Println(f.NInl, "inlined", len(f.Blocks), "blocks", n, "instrs", time.Since(t), f.Opaque)
		}
		if os.Args[1] == "trace" {
			o := stopAt(os.Args[3:]...)
			o.Quiet = true
			f = build(p, fn, o)
			turns, gen := 1, true
			if m := os.Getenv("JC_MODE"); m != "" {
				turns, gen = 2, m == "B"
			}
			ts, over := tracesOpt(f, 5000, nil, turns, gen, nil)
			if os.Getenv("JC_MODE") == "I" {
				ts, over = tracesInit(f, 20000, nil, 3, false, nil, nil)
			}
			for _, t := range ts {
				fmt.Println(t.dump())
			}
			fmt.Println(len(ts), "traces", over, time.Since(t), f.Opaque)
		}
		if os.Args[1] == "bounds" {
			t = time.Now()
			nm := newNum(f)
			nm.trace = len(os.Args) > 3
			nm.ctr = ctr
			nm.assumePre()
			nm.inferInvariants()
			if verbose {
				for _, l := range f.Loops {
					for _, c := range nm.inv[l.Head] {
						fmt.Printf("  b%d inv %s\n", l.Head.ID, c.e)
					}
				}
			}
			obs := nm.obligations(nil)
			bad := 0
			for _, o := range obs {
				if !o.OK {
					bad++
					fmt.Println("   ", o.Kind, p.pos(o.In.Orig.Pos()), o.What, o.How, o.In.Ctx)
				}
			}
			fmt.Println(i, len(obs), "obligations", bad, "bad", time.Since(t).Round(time.Millisecond), nm.queries, "queries", len(f.Blocks), "blocks")
		}
	}
	if os.Args[1] == "sweep" {
		os.Args[1] = "bounds"
		for _, f := range p.AllFuncs {
			pk := relPkg(fnPkgPath(f))
			if f.Parent() != nil || !strings.HasPrefix(pk, os.Args[2]) {
				continue
			}
			nm := f.Name()
			if r := f.Signature.Recv(); r != nil {
				nm = namedOf(r.Type()).Obj().Name() + "." + nm
			}
			one(pk+":"+nm, false)
		}
		return
	}
	one(os.Args[2], true)
}
