package main

import (
	"fmt"
	"go/types"
	"strings"
)

// A walk may be given the syntax elements a parser is to read, one after the
// other: the kind of each, its width and, where the syntax depends on it,
// its value. The walk then shows whether the parser reads just these.
type scriptStep struct {
	kind string // u: w bits; ue, se: Exp-Golomb codes; g: either code
	w    int
	name string
	val  int64
	set  bool
}

// scripted is the result of a call that reads the next syntax element.
func (t *Trace) scripted(name string, as []*sval, typ types.Type, id string) *sval {
	if t.x.script == nil {
		return nil
	}
	i := strings.Index(name, "GolombBitReader).")
	if i < 0 || len(as) == 0 {
		return nil
	}
	kind, w := "", 0
	switch name[i+len("GolombBitReader)."):] {
	case "ReadBit":
		kind, w = "u", 1
	case "ReadBits":
		kind = "u"
		if len(as) > 1 && as[1].isInt && as[1].lin.konst() {
			w = int(as[1].lin.c)
		}
	case "ReadExponentialGolombCode":
		kind = "ue"
	case "ReadSE":
		kind = "se"
	default:
		return nil
	}
	tt, ok := typ.(*types.Tuple)
	if !ok || tt.Len() != 2 {
		return nil
	}
	r := &sval{sym: "read@" + id}
	e := t.x.leaf(r.sym+".err", tt.At(1).Type())
	if t.nstep >= len(t.x.script) || t.mism != "" {
		if t.mism == "" {
			t.mism = fmt.Sprintf("%s(%d) is read after the end", kind, w)
		}
		r.tup = []*sval{t.x.leaf(r.sym+".0", tt.At(0).Type()), e}
		return r
	}
	s := t.x.script[t.nstep]
	t.nstep++
	if t.source == "" {
		t.source = as[0].base
	} else if t.source != as[0].base {
		t.mism = "another reader is used for " + s.name
	}
	if s.kind != kind && !(s.kind == "g" && kind != "u") || s.w != w {
		t.mism = fmt.Sprintf("%s is read as %s(%d), not %s(%d)", s.name, kind, w, s.kind, s.w)
	}
	v := t.x.leaf(s.name, tt.At(0).Type())
	if s.set {
		v = t.x.intC(s.val, tt.At(0).Type())
	}
	r.tup = []*sval{v, e}
	return r
}

// tracesScript walks f along a script.
func tracesScript(f *Fn, max, turns int, init map[string][]sbit, script []scriptStep) (out []*Trace, over bool) {
	x := &tracer{init: init, f: f, terms: map[string]*V{}, trng: map[string][2]int64{}, max: max, uniq: map[instrAt]int{}, turns: turns, script: script}
	x.emit = func(t *Trace) { out = append(out, t) }
	t := &Trace{x: x, env: map[*V]*sval{}, bools: map[string]bool{}, fix: map[sbit]int{}, cellv: map[string]*sval{}, fresh: map[string]bool{}, seen: map[*Block]int{}}
	x.walk(t, f.Blocks[0], nil, -1)
	return out, x.over
}
