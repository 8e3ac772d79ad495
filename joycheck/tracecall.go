package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Calls on a trace: reads from and writes to byte streams are interpreted,
// everything else is an opaque event.

func (t *Trace) call(in *Instr) {
	x := t.x
	var as []*sval
	for _, a := range in.Args {
		as = append(as, t.get(a))
	}
	var typ types.Type
	if in.Dst != nil {
		typ = in.Dst.Typ
	}
	name := calleeStr(in)
	if in.Builtin != "" {
		switch in.Builtin {
		case "copy":
			d, s := as[0], as[1]
			n := d.length
			if d.hasLen && s.hasLen {
				if t.implies(d.length.add(s.length, -1)) {
					n = s.length
				} else if t.implies(s.length.add(d.length, -1)) {
					n = d.length
				} else if x.fits {
					n = s.length
				} else {
					n = sterm(fmt.Sprintf("min(%s,%s)", d.length, s.length))
				}
			}
			b, o := t.buf(d)
			if strings.HasPrefix(b, "&") {
				b = b[1:]
			}
			t.mem = append(t.mem, memEnt{base: b, off: o, kind: 1, n: n, src: s, at: len(t.mem)})
			if in.Dst != nil {
				t.set(in, x.fromLin(n, typ))
			}
			t.events = append(t.events, sevent{kind: "copy", args: as, in: in})
		case "append":
			t.events = append(t.events, sevent{kind: "append", args: as, in: in})
			if in.Dst != nil {
				n := "append@" + t.id(in)
				t.appended(n, as[0])
				s := x.leaf(n, typ)
				if elemSize(typ) != 1 {
					s.list = append(s.list, t.items(as[0], in.Args[0].Typ)...)
					for i := 1; i < len(as); i++ {
						s.list = append(s.list, t.items(as[i], in.Args[i].Typ)...)
					}
					for i, l := range s.list {
						if l.one == nil || i == 64 {
							break
						}
						t.cellv[fmt.Sprintf("%s[%d]", n, i)] = l.one
					}
				}
				if as[0].hasLen && len(as) > 1 && as[1].hasLen {
					s.length, s.hasLen = as[0].length.add(as[1].length, 1), true
					if elemSize(typ) == 1 {
						s.base, s.off = n, sc(0)
						t.mem = append(t.mem, memEnt{base: n, off: sc(0), kind: 1, n: as[0].length, src: as[0], at: len(t.mem)})
						t.mem = append(t.mem, memEnt{base: n, off: as[0].length, kind: 1, n: as[1].length, src: as[1], at: len(t.mem)})
					}
				}
				t.set(in, s)
				t.events[len(t.events)-1].res = s
			}
		default:
			var r *sval
			if in.Dst != nil {
				r = x.leaf(in.Builtin+"@"+t.id(in), typ)
				t.set(in, r)
			}
			t.events = append(t.events, sevent{kind: "call", name: in.Builtin, args: as, in: in, res: r})
		}
		return
	}
	short := name
	if i := strings.LastIndexAny(short, "./"); i >= 0 {
		short = short[i+1:]
	}
	id := t.id(in)
	mkTup := func(base string) *sval {
		s := &sval{sym: base}
		if tt, ok := typ.(*types.Tuple); ok {
			for i := 0; i < tt.Len(); i++ {
				n := fmt.Sprintf("%s.%d", base, i)
				e := x.leaf(n, tt.At(i).Type())
				s.tup = append(s.tup, e)
			}
			return s
		}
		if typ != nil {
			return x.leaf(base, typ)
		}
		return s
	}
	isBytes := func(i int) bool { return i < len(in.Args) && isByteSlice(in.Args[i].Typ) }
	switch {
	case name == "io.ReadFull" || (short == "ReadFull" && isBytes(1)):
		r := mkTup(short + "@" + id)
		d := as[1]
		b, o := t.buf(d)
		if d.hasLen {
			t.mem = append(t.mem, memEnt{base: b, off: o, kind: 3, n: d.length, pos: t.pos})
			t.events = append(t.events, sevent{kind: "read", name: as[0].sym, args: []*sval{d, {lin: t.pos}}, in: in, res: r})
			t.pos = t.pos.add(d.length, 1)
			if len(r.tup) > 0 {
				r.tup[0] = x.fromLin(d.length, types.Typ[types.Int])
			}
		}
		t.set(in, r)
		return
	case short == "Peek" && len(as) == 2 && as[1].isInt:
		base := "peek@" + id
		r := mkTup(base)
		if len(r.tup) == 2 {
			r.tup[0] = &sval{sym: base, base: base, off: sc(0), length: as[1].lin, hasLen: true}
		}
		t.events = append(t.events, sevent{kind: "peek", name: base, args: []*sval{{lin: t.pos}, as[1]}, in: in, res: r})
		t.set(in, r)
		return
	case short == "Write" && len(as) == 2 && isBytes(1):
		r := mkTup("Write@" + id)
		d := as[1]
		t.events = append(t.events, sevent{kind: "write", name: as[0].sym, args: as, in: in, res: r, nm: len(t.mem)})
		t.emitOut(d)
		t.set(in, r)
		return
	}
	if k, ok := map[string]int64{"(time.Duration).Milliseconds": 1000000, "(time.Duration).Microseconds": 1000}[name]; ok && len(as) == 1 && in.Dst != nil {
		t.set(in, x.leaf(fmt.Sprintf("(%s / %d)", as[0].sym, k), typ))
		return
	}
	if r := t.scripted(name, as, typ, id); r != nil {
		t.set(in, r)
		return
	}
	r := mkTup(short + "@" + id)
	if in.Callee != nil && hsFacts[in.Callee.Name()] != nil && strings.HasSuffix(fnPkgPath(in.Callee), "format/rtmp") {
		hsFacts[in.Callee.Name()](t, as, r)
	}
	t.events = append(t.events, sevent{kind: "call", name: name, args: as, in: in, res: r, nm: len(t.mem)})
	if in.Dst != nil {
		t.set(in, r)
	}
	// what the callee may have written
	if in.Callee != nil && inModule(fnPkgPath(in.Callee)) || in.Callee == nil {
		for i, a := range as {
			if i < len(in.Args) && a.base != "" && a.base != "nil" && isByteSlice(in.Args[i].Typ) && !x.kept(in) && t.mayWrite(in, i) {
				b, o := t.buf(a)
				t.mem = append(t.mem, memEnt{base: b, off: o, kind: 4, part: true})
			}
		}
		if in.Callee != nil && !pureByName(in) {
			esc := t.escaped(as)
			for k := range t.cellv {
				if !t.ownMem(allocRoot(k)) || esc[allocRoot(k)] {
					delete(t.cellv, k)
				}
			}
			for k := range esc {
				delete(t.fresh, k)
			}
		}
	} else if (name == "crypto/rand.Read" || name == "math/rand.Read") && len(as) == 1 && as[0].hasLen {
		b, o := t.buf(as[0])
		src := &sval{sym: "rand@" + id, base: "rand@" + id, off: sc(0), length: as[0].length, hasLen: true}
		t.mem = append(t.mem, memEnt{base: b, off: o, kind: 1, n: as[0].length, src: src, at: len(t.mem)})
	} else if short == "Read" || short == "ReadAt" || short == "ReadAtLeast" {
		for i, a := range as {
			if i < len(in.Args) && isByteSlice(in.Args[i].Typ) {
				b, _ := t.buf(a)
				t.mem = append(t.mem, memEnt{base: b, kind: 4})
			}
		}
	}
}

func allocRoot(k string) string {
	if i := strings.IndexAny(k, ".["); i >= 0 {
		return k[:i]
	}
	return k
}

// appended records what the slice n was appended to.
func (t *Trace) appended(n string, a *sval) {
	if t.x.appSrc == nil {
		t.x.appSrc = map[string]string{}
	}
	t.x.appSrc[n] = ""
	if !a.isNil {
		t.x.appSrc[n] = "*"
		for _, s := range []string{a.base, a.sym} {
			if r := allocRoot(s); t.ownMem(r) {
				t.x.appSrc[n] = r
			}
		}
	}
}

// ownMem: an allocation of this path.
func (t *Trace) ownMem(root string) bool {
	if strings.HasPrefix(root, "alloc@") {
		return true
	}
	if s, ok := t.x.appSrc[root]; ok {
		return s == "" || s != "*" && t.ownMem(s)
	}
	return false
}

// escaped lists the allocations a callee outside the path can reach: those
// it is given, and those stored outside the path's own allocations.
func (t *Trace) escaped(args []*sval) map[string]bool {
	esc := map[string]bool{}
	var add func(s *sval, d int)
	add = func(s *sval, d int) {
		if s == nil || d > 4 {
			return
		}
		for _, n := range []string{s.sym, s.base} {
			if strings.HasPrefix(n, "&") {
				n = n[1:]
			}
			if r := allocRoot(n); t.ownMem(r) {
				esc[r] = true
			}
		}
		for _, f := range s.fields {
			add(f, d+1)
		}
		for _, f := range s.tup {
			add(f, d+1)
		}
		for _, l := range s.list {
			add(l.one, d+1)
			add(l.spread, d+1)
		}
	}
	for _, a := range args {
		add(a, 0)
	}
	for _, e := range t.events {
		switch e.kind {
		case "store":
			if !t.ownMem(allocRoot(e.name)) {
				add(e.args[0], 0)
			}
		case "mapset", "go", "defer", "send", "closure":
			for _, a := range e.args {
				add(a, 0)
			}
		}
	}
	for round := 0; round < 4; round++ {
		n := len(esc)
		for k, v := range t.cellv {
			if esc[allocRoot(k)] {
				add(v, 0)
			}
		}
		// a slice and the one it was appended to may share their elements
		for n, src := range t.x.appSrc {
			if src != "" && (esc[n] || esc[src]) {
				esc[n], esc[src] = true, true
			}
		}
		if len(esc) == n {
			break
		}
	}
	return esc
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && elemSize1(s.Elem()) == 1
}

func pureByName(in *Instr) bool { return in.Callee != nil && in.Callee.Name() == "Error" }

func (t *Trace) mayWrite(in *Instr, i int) bool {
	if in.Callee == nil || in.Callee.Blocks == nil || i >= len(in.Callee.Params) {
		return true
	}
	if !writesThrough(in.Callee, i, map[*ssa.Parameter]bool{}) {
		return false
	}
	if isByteSlice(in.Args[i].Typ) && !writesSlices(in.Callee, map[*ssa.Function]bool{}) {
		return false
	}
	// it writes no bytes at all
	sl, ok := in.Args[i].Typ.Underlying().(*types.Slice)
	e := t.x.f.P.effect(in.Callee)
	if !ok || e.all {
		return true
	}
	for _, ty := range e.typs {
		if types.Identical(ty.Underlying(), sl.Elem().Underlying()) || arrayOf(ty) != nil || structOf(ty) != nil && hasByteArray(ty, 0) {
			return true
		}
	}
	return false
}

// writesSlices: f, or what it calls, may write the bytes of a slice other
// than one it made, or that of an array in a variable or field.
func writesSlices(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	if f.Blocks == nil {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && isByteSlice(ia.X.Type()) && !ownBytes(ia.X, 0) {
					return true
				}
			case *ssa.MakeClosure:
				if g, ok := in.Fn.(*ssa.Function); ok && writesSlices(g, seen) {
					return true
				}
			case ssa.CallInstruction:
				c := in.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if (bi.Name() == "copy" || bi.Name() == "append") && isByteSlice(c.Args[0].Type()) && !ownBytes(c.Args[0], 0) {
						return true
					}
					continue
				}
				g := c.StaticCallee()
				if g != nil && inModule(fnPkgPath(g)) {
					if writesSlices(g, seen) {
						return true
					}
					continue
				}
				for _, a := range c.Args {
					if isByteSlice(a.Type()) && (g == nil || !readOnly[fnPkgPath(g)+"."+g.Name()]) {
						return true
					}
				}
				if g == nil {
					return true
				}
			}
		}
	}
	return false
}

func ownBytes(v ssa.Value, d int) bool {
	switch v := v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Const:
		return v.IsNil()
	case *ssa.Slice:
		if isByteSlice(v.X.Type()) {
			return d < 10 && ownBytes(v.X, d+1)
		}
		return pointee(v.X.Type()) != nil
	}
	return false
}

// hasByteArray: an array somewhere in a struct.
func hasByteArray(ty types.Type, d int) bool {
	if d > 6 || arrayOf(ty) != nil {
		return true
	}
	if s := structOf(ty); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if hasByteArray(s.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// emitOut appends the content of a byte slice to the output image.
func (t *Trace) emitOut(d *sval) {
	b, o := t.buf(d)
	if d.hasLen {
		n := d.length
		if n.konst() || t.constLen(&n) {
			if n.c <= 4096 && n.c >= 0 {
				for i := int64(0); i < n.c; i++ {
					t.out = append(t.out, oseg{bits: t.byteAt(b, o.add(sc(i), 1), len(t.mem)), n: sc(1)})
				}
				return
			}
		}
		t.out = append(t.out, oseg{blob: b + "[" + o.String() + "]", n: n, base: b, off: o})
		return
	}
	t.out = append(t.out, oseg{blob: b + "[" + o.String() + "]", n: sterm("len(" + d.sym + ")"), base: b, off: o})
}

func (t *Trace) constLen(n *slin) bool { return false }

func (t *Trace) dump() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "TRACE end=%v back=%v\n", t.end, t.back)
	for _, c := range t.conds {
		if c.op == 0 {
			fmt.Fprintf(&sb, "  if %s is %v\n", c.sym, !c.neg)
		} else {
			fmt.Fprintf(&sb, "  if %s %v 0\n", c.lin, c.op)
		}
	}
	for _, e := range t.events {
		var as []string
		for _, a := range e.args {
			as = append(as, a.str())
		}
		fmt.Fprintf(&sb, "  %s %s(%s)\n", e.kind, e.name, strings.Join(as, ", "))
	}
	for i, o := range t.out {
		fmt.Fprintf(&sb, "  out %d %s\n", i, o)
	}
	for _, m := range t.mem {
		if m.kind == 0 {
			fmt.Fprintf(&sb, "  mem %s[%s] = %s\n", m.base, m.off, bitStr(m.bits))
		} else {
			fmt.Fprintf(&sb, "  mem %s[%s] kind %d n %s\n", m.base, m.off, m.kind, m.n)
		}
	}
	for i, r := range t.ret {
		n := ""
		if j := i - t.x.f.NRes; j >= 0 && j < len(t.x.f.RetCells) {
			n = t.x.f.RetCells[j].String()
		}
		fmt.Fprintf(&sb, "  ret %s %s\n", n, r.str())
	}
	return sb.String()
}

func (s *sval) str() string {
	if s == nil {
		return "?"
	}
	if s.isInt {
		return s.lin.String() + " bits " + bitStr(s.bits)
	}
	if s.fields != nil {
		var ps []string
		for i := 0; i < len(s.fields); i++ {
			ps = append(ps, s.fields[i].str())
		}
		return "{" + strings.Join(ps, "; ") + "}"
	}
	if s.list != nil {
		return itemStr(s.list)
	}
	if s.sym == "" {
		return s.lin.String()
	}
	return s.sym
}

// items: what is known of the elements of a slice.
func (t *Trace) items(s *sval, ty types.Type) []litem {
	if s.list != nil {
		return s.list
	}
	if s.isNil || s.hasLen && t.isEq(s.length) {
		return []litem{}
	}
	if s.hasLen && s.length.konst() && strings.HasPrefix(s.base, "alloc@") && s.off.konst() && s.length.c <= 64 {
		out := []litem{}
		for i := int64(0); i < s.length.c; i++ {
			e := t.cellv[fmt.Sprintf("%s[%d]", s.base, s.off.c+i)]
			if e == nil {
				return []litem{{spread: s}}
			}
			out = append(out, litem{one: e})
		}
		return out
	}
	return []litem{{spread: s}}
}

func itemStr(l []litem) string {
	var ps []string
	for _, i := range l {
		if i.one != nil {
			ps = append(ps, i.one.str())
		} else {
			ps = append(ps, i.spread.str()+"...")
		}
	}
	return "[" + strings.Join(ps, ", ") + "]"
}
