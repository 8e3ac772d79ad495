package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: AMF0 and AMF3 values.

// amfWalk follows a value in the input along a path.
type amfWalk struct {
	t     *Trace
	at    slin
	total slin
	rec   string
	recs  []sevent
	sets  []sevent
	nrec  int
	nset  int
	mem   int    // content of the buffer: entries of mem that count
	stop  string // why the path must fail
	bad   string // what the path does wrong
}

func (t *Trace) isZero(l slin) int {
	switch {
	case t.isEq(l):
		return 1
	case t.isNeq(l):
		return 0
	}
	return -1
}

// need: there are n more bytes.
func (w *amfWalk) need(n slin) bool {
	if w.bad != "" || w.stop != "" {
		return false
	}
	left := w.total.add(w.at, -1).add(n, -1)
	switch {
	case w.t.implies(left):
		return true
	case w.t.implies(left.mul(-1).add(sc(-1), 1)):
		w.stop = "truncated"
	default:
		w.bad = fmt.Sprintf("%s bytes are taken at %s without a look at the length", n, w.at)
	}
	return false
}

func (w *amfWalk) bytes(n int) (bs []sbit) {
	for k := n - 1; k >= 0; k-- {
		bs = append(bs, w.t.byteLeaf("p0", w.at.add(sc(int64(k)), 1))...)
	}
	return
}

// u: an unsigned integer of n bytes.
func (w *amfWalk) u(n int) (*sval, bool) {
	if !w.need(sc(int64(n))) {
		return nil, false
	}
	v := w.t.x.fromBits(padBits(w.bytes(n), 64), types.Typ[types.Int])
	w.at = w.at.add(sc(int64(n)), 1)
	return v, true
}

// u29: an integer of up to four bytes, of 7 bits each but 8 in the last.
func (w *amfWalk) u29() (*sval, bool) {
	var bs []sbit
	for i := 0; i < 4; i++ {
		if !w.need(sc(1)) {
			return nil, false
		}
		b := w.bytes(1)
		w.at = w.at.add(sc(1), 1)
		if i == 3 {
			bs = append(append([]sbit{}, b...), bs...)
			break
		}
		bs = append(append([]sbit{}, b[:7]...), bs...)
		more, ok := w.t.fix[b[7]]
		if !ok {
			w.bad = fmt.Sprintf("whether byte %d of an integer is its last is not decided", i)
			return nil, false
		}
		if more == 0 {
			break
		}
	}
	return w.t.x.fromBits(padBits(bs, 64), types.Typ[types.Int]), true
}

// flagged splits a U29 that must have its low bits set as given: what is
// left of it.
func (w *amfWalk) flagged(v *sval, bits ...int) (*sval, bool) {
	for i, want := range bits {
		b := v.bits[i]
		k, ok := b.i, b.s == ""
		if !ok {
			k, ok = w.t.fix[b]
		}
		if !ok {
			w.bad = fmt.Sprintf("bit %d of a header is not looked at", i)
			return nil, false
		}
		if k != want {
			w.stop = "not supported"
			return nil, false
		}
	}
	return w.t.x.fromBits(padBits(v.bits[len(bits):], 64), types.Typ[types.Int]), true
}

type amfStr struct{ off, n slin }

func (w *amfWalk) take(n *sval) (amfStr, bool) {
	if !w.need(n.lin) {
		return amfStr{}, false
	}
	s := amfStr{w.at, n.lin}
	w.at = w.at.add(n.lin, 1)
	return s, true
}

func (w *amfWalk) str3() (amfStr, bool) {
	v, ok := w.u29()
	if !ok {
		return amfStr{}, false
	}
	if v, ok = w.flagged(v, 1); !ok {
		return amfStr{}, false
	}
	return w.take(v)
}

func (w *amfWalk) isStr(v *sval, s amfStr) bool {
	if v != nil && w.t.isEq(s.n) {
		return v.sym == `""` || v.hasLen && w.t.isEq(v.length)
	}
	return v != nil && v.hasLen && v.base == "p0" && w.t.isEq(v.off.add(s.off, -1)) && w.t.isEq(v.length.add(s.n, -1))
}

// value: the next value, read by the function itself.
func (w *amfWalk) value() (*sval, bool) {
	if w.bad != "" || w.stop != "" {
		return nil, false
	}
	if w.nrec >= len(w.recs) {
		w.bad = fmt.Sprintf("the value at %s is not read", w.at)
		return nil, false
	}
	e := w.recs[w.nrec]
	w.nrec++
	if at := w.t.cursorAt(e); !at.eq(w.at) && !w.t.isEq(at.add(w.at, -1)) {
		w.bad = fmt.Sprintf("a value is read at %s, not at %s", at, w.at)
		return nil, false
	}
	if !argIs(e, "p0") || len(e.res.tup) != 2 {
		w.bad = "a value is read from another buffer"
		return nil, false
	}
	switch w.t.nilState(e.res.tup[1]) {
	case 0:
		w.stop = "a nested value is invalid"
		return nil, false
	case -1:
		w.bad = "whether a nested value is valid is not looked at"
		return nil, false
	}
	w.at = w.t.cursorAfter(e)
	return e.res.tup[0], true
}

func argIs(e sevent, base string) bool {
	for _, a := range e.args {
		if a.base == base && a.off.eq(sc(0)) {
			return true
		}
	}
	return false
}

// cursorAt: the value of the cursor (*p1 of the walked function) at an event.
func (t *Trace) cursorAt(at sevent) slin {
	cur := sterm(t.cursor())
	for _, e := range t.events {
		if e.in == at.in && e.res == at.res {
			break
		}
		if e.kind == "store" && e.name == t.cursor() {
			cur = e.args[0].lin
		} else if e.kind == "call" && e.in.Callee != nil && t.movesCursor(e) {
			cur = t.cursorAfter(e)
		}
	}
	return cur
}

// cursor is the name of the pointer parameter that is the cursor.
func (t *Trace) cursor() string {
	for i, p := range t.x.f.Root.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			if b, ok := pt.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				return fmt.Sprintf("p%d", i)
			}
		}
	}
	return "?"
}

func (t *Trace) movesCursor(e sevent) bool {
	for _, a := range e.args {
		if a.sym == t.cursor() {
			return true
		}
	}
	return false
}

// cursorAfter: the cursor after a call that moves it, as the path has it.
func (t *Trace) cursorAfter(at sevent) slin {
	seen := false
	for _, e := range t.events {
		if e.in == at.in && e.res == at.res {
			seen = true
		} else if seen && e.kind == "havoc" && e.in.ClobBy == at.in && e.name == t.cursor() {
			return e.args[0].lin
		}
	}
	return sterm("?")
}

// set: the next pair stored in a map under construction.
func (w *amfWalk) set(obj *sval, isKey func(*sval) bool, val *sval) (*sval, bool) {
	if w.nset >= len(w.sets) {
		w.bad = "a member is dropped"
		return nil, false
	}
	e := w.sets[w.nset]
	w.nset++
	if len(e.args) != 3 || e.args[0].sym != obj.sym || !isKey(e.args[1]) || e.args[2].sym != val.sym {
		w.bad = fmt.Sprintf("a member is stored as Set(%s, %s, %s)", e.args[0].str(), e.args[1].str(), e.args[2].str())
		return nil, false
	}
	return e.res, true
}

// firstObj: the empty map members are added to.
func (w *amfWalk) firstObj() *sval {
	if len(w.sets) > 0 {
		o := w.sets[0].args[0]
		if o.isNil || o.hasLen && o.length.eq(sc(0)) {
			return o
		}
		w.bad = "a map does not start empty"
	}
	return nil
}

// isObj: the map returned.
func (w *amfWalk) isObj(v, obj *sval) bool {
	if w.nset != len(w.sets) {
		w.bad = "members are stored that are not there"
		return false
	}
	if obj != nil {
		return v != nil && v.sym == obj.sym
	}
	return v != nil && v.hasLen && v.length.eq(sc(0))
}

// amf0 compares a path of the AMF0 reader with the format. It returns the
// kind of the value.
func (w *amfWalk) amf0(v *sval) (kind string, same bool) {
	t := w.t
	if !w.need(sc(1)) {
		return "marker", false
	}
	m := int64(-1)
	for k := int64(0); k < 18 && m < 0; k++ {
		if t.isEq(t.x.fromBits(padBits(w.bytes(1), 64), types.Typ[types.Int]).lin.add(sc(-k), 1)) {
			m = k
		}
	}
	w.at = w.at.add(sc(1), 1)
	switch m {
	case 0, 11:
		if !w.need(sc(8)) {
			return "number", false
		}
		bs := w.bytes(8)
		w.at = w.at.add(sc(8), 1)
		f := w.float(bs)
		if m == 0 {
			return "number", f != "" && v != nil && v.sym == f
		}
		if !w.need(sc(2)) {
			return "date", false
		}
		w.at = w.at.add(sc(2), 1)
		return "date", w.dateIs(v, f)
	case 1:
		b, ok := w.u(1)
		if !ok {
			return "boolean", false
		}
		return "boolean", v != nil && (t.truth(v) == 1-t.isZero(b.lin) && t.truth(v) >= 0 || v.boolC != nil && boolOf(v, b.lin))
	case 2, 12:
		k := 2
		if m == 12 {
			k = 4
		}
		n, ok := w.u(k)
		if !ok {
			return "string", false
		}
		if t.failure(1) && t.beyondBuf(n.lin) {
			w.stop = "longer than the data"
			return "string", false
		}
		s, ok := w.take(n)
		return "string", ok && w.isStr(v, s)
	case 3, 8:
		if m == 8 {
			if _, ok := w.u(4); !ok {
				return "array", false
			}
		}
		obj := w.firstObj()
		for {
			n, ok := w.u(2)
			if !ok {
				return "object", false
			}
			z := t.isZero(n.lin)
			if z == 1 {
				break
			}
			if z < 0 {
				w.bad = "the end of an object is not looked for"
				return "object", false
			}
			key, ok := w.take(n)
			if !ok {
				return "object", false
			}
			val, ok := w.value()
			if !ok {
				return "object", false
			}
			if obj == nil {
				w.bad = "a member is dropped"
				return "object", false
			}
			if obj, ok = w.set(obj, func(k *sval) bool { return w.isStr(k, key) }, val); !ok {
				return "object", false
			}
		}
		if !w.need(sc(1)) {
			return "object", false
		}
		w.at = w.at.add(sc(1), 1)
		return "object", w.isObj(v, obj)
	case 5, 6:
		return "null", v != nil && v.isNil
	case 9:
		// the end of an object out of place: not specified
		return "", true
	case 10:
		n, ok := w.u(4)
		if !ok {
			return "strict array", false
		}
		if t.failure(1) && t.beyondBuf(n.lin) {
			w.stop = "longer than the data"
			return "strict array", false
		}
		var want []*sval
		for i := int64(0); ; i++ {
			if t.implies(sc(i).add(n.lin, -1)) {
				break
			}
			if !t.implies(n.lin.add(sc(-i-1), 1)) {
				w.bad = "the number of elements is not looked at"
				return "strict array", false
			}
			e, ok := w.value()
			if !ok {
				return "strict array", false
			}
			want = append(want, e)
		}
		got, ok := t.elems(v, types.NewInterfaceType(nil, nil))
		if !ok || len(got) != len(want) || v.isNil {
			return "strict array", false
		}
		for i := range got {
			if got[i].sym != want[i].sym {
				return "strict array", false
			}
		}
		return "strict array", true
	}
	w.stop = "not supported"
	return "other", false
}

// beyondBuf: the path has found no less than the whole buffer to be announced.
func (t *Trace) beyondBuf(n slin) bool {
	l := t.x.leaf("len(p0)", types.Typ[types.Int])
	for _, k := range []slin{l.lin, t.x.fromBits(padBits(l.bits[:32], 64), types.Typ[types.Int]).lin} {
		if t.implies(n.add(k, -1)) {
			return true
		}
	}
	return false
}

// boolOf: v is whether the unsigned l is not zero.
func boolOf(v *sval, l slin) bool {
	c := v.boolC
	switch c.op {
	case token.EQL:
		return c.neg && (c.lin.eq(l) || c.lin.eq(l.mul(-1)))
	case token.GEQ:
		return !c.neg && c.lin.eq(l.add(sc(-1), 1)) || c.neg && c.lin.eq(l.mul(-1))
	}
	return false
}

// float is the result of taking bits for a floating-point number.
func (w *amfWalk) float(bs []sbit) string {
	for _, e := range w.t.events {
		if e.kind == "call" && e.name == "math.Float64frombits" && len(e.args) == 1 && e.args[0].isInt && w.t.bitsEq(e.args[0].bits, bs) {
			return e.res.sym
		}
	}
	return ""
}

// dateIs: v is the time f milliseconds after the epoch.
func (w *amfWalk) dateIs(v *sval, f string) bool {
	if f == "" || v == nil {
		return false
	}
	i := "int(" + f + ")"
	for _, e := range w.t.events {
		if e.kind != "call" || e.res == nil || e.res.sym != v.sym {
			continue
		}
		switch e.name {
		case "time.Unix":
			s, ns := e.args[0].sym, e.args[1].sym
			return (s == "int(("+f+"/float:1000))" || s == "("+i+" / 1000)") && ns == "1000000*("+i+" % 1000)"
		case "time.UnixMilli":
			return e.args[0].sym == i
		}
	}
	return false
}

// amf3 compares a path of the AMF3 reader with the format.
func (w *amfWalk) amf3(v *sval) (kind string, same bool) {
	t := w.t
	if !w.need(sc(1)) {
		return "marker", false
	}
	m := int64(-1)
	for k := int64(0); k < 18 && m < 0; k++ {
		if t.isEq(t.x.fromBits(padBits(w.bytes(1), 64), types.Typ[types.Int]).lin.add(sc(-k), 1)) {
			m = k
		}
	}
	w.at = w.at.add(sc(1), 1)
	// named reads the pairs up to an empty key
	named := func(obj *sval) (*sval, bool) {
		for {
			key, ok := w.str3()
			if !ok {
				return nil, false
			}
			z := t.isZero(key.n)
			if z == 1 {
				return obj, true
			}
			if z < 0 {
				w.bad = "the end of the named members is not looked for"
				return nil, false
			}
			val, ok := w.value()
			if !ok {
				return nil, false
			}
			if obj == nil {
				w.bad = "a member is dropped"
				return nil, false
			}
			if obj, ok = w.set(obj, func(k *sval) bool { return w.isStr(k, key) }, val); !ok {
				return nil, false
			}
		}
	}
	more := func(i int64, n *sval) int {
		switch {
		case t.implies(sc(i).add(n.lin, -1)):
			return 0
		case t.implies(n.lin.add(sc(-i-1), 1)):
			return 1
		}
		w.bad = "the number of members is not looked at"
		return -1
	}
	switch m {
	case 0, 1:
		return "null", v != nil && v.isNil
	case 2, 3:
		return "boolean", t.truth(v) == int(m-2)
	case 4:
		n, ok := w.u29()
		return "integer", ok && v != nil && v.isInt && t.bitsEq(v.bits, n.bits)
	case 5:
		if !w.need(sc(8)) {
			return "double", false
		}
		f := w.float(w.bytes(8))
		w.at = w.at.add(sc(8), 1)
		return "double", f != "" && v != nil && v.sym == f
	case 6, 7, 11, 12:
		s, ok := w.str3()
		return "string", ok && w.isStr(v, s)
	case 8:
		n, ok := w.u29()
		if ok {
			_, ok = w.flagged(n, 1)
		}
		if !ok || !w.need(sc(8)) {
			return "date", false
		}
		f := w.float(w.bytes(8))
		w.at = w.at.add(sc(8), 1)
		return "date", w.dateIs(v, f)
	case 9:
		n, ok := w.u29()
		if ok {
			n, ok = w.flagged(n, 1)
		}
		if !ok {
			return "array", false
		}
		obj, ok := named(w.firstObj())
		for i := int64(0); ok; i++ {
			k := more(i, n)
			if k <= 0 {
				ok = k == 0
				break
			}
			var val *sval
			if val, ok = w.value(); !ok {
				break
			}
			if obj == nil {
				w.bad = "an element is dropped"
				return "array", false
			}
			obj, ok = w.set(obj, func(k *sval) bool { return t.isItoa(k, i) }, val)
		}
		return "array", ok && w.isObj(v, obj)
	case 10:
		n, ok := w.u29()
		if ok {
			n, ok = w.flagged(n, 1, 1, 0)
		}
		if !ok {
			return "object", false
		}
		if _, ok = w.str3(); !ok {
			return "object", false
		}
		obj := w.firstObj()
		cnt := t.x.fromBits(padBits(n.bits[1:], 64), types.Typ[types.Int])
		var keys []amfStr
		for i := int64(0); ; i++ {
			k := more(i, cnt)
			if k < 0 {
				return "object", false
			}
			if k == 0 {
				break
			}
			s, ok := w.str3()
			if !ok {
				return "object", false
			}
			keys = append(keys, s)
		}
		for _, key := range keys {
			val, ok := w.value()
			if !ok {
				return "object", false
			}
			if obj == nil {
				w.bad = "a member is dropped"
				return "object", false
			}
			if obj, ok = w.set(obj, func(k *sval) bool { return w.isStr(k, key) }, val); !ok {
				return "object", false
			}
		}
		dyn, known := t.fix[n.bits[0]]
		if !known {
			w.bad = "whether an object is dynamic is not looked at"
			return "object", false
		}
		if dyn == 1 {
			if obj, ok = named(obj); !ok {
				return "object", false
			}
		}
		return "object", w.isObj(v, obj)
	}
	w.stop = "not supported"
	return "other", false
}

func (t *Trace) isItoa(k *sval, i int64) bool {
	for _, e := range t.events {
		if e.kind == "call" && e.name == "strconv.Itoa" && e.res != nil && k != nil && e.res.sym == k.sym {
			return t.intIs(e.args[0], i)
		}
	}
	return false
}

// recursive finds the function an exported reader leaves the work to: the
// one that calls itself.
func (r *Report) recursive(name string, stops ...string) (*Fn, string) {
	f := r.buildFor(name, stopAt(stops...))
	if f == nil {
		return nil, ""
	}
	for fn := range f.funcs {
		if r.P.reachesFn(fn, anchorName(fn)) && f.Opaque[fnName(fn)] > 0 {
			return f, anchorName(fn)
		}
	}
	return f, anchorName(f.Root)
}

func (r *Report) amfParse(name string, check func(w *amfWalk, v *sval) (string, bool), kinds map[string]int, max, turns int) {
	const setFn = "format/flv/flvio:AMFMap.Set"
	f, rec := r.recursive("format/flv/flvio:"+name, setFn)
	if f == nil {
		return
	}
	ts, over := tracesInit(f, max, map[string]int{"p1": 48}, turns, false, nil, nil)
	if over {
		r.fail("paths|"+name, r.P.pos(f.Root.Pos()), "too many paths to analyse")
		return
	}
	n, _ := r.Cov["paths_walked"].(int)
	r.Cov["paths_walked"] = n + len(ts)
	got := map[string]int{}
	for _, t := range ts {
		c := chk{r, t, "amf|" + name}
		if t.back {
			continue
		}
		if t.end == nil || len(t.ret) < 2 || t.okRes(1) < 0 {
			c.bad("end", "a path does not end in a plain result")
			return
		}
		w := &amfWalk{t: t, at: sterm(t.cursor()), total: t.inLen(), recs: t.calls(rec), sets: t.calls(setFn)}
		kind, same := check(w, t.ret[0])
		switch {
		case w.bad != "":
			c.bad("read", "%s: %s", kind, w.bad)
			return
		case w.stop != "":
			if t.okRes(1) != 0 {
				c.bad("error", "%s: %s, but this is no error", kind, w.stop)
				return
			}
		case kind == "":
			continue
		case t.okRes(1) == 0:
			c.bad("refused", "a complete %s is refused", kind)
			return
		case !same:
			c.bad("value", "the %s read is %s", kind, t.ret[0].str())
			return
		default:
			if w.nrec != len(w.recs) {
				c.bad("values", "%s: more values are read than there are", kind)
				return
			}
			if fin := t.finalCursor(); !fin.eq(w.at) && !t.isEq(fin.add(w.at, -1)) {
				c.bad("cursor", "%s: the cursor is left at %s, not %s", kind, fin, w.at)
				return
			}
			got[kind]++
		}
		r.ok("")
	}
	for k, n := range kinds {
		r.need(name+" walks of "+k, got[k], n)
	}
}

func (t *Trace) finalCursor() slin {
	return t.cursorAt(sevent{})
}

// depthBound: a function that calls itself does so one level deeper, and not
// beyond a constant depth.
func (r *Report) depthBound(name string) {
	_, rec := r.recursive("format/flv/flvio:" + name)
	f := r.buildFor(rec, nil)
	if f == nil {
		return
	}
	n := 0
	p := -1
	for _, t := range r.walkInitN(f, 60000, 2, nil) {
		for _, e := range t.calls(rec) {
			c := chk{r, t, "amf|depth|" + name}
			found := false
			for i := range f.Root.Params {
				if i >= len(e.args) || !e.args[i].isInt || p >= 0 && p != i {
					continue
				}
				s := sterm(fmt.Sprintf("p%d", i))
				d := e.args[i].lin.add(s, -1)
				if d.konst() && d.c > 0 && t.implies(sc(10000).add(s, -1)) {
					found, p = true, i
				}
			}
			if !found {
				c.bad("unbounded", "%s calls itself for a nested value with no limit on the depth", rec)
				return
			}
			n++
			r.ok("")
		}
	}
	r.need(name+" nested calls", n, 2)
}

// amfFill: what is written for a value of each type.
func (r *Report) amfFill() {
	const name = "format/flv/flvio:FillAMF0Val"
	f := r.buildFor(name, nil)
	if f == nil {
		return
	}
	got := map[string]int{}
	for _, t := range r.walkInitN(f, 4000, 3, nil) {
		if t.back {
			continue
		}
		c := chk{r, t, "amf|FillAMF0Val"}
		nilBuf := t.truth(&sval{sym: "p0==nil"})
		if t.end == nil {
			c.bad("end", "a path does not end")
			return
		}
		ty := ""
		for s, v := range t.bools {
			if v && strings.HasPrefix(s, "p2.(") && strings.HasSuffix(s, ").ok") {
				ty = s[4 : len(s)-4]
			}
		}
		val := "p2.(" + ty + ")"
		at := sterm("p1")
		from := 0
		calls := t.calls(name)
		bad := ""
		put := func(what string, bits []sbit) {
			for k := len(bits)/8 - 1; k >= 0 && bad == ""; k-- {
				if nilBuf != 1 {
					// bytes are written before the next call
					n := len(t.mem)
					if from < len(calls) {
						n = calls[from].nm
					}
					if g := t.byteAt("p0", at, n); !t.bitsEq(g, bits[8*k:8*k+8]) {
						bad = fmt.Sprintf("%s has the byte %s, not %s", what, bitStr(g), bitStr(bits[8*k:8*k+8]))
					}
				}
				at = at.add(sc(1), 1)
			}
		}
		blob := func(s string) {
			if bad == "" && nilBuf != 1 {
				found := false
				for _, m := range t.mem {
					if m.base == "p0" && m.kind == 1 && m.off.eq(at) && m.src != nil && (m.src.base == s || m.src.sym == s) {
						found = true
					}
				}
				if !found {
					bad = s + " is not written at " + at.String()
				}
			}
			at = at.add(sterm("len("+s+")"), 1)
		}
		nested := func(s string) {
			if bad != "" {
				return
			}
			if from >= len(calls) {
				bad = s + " is not written"
				return
			}
			e := calls[from]
			from++
			if len(e.args) != 3 || e.args[0].base != "p0" || e.args[1].sym != "p1" || e.args[2].sym != s {
				bad = fmt.Sprintf("FillAMF0Val(%s, %s, %s) for %s", e.args[0].str(), e.args[1].str(), e.args[2].str(), s)
				return
			}
			if cur := t.cursorAt(e); !cur.eq(at) {
				bad = fmt.Sprintf("%s is written at %s, not %s", s, cur, at)
				return
			}
			at = t.cursorAfter(e)
		}
		number := func(ok func(*sval) bool) {
			for _, e := range t.events {
				if e.kind == "call" && e.name == "math.Float64bits" && ok(e.args[0]) {
					put("the number", e.res.bits)
					return
				}
			}
			bad = "the number is not " + val
		}
		list := func(member func(i int64) bool) {
			for i := int64(0); bad == ""; i++ {
				if t.implies(sc(i).add(sterm("len("+val+")"), -1)) {
					return
				}
				if !t.implies(sterm("len("+val+")").add(sc(-i-1), 1)) || !member(i) {
					if bad == "" {
						bad = "the members are not all written"
					}
					return
				}
			}
		}
		pairs := func() {
			list(func(i int64) bool {
				k := fmt.Sprintf("%s[%d].K", val, i)
				n := sterm("len(" + k + ")")
				if t.implies(n.add(sc(-1), 1)) && t.implies(sc(65535).add(n, -1)) {
					put("the key length", fld("len("+k+")", 15, 0))
					blob(k)
					nested(fmt.Sprintf("%s[%d].V", val, i))
					return true
				}
				// cannot be written
				return t.implies(n.mul(-1)) || t.implies(n.add(sc(-65536), 1))
			})
			put("the end", cbits(9, 24))
		}
		switch ty {
		case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "float32":
			put("the marker", cbits(0, 8))
			number(func(a *sval) bool { return a.sym == "float("+val+")" || a.sym == "float64("+val+")" || a.sym == val })
		case "float64":
			put("the marker", cbits(0, 8))
			number(func(a *sval) bool { return a.sym == val })
		case "string":
			n := sterm("len(" + val + ")")
			if t.implies(sc(65535).add(n, -1)) {
				put("the marker", cbits(2, 8))
				put("the length", fld("len("+val+")", 15, 0))
			} else if t.implies(n.add(sc(-65536), 1)) {
				put("the marker", cbits(12, 8))
				put("the length", fld("len("+val+")", 31, 0))
			} else {
				bad = "the length is not looked at"
			}
			blob(val)
		case "bool":
			put("the marker", cbits(1, 8))
			switch t.truth(&sval{sym: val}) {
			case 1:
				put("the value", cbits(1, 8))
			case 0:
				put("the value", cbits(0, 8))
			default:
				bad = "the value is not looked at"
			}
		case "time.Time":
			put("the marker", cbits(11, 8))
			number(func(a *sval) bool { return t.isMilli(a.sym, val) })
			put("the time zone", cbits(0, 16))
		case "flvio.AMFMap":
			put("the marker", cbits(3, 8))
			pairs()
		case "flvio.AMFECMAArray":
			put("the marker", cbits(8, 8))
			put("the count", fld("len("+val+")", 31, 0))
			pairs()
		case "flvio.AMFArray":
			put("the marker", cbits(10, 8))
			put("the count", fld("len("+val+")", 31, 0))
			list(func(i int64) bool { nested(fmt.Sprintf("%s[%d]", val, i)); return bad == "" })
		case "":
			ty = "other"
			put("the marker", cbits(5, 8))
		default:
			// a type of its own
			continue
		}
		if fin := t.finalCursor(); bad == "" && !fin.eq(at) {
			bad = fmt.Sprintf("the cursor is left at %s, not %s", fin, at)
		}
		if bad == "" && from != len(calls) {
			bad = "more values are written"
		}
		if bad != "" {
			c.bad("fill", "%s: %s", ty, bad)
			return
		}
		k := ty
		if nilBuf == 1 {
			k += " counted"
		}
		got[k]++
		r.ok("")
	}
	for _, k := range []string{"int", "int32", "uint32", "float64", "string", "bool", "time.Time", "flvio.AMFMap", "flvio.AMFECMAArray", "flvio.AMFArray", "other"} {
		r.need("writes of "+k, got[k], 1)
		r.need("counts of "+k, got[k+" counted"], 1)
	}
}

// isMilli: the milliseconds of a time since the epoch.
func (t *Trace) isMilli(s, val string) bool {
	u, ns := "", ""
	for _, e := range t.events {
		if e.kind != "call" || len(e.args) != 1 || e.args[0].sym != val || e.res == nil {
			continue
		}
		switch e.name {
		case "(time.Time).Unix":
			u = e.res.sym
		case "(time.Time).Nanosecond":
			ns = e.res.sym
		case "(time.Time).UnixMilli":
			if s == "float("+e.res.sym+")" {
				return true
			}
		}
	}
	if u == "" || ns == "" {
		return false
	}
	return s == "float("+sterm(u).mul(1000).add(sterm("("+ns+" / 1000000)"), 1).String()+")"
}

// amfMap: the members of a map.
func (r *Report) amfMap() {
	pk := "format/flv/flvio:AMFMap."
	set := r.buildFor(pk+"Set", nil)
	get := r.buildFor(pk+"Get", nil)
	if set == nil || get == nil {
		return
	}
	n := 0
	for l := 0; l <= 3; l++ {
		init := map[string][]sbit{"len(p0)": ci(int64(l))}
		for _, t := range r.walkInitN(get, 400, l+2, init) {
			c := chk{r, t, "amf|AMFMap.Get"}
			hit := t.firstKey(l)
			if t.end == nil || t.back || len(t.ret) != 1 || hit < -1 {
				c.bad("end", "a path does not decide which member is meant")
				return
			}
			if v := t.ret[0]; hit < 0 && !v.isNil || hit >= 0 && v.base != fmt.Sprintf("p0[%d]", hit) {
				c.bad("member", "of %d members, %s is returned for member %d", l, v.str(), hit)
				return
			}
			n++
			r.ok("")
		}
		for _, t := range r.walkInitN(set, 400, l+2, init) {
			c := chk{r, t, "amf|AMFMap.Set"}
			hit := t.firstKey(l)
			if t.end == nil || t.back || len(t.ret) != 1 || hit < -1 {
				c.bad("end", "a path does not decide which member is meant")
				return
			}
			v := t.ret[0]
			if hit >= 0 {
				if s := t.lastStore(fmt.Sprintf("p0[%d].V", hit)); s == nil || s.sym != "p2" || v.base != "p0" && v.sym != "p0" || t.storesTo("p0") != 1 {
					c.bad("replace", "the value of member %d is not replaced", hit)
					return
				}
			} else {
				es, ok := t.items2(v)
				if !ok || len(es) == 0 || t.storesTo("p0") != 0 {
					c.bad("append", "a new member is not added")
					return
				}
				last := es[len(es)-1]
				if k, x := last.fieldOf("K"), last.fieldOf("V"); k == nil || k.sym != "p1" || x == nil || x.sym != "p2" {
					c.bad("append", "a new member is not added at the end")
					return
				}
			}
			n++
			r.ok("")
		}
	}
	r.need("walks of maps", n, 14)
}

// storesTo counts the stores to parts of what a parameter refers to.
func (t *Trace) storesTo(base string) (n int) {
	for _, e := range t.events {
		if e.kind == "store" && (strings.HasPrefix(e.name, base+"[") || strings.HasPrefix(e.name, base+".")) {
			n++
		}
	}
	return n + len(t.stored())
}

// items2 lists the elements an append added one by one.
func (t *Trace) items2(s *sval) (out []*sval, ok bool) {
	for _, l := range s.list {
		if l.one != nil {
			out = append(out, l.one)
		}
	}
	return out, s.list != nil
}

// firstKey: the first of n members with the key asked for, -1 for none, -2
// when the path does not decide it.
func (t *Trace) firstKey(n int) int {
	for i := 0; i < n; i++ {
		k := -1
		for s, v := range t.bools {
			if strings.Contains(s, fmt.Sprintf("p0[%d].K", i)) && strings.Contains(s, "p1") {
				k = 0
				if v {
					k = 1
				}
			}
		}
		switch k {
		case 1:
			return i
		case -1:
			return -2
		}
	}
	return -1
}

var _ = (*ssa.Function)(nil)

func init() {
	register("C12", "proof", func(r *Report, thorough bool) {
		r.rule("Every path of the AMF readers and of the writer is followed over symbolic bytes and values and compared with the AMF0 and AMF3 formats, with nested values left to the recursive call.")
		r.amfFill()
		r.amfParse("ParseAMF0Val", (*amfWalk).amf0, map[string]int{"number": 1, "boolean": 1, "string": 2, "object": 4, "null": 2, "strict array": 2, "date": 1}, 4000, 3)
		r.amfParse("ParseAMF3Val", (*amfWalk).amf3, map[string]int{"null": 2, "boolean": 2, "integer": 4, "double": 1, "string": 4, "date": 1, "array": 4, "object": 4}, 60000, 2)
		r.depthBound("ParseAMF0Val")
		r.depthBound("ParseAMF3Val")
		r.amfMap()
	})
}
