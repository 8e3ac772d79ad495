package main

import (
	"fmt"
	"go/constant"
	"regexp"
	"strconv"
	"strings"
)

// C31: descriptions. The loops over lines, words and parameters are walked
// for any turn of each.

// cut: the two parts of a string at its first separator; has is whether
// there are two: 1, 0, -1.
func (w *rtpWalk) cut(src, sep string) (a, b string, has int) {
	for _, e := range w.t.events {
		if e.kind != "call" || len(e.args) < 2 || e.args[0].sym != src || e.args[1].sym != strconv.Quote(sep) {
			continue
		}
		s := e.res.sym
		switch {
		case extern(e, "strings.SplitN") && constVal(e.args[2]) == 2:
			n := w.len(s)
			has = -1
			if w.ge(n, sc(2)) {
				has = 1
			} else if w.ge(sc(1), n) || w.t.isNeq(n.add(sc(-2), 1)) {
				has = 0
			}
			return s + "[0]", s + "[1]", has
		case extern(e, "strings.Cut"):
			return e.res.tup[0].sym, e.res.tup[1].sym, w.t.truth(e.res.tup[2])
		}
	}
	return "", "", -1
}

// parts: the list a string is split into.
func (w *rtpWalk) parts(src, sep string) string {
	for _, e := range w.extCalls("strings.Split") {
		if e.args[0].sym == src && e.args[1].sym == strconv.Quote(sep) {
			return e.res.sym
		}
	}
	return ""
}

var elemRe = regexp.MustCompile(`^(.*)\[(phi\d+)(?:\+(\d+))?\]$`)

// turnOf: the element of a list that a turn of a loop over it is about.
func (w *rtpWalk) turnOf(list string) string {
	if list == "" {
		return ""
	}
	for _, e := range w.t.events {
		for _, a := range e.args {
			if m := elemRe.FindStringSubmatch(a.sym); m != nil && m[1] == list {
				w.loop(m[2], m[3])
				return a.sym
			}
		}
	}
	return ""
}

// loop: a loop variable starts at the first element and takes them one by one.
func (w *rtpWalk) loop(phi, plus string) {
	off, _ := strconv.ParseInt("0"+plus, 10, 64)
	start := false
	for _, b := range w.t.x.f.Blocks {
		for _, in := range b.Instrs {
			if in.Op != OpPhi || fmt.Sprintf("phi%d", in.Dst.ID) != phi {
				continue
			}
			for _, a := range in.Args {
				if a.Kind == VConst && a.C != nil && a.C.Kind() == constant.Int {
					n, _ := constant.Int64Val(a.C)
					start = n+off == 0
				}
			}
		}
	}
	if !start {
		w.fail("a loop does not start at the first element")
	}
	for _, v := range w.t.back2 {
		if fmt.Sprintf("phi%d", v.phi.ID) == phi && !w.is(v.val.lin.add(w.t.x.leaf(phi, tInt).lin, -1).add(sc(-1), 1)) {
			w.fail("a loop leaves elements out")
		}
	}
}

// carried: what a loop variable of a type is at the end of the turn; ok is
// false when the path does not end a turn of that loop.
func (w *rtpWalk) carried(typ string) (phi string, v *sval, ok bool) {
	for _, p := range w.t.back2 {
		if p.phi.Typ.String() == strings.Replace(typ, "Media", "github.com/nareix/joy5/format/rtsp/sdp.Media", 1) {
			return fmt.Sprintf("phi%d", p.phi.ID), p.val, true
		}
	}
	return "", nil, false
}

// same: the loop variables of lists and current media do not change.
func (w *rtpWalk) same(types ...string) {
	for _, ty := range types {
		if phi, v, ok := w.carried(ty); ok && v.sym != phi {
			w.fail("a line of another kind changes the medias")
		}
	}
}

func (w *rtpWalk) noStores() {
	for _, e := range w.t.events {
		if e.kind == "store" && !strings.HasPrefix(e.name, "alloc@") {
			w.fail("changes %s", phiRe.ReplaceAllString(e.name, "media"))
		}
	}
}

func (r *Report) sdpParse() {
	f := r.buildFor("format/rtsp/sdp:Parse", nil)
	if f == nil {
		return
	}
	ts, over := tracesOpt(f, 20000, nil, 1, true, nil)
	if over {
		r.fail("paths|Parse", r.P.pos(f.Root.Pos()), "too many paths to analyse")
		return
	}
	got := map[string]int{}
	for _, t := range ts {
		w := &rtpWalk{t: t, c: chk{r, t, "rtp|sdp"}}
		k := w.sdpLine(got)
		if w.bad != "" {
			w.c.bad(k, "%s", w.bad)
			return
		}
		got[k]++
		r.ok("description: " + k)
	}
	for _, k := range []string{"end", "other", "media", "other media", "no media", "attribute", "control", "rtpmap", "clock", "H264", "MPEG4-GENERIC", "config", "sizelength", "indexlength", "sprop-parameter-sets"} {
		r.need("lines of a description: "+k, got[k], 1)
	}
}

func (w *rtpWalk) sdpLine(got map[string]int) string {
	t := w.t
	lines := w.parts("p0", "\n")
	raw := w.turnOf(lines)
	if raw == "" {
		w.noStores()
		if t.back || len(t.ret) != 2 || !t.ret[1].isNil && (phiRe.FindString(t.ret[1].str()) != t.ret[1].str() || t.ret[1].base != t.ret[1].sym && t.ret[1].base != "" || t.ret[1].hasLen && !w.is(t.ret[1].length.add(w.len(t.ret[1].sym), -1))) {
			w.fail("the medias found are not returned")
		}
		return "end"
	}
	line := ""
	for _, e := range w.extCalls("strings.TrimSpace") {
		if e.args[0].sym == raw {
			line = e.res.sym
		}
	}
	typ, val, has := w.cut(line, "=")
	idle := func(k string) string {
		w.noStores()
		w.same("*Media", "[]Media")
		return k
	}
	switch {
	case has == 0:
		return idle("other")
	case has < 0:
		w.fail("a line is not taken apart at its first =")
		return "other"
	}
	kind := ""
	for _, k := range []string{"m", "a", "u"} {
		if w.strIs(typ, k) == 1 {
			kind = k
		}
	}
	if kind == "" {
		for _, k := range []string{"m", "a"} {
			if w.strIs(typ, k) != 0 {
				w.fail("does not look whether a line is one of %s=", k)
			}
		}
		return idle("other")
	}
	if kind == "u" {
		return idle("other")
	}
	first, rest, two := w.cut(val, " ")
	if kind == "m" {
		return w.sdpMedia(first, rest, two)
	}
	// an attribute
	for b, v := range t.bools {
		if p := plain(b); strings.HasPrefix(p, "phi") && strings.HasSuffix(p, "==nil") && v {
			return idle("no media")
		}
	}
	w.same("*Media", "[]Media")
	if first == "" {
		w.fail("an attribute is not taken apart")
		return "attribute"
	}
	list := strings.TrimSuffix(strings.TrimSuffix(first, "[0]"), ".0")
	field := w.turnOf(list)
	if field == "" {
		w.noStores()
		return "attribute"
	}
	media, want := "", map[string]string{}
	for _, e := range t.events {
		if e.kind == "store" && !strings.HasPrefix(e.name, "alloc@") {
			i := strings.Index(e.name, ".")
			if i < 0 || !strings.HasPrefix(e.name, "phi") {
				w.fail("changes %s", e.name)
				return "attribute"
			}
			if media == "" {
				media = e.name[:i]
			}
			if media != e.name[:i] {
				w.fail("changes two medias")
			}
		}
	}
	at := func(name, want string) {
		want = strings.TrimSpace(want)
		v := w.cell(media + "." + name)
		if v == nil || media == "" {
			w.fail("%s of the media is not set", name)
			return
		}
		if got := symOf(v); got != want {
			w.fail("%s of the media is %s, not %s", name, got, want)
		}
	}
	atoi := func(s string) (n string, ok int) {
		for _, e := range w.extCalls("strconv.Atoi") {
			if e.args[0].sym == s {
				return symOf(e.res.tup[0]), t.nilState(errOf(e))
			}
		}
		return "", -1
	}
	// name:value
	key, v, has := w.cut(field, ":")
	switch has {
	case 1:
		switch {
		case w.strIs(key, "control") == 1:
			want["Control"] = v
			got0 := v
			at("Control", got0)
			got["control"]++
		case w.strIs(key, "rtpmap") == 1:
			want["Rtpmap"] = v
			if n, _ := atoi(v); n != "" {
				at("Rtpmap", n)
			} else {
				w.fail("the payload type of a map is not read")
			}
			got["rtpmap"]++
		case w.strIs(key, "control") != 0:
			w.fail("does not look whether an attribute is control")
		}
	case -1:
		w.fail("a word of an attribute is not taken apart at its first :")
	}
	// encoding/clock, in a map only
	isMap := -1
	for _, e := range w.extCalls("strings.HasPrefix") {
		if e.args[0].sym == first && e.args[1].sym == `"rtpmap:"` {
			isMap = t.truth(e.res)
		}
	}
	if k, _, h := w.cut(first, ":"); isMap < 0 && h == 1 {
		isMap = w.strIs(k, "rtpmap")
	} else if isMap < 0 && h == 0 {
		isMap = 0
	}
	slash := w.parts(field, "/")
	if isMap == 1 && slash == "" {
		w.fail("a map is not taken apart")
	}
	if isMap == 1 && slash != "" {
		n := w.len(slash)
		switch {
		case w.ge(n, sc(2)):
			if ok := w.clock(slash, atoi, at, want, got); !ok {
				return "attribute"
			}
		case !w.ge(sc(1), n):
			w.fail("does not look whether a map has a clock rate")
		}
	} else if isMap < 0 && slash != "" && w.ge(w.len(slash), sc(2)) {
		w.fail("does not look whether an attribute is a map")
	}
	// parameters
	list = w.parts(field, ";")
	if list == "" {
		w.fail("the parameters are not taken apart")
		return "attribute"
	}
	if p := w.turnOf(list); p != "" {
		w.param(p, atoi, at, want, got)
	} else if !w.ge(sc(0), w.len(list)) && !w.over(list) {
		w.fail("parameters are left out")
	}
	for _, e := range t.events {
		if e.kind != "store" || media == "" || !strings.HasPrefix(e.name, media+".") {
			continue
		}
		if _, ok := want[e.name[len(media)+1:]]; !ok {
			w.fail("%s of the media changes", e.name[len(media)+1:])
		}
	}
	return "attribute"
}

// over: a loop over a list has come to its end.
func (w *rtpWalk) over(list string) bool {
	n := w.len(list)
	for _, c := range w.t.conds {
		if s := c.lin.String(); strings.Contains(s, "phi") && strings.Contains(s, "-"+n.String()) {
			return true
		}
	}
	return false
}

func (w *rtpWalk) clock(slash string, atoi func(s string) (string, int), at func(name, want string), want map[string]string, got map[string]int) bool {
	enc := ""
	for name, typ := range map[string]string{"H264": "H264", "MPEG4-GENERIC": "AAC"} {
		is := -1
		for _, e := range w.extCalls("strings.ToUpper") {
			if e.args[0].sym == slash+"[0]" {
				is = w.strIs(e.res.sym, name)
			}
		}
		for _, e := range w.extCalls("strings.EqualFold") {
			if e.args[0].sym == slash+"[0]" && e.args[1].sym == strconv.Quote(name) {
				is = w.t.truth(e.res)
			}
		}
		switch is {
		case 1:
			enc = name
			want["Type"] = typ
			at("Type", strconv.FormatInt(w.c.r.pkgConst("av", typ), 10))
			got[name]++
		case -1:
			if enc == "" && want["Type"] == "" {
				want["?"] = name
			}
		}
	}
	if enc == "" && want["?"] != "" {
		w.fail("does not look whether the encoding is %s", want["?"])
	}
	delete(want, "?")
	n, ok := atoi(slash + "[1]")
	if n == "" || ok < 0 {
		w.fail("the clock rate is not read")
		return false
	}
	if ok == 1 {
		want["TimeScale"] = n
		at("TimeScale", n)
		got["clock"]++
	}
	return true
}

// param: one parameter, name=value.
func (w *rtpWalk) param(p string, atoi func(s string) (string, int), at func(name, want string), want map[string]string, got map[string]int) {
	k, v, has := w.cut(p, "=")
	if has == 0 {
		return
	}
	if has < 0 {
		w.fail("a parameter is not taken apart at its first =")
		return
	}
	key := ""
	vals := map[string]bool{v: true}
	for _, e := range w.extCalls("strings.TrimSpace") {
		if e.args[0].sym == k {
			key = e.res.sym
		}
		if e.args[0].sym == v {
			vals[e.res.sym] = true
		}
	}
	if key == "" {
		w.fail("the name of a parameter keeps the space before it")
		return
	}
	field := map[string]string{"config": "Config", "sizelength": "SizeLength", "indexlength": "IndexLength", "sprop-parameter-sets": "SpropParameterSets"}
	name, open := "", ""
	for n := range field {
		switch w.strIs(key, n) {
		case 1:
			name = n
		case -1:
			open = n
		}
	}
	if name == "" {
		if open != "" {
			w.fail("does not look whether a parameter is %s", open)
		}
		return
	}
	one := func(calls []sevent, arg int) string {
		for _, e := range calls {
			if vals[e.args[arg].sym] {
				return symOf(e.res.tup[0])
			}
		}
		return ""
	}
	f := field[name]
	want[f] = name
	switch name {
	case "config":
		if s := one(w.extCalls("encoding/hex.DecodeString"), 0); s != "" {
			at(f, s)
		} else {
			w.fail("config is not read as hexadecimal digits")
		}
	case "sizelength", "indexlength":
		if s := one(w.extCalls("strconv.Atoi"), 0); s != "" {
			at(f, s)
		} else {
			w.fail("%s is not read as a number", name)
		}
	default:
		list := ""
		for s := range vals {
			if l := w.parts(s, ","); l != "" {
				list = l
			}
		}
		set := w.turnOf(list)
		if set == "" {
			if list == "" || !w.over(list) && !w.ge(sc(0), w.len(list)) {
				w.fail("the parameter sets are not taken apart")
			}
			return
		}
		d := ""
		for _, e := range w.extCalls("(*encoding/base64.Encoding).DecodeString") {
			if e.args[0].sym == "g:encoding/base64.StdEncoding" && e.args[1].sym == set {
				d = symOf(e.res.tup[0])
			}
		}
		if d == "" {
			w.fail("a parameter set is not read as base64")
			return
		}
		ok := false
		for _, e := range w.t.events {
			if e.kind == "store" && strings.HasSuffix(e.name, "."+f) {
				ok = symOf(e.args[0]) == "["+plain(e.name)+"..., "+d+"]"
			}
		}
		if !ok {
			w.fail("a parameter set is not added after the others")
		}
	}
	got[name]++
}

func (w *rtpWalk) sdpMedia(first, rest string, two int) string {
	t := w.t
	none := func(k string) string {
		w.noStores()
		w.same("[]Media")
		if _, v, ok := w.carried("*Media"); !ok || t.nilState(v) != 1 && !v.isNil {
			w.fail("the attributes of a media that is left out would go to another one")
		}
		return k
	}
	switch two {
	case 0:
		return none("other media")
	case -1:
		w.fail("a media is not taken apart")
		return "media"
	}
	is := 0
	for _, k := range []string{"audio", "video"} {
		switch w.strIs(first, k) {
		case 1:
			is = 1
		case -1:
			if is == 0 {
				is = -1
			}
		}
	}
	switch is {
	case 0:
		return none("other media")
	case -1:
		w.fail("does not look whether a media is audio or video")
		return "media"
	}
	list, _, _ := w.carried("[]Media")
	_, lv, ok1 := w.carried("[]Media")
	_, mv, ok2 := w.carried("*Media")
	l := pick(t.events, func(e sevent) bool { return e.kind == "append" })
	if !ok1 || !ok2 || len(l) != 1 || l[0].args[0].sym != list || len(lv.list) != 2 || lv.list[1].one == nil {
		w.fail("a media is not added after the others")
		return "media"
	}
	m := lv.list[1].one
	for i := 0; m.ftyp != nil && i < m.ftyp.NumFields(); i++ {
		v := m.fields[i]
		switch n := m.ftyp.Field(i).Name(); {
		case n == "AVType":
			if v.sym != first {
				w.fail("the media is of another kind")
			}
		case n == "PayloadType" && !v.isInt:
			w.fail("a media has a payload type")
		case v.isInt && !w.is(v.lin) && n != "PayloadType", !v.isInt && v.sym != `""` && !v.isNil:
			w.fail("%s of a new media is set", n)
		}
	}
	here := fmt.Sprintf("%s[len(%s)-1]", lvName(lv), lvName(lv))
	if !strings.HasSuffix(strings.TrimPrefix(mv.sym, "&"), here) {
		w.fail("the attributes that follow would go to %s", mv.sym)
	}
	words := w.parts(rest, " ")
	if words == "" {
		w.fail("the payload types are not read")
		return "media"
	}
	var pt *sval
	for _, e := range t.events {
		if e.kind == "store" && !strings.HasPrefix(e.name, "alloc@") {
			if e.name != here+".PayloadType" {
				w.fail("changes %s", e.name)
			}
			pt = e.args[0]
		}
	}
	if v := m.fieldOf("PayloadType"); pt == nil && v != nil && !w.is(v.lin) {
		pt = v
	}
	n := w.len(words)
	switch {
	case w.ge(n, sc(3)):
		ok := false
		for _, e := range w.extCalls("strconv.Atoi") {
			ok = ok || e.args[0].sym == words+"[2]" && pt != nil && symOf(pt) == symOf(e.res.tup[0])
		}
		if !ok {
			w.fail("the payload type is not the first one of the media")
		}
	case w.ge(sc(2), n):
		if pt != nil {
			w.fail("a payload type there is not")
		}
	default:
		w.fail("does not look whether there is a payload type")
	}
	return "media"
}

// lvName: the name of a list, not its content.
func lvName(v *sval) string {
	if v.sym != "" {
		return v.sym
	}
	return v.base
}

func init() {
	register("C31", "proof", func(r *Report, thorough bool) {
		r.rule("Any line of a description, any word of it and any parameter: what it changes in the list of medias and in the media it belongs to is compared with what the property says.")
		r.sdpParse()
	})
}
