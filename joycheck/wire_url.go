package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C32: addresses. C33: what Open and Create do with them.

// strIs: a string is a constant on this path: 1, 0, -1.
func (w *rtpWalk) strIs(sym, val string) int {
	if sym == fmt.Sprintf("%q", val) {
		return 1
	}
	if strings.HasPrefix(sym, `"`) {
		return 0
	}
	res := -1
	for b, v := range w.t.bools {
		i := strings.Index(b, "==")
		if i < 0 {
			continue
		}
		x, y := plain(b[:i]), plain(b[i+2:])
		if y == plain(sym) {
			x, y = y, x
		}
		if x != plain(sym) {
			continue
		}
		if y == fmt.Sprintf("%q", val) {
			return b2i(v)
		}
		if v && strings.HasPrefix(y, `"`) {
			res = 0
		}
	}
	if val == "" {
		l := w.len(plain(sym))
		if w.is(l) {
			return 1
		}
		if w.t.isNeq(l) || w.t.implies(l.add(sc(-1), 1)) {
			return 0
		}
	}
	return res
}

func (w *rtpWalk) extCalls(name string) (l []sevent) {
	for _, e := range w.t.events {
		if extern(e, name) {
			l = append(l, e)
		}
	}
	return
}

// result of the call that made a value.
func (w *rtpWalk) madeBy(sym string) *sevent {
	for i, e := range w.t.events {
		if e.kind == "call" && e.res != nil {
			if e.res.sym == sym {
				return &w.t.events[i]
			}
			for _, x := range e.res.tup {
				if x.sym == sym {
					return &w.t.events[i]
				}
			}
		}
	}
	return nil
}

func flatSum(s string) string {
	return strings.NewReplacer("(", "", ")", "").Replace(plain(s))
}

func (r *Report) urlAddr() {
	r.rtpPaths("format/rtmp:UrlGetHost", "host", nil, 100, 2, []string{"port", "rtmp", "rtmps"}, func(w *rtpWalk) string {
		e := (*sevent)(nil)
		if len(w.t.ret) == 1 {
			e = w.madeBy(w.t.ret[0].sym)
		}
		if e == nil || !extern(*e, "net.JoinHostPort") {
			w.fail("the address is not made of host and port")
			return "host"
		}
		h := w.madeBy(e.args[0].sym)
		if h == nil || !extern(*h, "(*net/url.URL).Hostname") || h.args[0].sym != "p0" {
			w.fail("the host is not that of the URL")
		}
		ps := w.extCalls("(*net/url.URL).Port")
		if len(ps) == 0 {
			w.fail("does not look at the port")
			return "host"
		}
		port := ps[0].res.sym
		for _, p := range ps {
			if p.args[0].sym != "p0" {
				w.fail("looks at another port")
			}
			if w.strIs(p.res.sym, "") >= 0 {
				port = p.res.sym
			}
		}
		switch w.strIs(port, "") {
		case 0:
			if p := w.madeBy(e.args[1].sym); p == nil || !extern(*p, "(*net/url.URL).Port") {
				w.fail("the port given is not used")
			}
			return "port"
		case 1:
			for s, def := range map[string]string{"rtmp": "1935", "rtmps": "443"} {
				switch w.strIs("p0.Scheme", s) {
				case 1:
					if e.args[1].sym != `"`+def+`"` {
						w.fail("the port of %s is %s", s, e.args[1].sym)
					}
					return s
				case 0:
				default:
					w.fail("does not look whether the scheme is %s", s)
				}
			}
			return "other"
		}
		w.fail("does not look whether there is a port")
		return "host"
	})
	// a copy of the URL with some fields changed
	copyOf := func(w *rtpWalk, sym string, at int, but map[string]string) {
		if !strings.HasPrefix(sym, "alloc@") {
			w.fail("changes the caller's URL")
			return
		}
		val := map[string]string{}
		for _, e := range w.t.events[:at] {
			if e.kind != "store" {
				continue
			}
			if e.name == sym && e.args[0].fields != nil {
				for j := 0; j < e.args[0].ftyp.NumFields(); j++ {
					n := e.args[0].ftyp.Field(j).Name()
					val[n] = plain(e.args[0].fieldOf(n).sym)
				}
			} else if strings.HasPrefix(e.name, sym+".") {
				val[e.name[len(sym)+1:]] = plain(e.args[0].sym)
			}
		}
		for _, n := range []string{"Scheme", "Opaque", "User", "Host", "Path", "Fragment", "RawQuery", "ForceQuery"} {
			want := []string{"p0." + n}
			if b, ok := but[n]; ok {
				want = strings.Split(b, "|")
			}
			ok := false
			for _, x := range want {
				ok = ok || x == val[n]
			}
			if !ok {
				w.fail("%s of the URL is %s, not %s", n, val[n], want[0])
			}
		}
	}
	index := func(w *rtpWalk, x sevent) int {
		for i, e := range w.t.events {
			if e.in == x.in {
				return i
			}
		}
		return 0
	}
	r.rtpPaths("format/rtmp:splitPath", "split", nil, 400, 2, []string{"0", "2", "3", "more"}, func(w *rtpWalk) string {
		var sp *sevent
		for _, n := range []string{"strings.SplitN", "strings.Split"} {
			for _, e := range w.extCalls(n) {
				if sp != nil {
					w.fail("splits twice")
				}
				e := e
				sp = &e
			}
		}
		if sp == nil || sp.args[1].sym != `"/"` {
			w.fail("does not split at slashes")
			return "split"
		}
		if len(sp.args) == 3 {
			if n, ok := constOf(sp.args[2]); !ok || n >= 0 {
				w.fail("does not split at all slashes")
			}
		}
		u := w.madeBy(sp.args[0].sym)
		if u == nil || !extern(*u, "(*net/url.URL).RequestURI") {
			w.fail("does not split the path and query")
			return "split"
		}
		copyOf(w, u.args[0].sym, index(w, *u), map[string]string{"ForceQuery": "false"})
		list := sp.res.sym
		n := w.len(list)
		// which segments a result is made of
		span := func(v *sval) (from, to slin, ok bool) {
			if v.sym == `""` {
				return sc(0), sc(0), true
			}
			for i := int64(0); i < 4; i++ {
				if plain(v.sym) == fmt.Sprintf("%s[%d]", list, i) {
					return sc(i), sc(i + 1), true
				}
			}
			if j := w.madeBy(v.sym); j != nil && extern(*j, "strings.Join") && j.args[1].sym == `"/"` && j.args[0].base == list {
				return j.args[0].off, j.args[0].off.add(j.args[0].length, 1), true
			}
			return sc(0), sc(0), false
		}
		check := func(k int, what string, from, to slin) {
			f, t, ok := span(w.t.ret[k])
			if ok && w.is(f.add(t, -1)) && w.is(from.add(to, -1)) {
				return
			}
			if !ok || !w.is(f.add(from, -1)) || !w.is(t.add(to, -1)) {
				w.fail("%s is %s", what, plain(w.t.ret[k].sym))
			}
		}
		switch {
		case w.is(n.add(sc(-2), 1)):
			check(0, "app", sc(1), sc(2))
			check(1, "stream", sc(0), sc(0))
			return "2"
		case w.is(n.add(sc(-3), 1)):
			check(0, "app", sc(1), sc(2))
			check(1, "stream", sc(2), sc(3))
			return "3"
		case w.t.implies(n.add(sc(-4), 1)):
			check(0, "app", sc(1), sc(3))
			check(1, "stream", sc(3), n)
			return "more"
		case w.may(n, 2) || w.may(n, 3) || w.may(n, 4):
			w.fail("does not look how many parts there are")
		default:
			check(0, "app", sc(0), sc(0))
			check(1, "stream", sc(0), sc(0))
		}
		return "0"
	})
	r.rtpPaths("format/rtmp:getTcURL", "tcurl", stopAt("format/rtmp:splitPath"), 100, 2, []string{"tcurl"}, func(w *rtpWalk) string {
		sp := w.t.calls("format/rtmp:splitPath")
		st := w.extCalls("(*net/url.URL).String")
		if len(sp) != 1 || sp[0].args[0].sym != "p0" || len(st) != 1 {
			w.fail("is not made of the URL and its app")
			return "tcurl"
		}
		copyOf(w, st[0].args[0].sym, index(w, st[0]), map[string]string{"RawQuery": `""`, "ForceQuery": "false", "Fragment": `""`, "Path": `"/"`, "User": "p0.User|nil"})
		if len(w.t.ret) != 1 || flatSum(w.t.ret[0].sym) != st[0].res.sym+"+"+sp[0].res.tup[0].sym {
			w.fail("is %s", w.t.ret[0].sym)
		}
		return "tcurl"
	})
	r.rtpPaths("format/rtmp:createURL", "create", nil, 400, 2, []string{"bad path", "bad tcurl", "no host", "no scheme", "ok"}, func(w *rtpWalk) string {
		if len(w.t.ret) != 2 {
			return "ok"
		}
		k := ""
		var path, tc string
		for _, e := range w.t.events {
			if e.kind != "call" {
				continue
			}
			var bad string
			switch {
			case extern(e, "net/url.ParseRequestURI"):
				if flatSum(e.args[0].sym) != `"/"+p1+"/"+p2` {
					w.fail("the path is %s", e.args[0].sym)
				}
				path, bad = e.res.tup[0].sym, "bad path"
			case extern(e, "net/url.Parse"):
				if e.args[0].sym != "p0" {
					w.fail("takes %s for the address", e.args[0].sym)
				}
				tc, bad = e.res.tup[0].sym, "bad tcurl"
			default:
				continue
			}
			if k != "" {
				w.fail("goes on after an error")
			}
			switch w.t.nilState(e.res.tup[1]) {
			case 0:
				k = bad
				if w.t.ret[1].sym != e.res.tup[1].sym {
					w.fail("the error is lost")
				}
			case 1:
			default:
				w.fail("does not look whether the address is one")
			}
		}
		if k != "" {
			return k
		}
		if path == "" || tc == "" {
			w.fail("does not look at path and address")
			return "ok"
		}
		h, s := w.strIs(tc+".Host", ""), w.strIs(tc+".Scheme", "")
		switch {
		case h == 1 || s == 1:
			k = "no host"
			if h != 1 {
				k = "no scheme"
			}
			if !w.isErr(1) {
				w.fail("an address without host or scheme is taken")
			}
			return k
		case h != 0 || s != 0:
			w.fail("does not look whether there are host and scheme")
		}
		if !w.isNil(1) {
			w.fail("a good address is refused")
		}
		st := w.stores(path)
		w.only(st, "Host", "Scheme")
		if w.t.ret[0].sym != path || st["Host"] == nil || st["Scheme"] == nil || plain(st["Host"].sym) != tc+".Host" || plain(st["Scheme"].sym) != tc+".Scheme" {
			w.fail("host and scheme are not those of the address")
		}
		return "ok"
	})
	r.rtpPaths("format/rtsp:DialTimeout", "rtsp", nil, 400, 2, []string{"bad", "failed", "port", "no port"}, func(w *rtpWalk) string {
		ps := w.extCalls("net/url.Parse")
		if len(ps) != 1 || ps[0].args[0].sym != "p0" || len(w.t.ret) != 2 {
			w.fail("does not take the address apart")
			return "bad"
		}
		u := ps[0].res.tup[0].sym
		switch w.t.nilState(ps[0].res.tup[1]) {
		case 0:
			if w.t.ret[1].sym != ps[0].res.tup[1].sym || len(w.extCalls("(*net.Dialer).Dial")) > 0 {
				w.fail("an address that is none is used")
			}
			return "bad"
		case -1:
			w.fail("does not look whether the address is one")
		}
		k := "port"
		sp := w.extCalls("net.SplitHostPort")
		if len(sp) != 1 || plain(sp[0].args[0].sym) != u+".Host" {
			w.fail("does not look for a port")
			return k
		}
		want := u + ".Host"
		switch w.t.nilState(errOf(sp[0])) {
		case 0:
			k = "no port"
			want += `+":554"`
		case -1:
			w.fail("does not look whether there is a port")
		}
		d := w.extCalls("(*net.Dialer).Dial")
		if len(d) != 1 || d[0].args[1].sym != `"tcp"` || flatSum(d[0].args[2].sym) != want {
			w.fail("does not connect to %s", want)
			return k
		}
		if v := w.cell(d[0].args[0].sym + ".Timeout"); v == nil || v.sym != "p1" && !(v.isInt && v.lin.eq(sterm("p1"))) {
			w.fail("the time limit is not used")
		}
		switch w.t.nilState(errOf(d[0])) {
		case 0:
			if w.t.ret[1].sym != errOf(d[0]).sym {
				w.fail("the error of the connection is lost")
			}
			return "failed"
		case -1:
			w.fail("does not look whether there is a connection")
		}
		c := w.t.ret[0].sym
		if !w.isNil(1) || !strings.HasPrefix(c, "alloc@") {
			w.fail("there is no client")
			return k
		}
		uri := w.cell(c + ".requestUri")
		st := w.extCalls("(*net/url.URL).String")
		if uri == nil || len(st) != 1 || st[0].res.sym != uri.sym {
			w.fail("requests do not name the URL")
			return k
		}
		if v := w.cell(st[0].args[0].sym + ".User"); v == nil || !v.isNil {
			w.fail("requests tell the password")
		}
		if v := w.cell(c + ".url"); v == nil || v.sym != u {
			w.fail("the user and password are not kept")
		}
		cn := w.cell(c + ".conn")
		if cn == nil {
			w.fail("the connection is not kept")
		} else if x := w.cell(cn.sym + ".Conn"); x == nil || x.sym != d[0].res.tup[0].sym {
			w.fail("another connection is kept")
		}
		return k
	})
}

// opener follows one path of Open or Create.
type opener struct {
	*rtpWalk
	url, u string // text and parsed
	need   []string
}

func (o *opener) scheme() string {
	open := false
	for _, s := range []string{"rtmp", "rtmps", "rtsp", "http", "https"} {
		switch o.strIs(o.u+".Scheme", s) {
		case 1:
			return s
		case -1:
			open = true
		}
	}
	if open {
		return "?"
	}
	return "file"
}

func (o *opener) ext(e string) int {
	l := o.extCalls("path.Ext")
	l = append(l, o.extCalls("path/filepath.Ext")...)
	if len(l) == 0 || plain(l[0].args[0].sym) != o.u+".Path" {
		return -1
	}
	return o.strIs(l[0].res.sym, e)
}

// hook: a function of the opener is called with what was made, if it is set.
func (o *opener) hook(name, with string) {
	n := 0
	for _, e := range o.t.events {
		if e.kind == "call" && len(e.args) == 2 && plain(e.args[0].sym) == "p0."+name {
			n++
			if e.args[1].sym != with {
				o.fail("%s is called with something else", name)
			}
		}
	}
	set := -1
	for b, v := range o.t.bools {
		if plain(b) == "p0."+name+"==nil" {
			set = b2i(!v)
		}
	}
	if set == 1 && n != 1 || set == 0 && n != 0 || set < 0 {
		o.fail("%s is called %d times", name, n)
	}
}

// made: the fields of what is returned.
func (o *opener) made(fields map[string]string) {
	s := o.t.ret[0].sym
	if !strings.HasPrefix(s, "alloc@") {
		o.fail("the result is %s", s)
		return
	}
	for _, f := range []string{"PacketReader", "PacketWriter", "Closer", "NetConn", "Rtmp", "Flv", "IsRemote"} {
		v := o.cell(s + "." + f)
		got := ""
		if v != nil && !v.isNil && v.sym != "false" {
			got = plain(v.sym)
		}
		if want := fields[f]; got != want && want != "*" {
			o.fail("%s is %q, not %q", f, got, want)
		}
	}
}

// try: the call e is made; false when it failed and the path ends there.
func (o *opener) try(e sevent) bool {
	er := errOf(e)
	switch o.t.nilState(er) {
	case 1:
		return true
	case 0:
		if o.t.ret[1].sym != er.sym {
			o.fail("the error of %s is lost", calleeName(e))
		}
		if !o.t.ret[0].isNil {
			o.fail("something is returned with an error")
		}
		return false
	}
	o.fail("does not look whether %s failed", calleeName(e))
	return false
}

// did: the calls with an effect that the path makes, in order.
func (o *opener) did() (l []sevent, names []string) {
	for _, e := range o.t.events {
		n := ""
		switch {
		case e.kind != "call":
		case e.in.Callee == nil && e.in.Method != nil:
			n = e.in.Method.Name()
		case e.in.Callee == nil:
		default:
			switch f := fnName(e.in.Callee); f {
			case "net/http.Get", "os.Open", "os.Create", "os.OpenFile", "net.Listen", "net/http.Head", "net.Dial":
				n = f
			default:
				if strings.HasPrefix(f, "(*os.File)") {
					n = e.in.Callee.Name()
				}
				a := calleeName(e)
				switch a {
				case "format/rtmp:Client.Dial", "format/rtsp:DialTimeout", "format/rtsp:Dial", "format:URLOpener.StartRtmpServerWaitConn", "format/flv:NewDemuxer", "format/flv:NewMuxer", "format/mp4:NewMuxer":
					n = a[strings.LastIndex(a, "/")+1:]
				}
			}
		}
		if n != "" {
			l = append(l, e)
			names = append(names, n)
		}
	}
	return
}

func (o *opener) want(got []string, want ...string) bool {
	if strings.Join(got, ", ") != strings.Join(want, ", ") {
		o.fail("does %s, not %s", strings.Join(got, ", "), strings.Join(want, ", "))
		return false
	}
	return true
}

func (o *opener) refuse(got []string) {
	if len(got) > 0 {
		o.fail("does %s", strings.Join(got, ", "))
	}
	if !o.isErr(1) || !o.t.ret[0].isNil {
		o.fail("what is not supported is no error")
	}
}

// client: an RTMP client of the opener's settings dials.
func (o *opener) client(l []sevent, flags string) (sevent, bool) {
	d := l[0]
	if o.c.r.pkgConst("format/rtmp", flags) != constVal(d.args[2]) || d.args[1].sym != o.url && plain(d.args[1].str()) != o.url {
		o.fail("dials %s as %s", plain(d.args[1].str()), d.args[2].lin)
	}
	m := o.madeBy(d.args[0].sym)
	if m == nil || calleeName(*m) != "format/rtmp:NewClient" {
		o.fail("the client is not a new one")
	}
	for _, f := range []string{"ReplaceRawConn", "NewDialFunc"} {
		if v := o.cell(d.args[0].sym + "." + f); v == nil || plain(v.sym) != "p0."+f {
			o.fail("the client does not get %s", f)
		}
	}
	o.hook("OnNewRtmpClient", d.args[0].sym)
	return d, o.try(d)
}

func constVal(v *sval) int64 {
	n, ok := constOf(v)
	if !ok {
		return -1 << 40
	}
	return n
}

var openStops = []string{"format/rtmp:Client.Dial", "format/flv:NewDemuxer", "format/flv:NewMuxer", "format/mp4:NewMuxer", "format/rtsp:DialTimeout", "format/rtmp:NewServer", "format/rtmp:NewClient", "format:URLOpener.StartRtmpServerWaitConn"}

func (r *Report) openURL() {
	r.rtpPaths("format:URLOpener.Open", "open", stopAt(openStops...), 4000, 2, []string{"bad url", "rtmp", "rtmps", "@rtmp", "@rtmps", "rtsp", "http", "https", "http other", "file", "file other"}, func(w *rtpWalk) string {
		o := &opener{rtpWalk: w}
		if len(w.t.ret) != 2 {
			return "bad url"
		}
		l, did := o.did()
		server := -1
		for _, e := range w.extCalls("strings.HasPrefix") {
			if e.args[0].sym == "p1" && e.args[1].sym == `"@"` {
				server = w.t.truth(e.res)
			}
		}
		o.url = "p1"
		switch server {
		case 1:
			o.url = "p1[1:+len(p1)-1]"
		case -1:
			w.fail("does not look whether to wait for a connection")
			return "bad url"
		}
		ps := w.extCalls("net/url.Parse")
		if len(ps) != 1 || plain(ps[0].args[0].str()) != o.url {
			w.fail("does not take the URL apart")
			return "bad url"
		}
		o.u = ps[0].res.tup[0].sym
		if !o.try(ps[0]) {
			if len(did) > 0 {
				w.fail("does %s", strings.Join(did, ", "))
			}
			return "bad url"
		}
		k := o.scheme()
		switch k {
		case "rtmp", "rtmps":
			if server == 1 && k == "rtmps" {
				o.refuse(did)
				return "@rtmps"
			}
			if server == 1 {
				if !o.want(did, "format:URLOpener.StartRtmpServerWaitConn") {
					return "@rtmp"
				}
				e := l[0]
				if e.args[0].sym != "p0" || e.args[1].sym != o.u {
					w.fail("waits for another URL")
				}
				if o.try(e) {
					o.made(map[string]string{"PacketReader": e.res.tup[0].sym, "Closer": e.res.tup[1].sym, "Rtmp": e.res.tup[0].sym, "NetConn": e.res.tup[1].sym, "IsRemote": "true"})
				}
				return "@rtmp"
			}
			if !o.want(did, "rtmp:Client.Dial") {
				return k
			}
			if d, ok := o.client(l, "PrepareReading"); ok {
				c, nc := d.res.tup[0].sym, d.res.tup[1].sym
				o.hook("OnNewRtmpConn", c)
				o.made(map[string]string{"PacketReader": c, "Closer": nc, "Rtmp": c, "NetConn": nc, "IsRemote": "true"})
			}
		case "rtsp":
			if !o.want(did, "rtsp:DialTimeout") {
				return k
			}
			if plain(l[0].args[0].str()) != o.url || constVal(l[0].args[1]) <= 0 {
				w.fail("dials %s without a time limit or another URL", l[0].args[0].sym)
			}
			if o.try(l[0]) {
				c := l[0].res.tup[0].sym
				o.made(map[string]string{"PacketReader": c, "Closer": c, "IsRemote": "true"})
			}
		case "http", "https":
			switch o.ext(".flv") {
			case 0:
				o.refuse(did)
				return "http other"
			case -1:
				w.fail("does not look whether it is FLV")
				return k
			}
			if len(l) == 0 || did[0] != "net/http.Get" || plain(l[0].args[0].str()) != o.url {
				w.fail("does not get the URL")
				return k
			}
			if !o.try(l[0]) {
				o.want(did, "net/http.Get")
				return k
			}
			hr := l[0].res.tup[0].sym
			st := w.t.x.leaf(hr+".StatusCode", tInt).lin
			switch {
			case w.is(st.add(sc(-200), 1)):
				if !o.want(did, "net/http.Get", "flv:NewDemuxer") {
					return k
				}
				d := l[1]
				if plain(d.args[0].sym) != hr+".Body" {
					w.fail("reads something else")
				}
				o.hook("OnNewFlvDemuxer", d.res.sym)
				o.made(map[string]string{"PacketReader": d.res.sym, "Flv": d.res.sym, "Closer": hr + ".Body", "IsRemote": "true"})
			case w.t.isNeq(st.add(sc(-200), 1)):
				if o.want(did, "net/http.Get", "Close") && plain(l[1].args[0].sym) != hr+".Body" {
					w.fail("closes something else")
				}
				if !o.isErr(1) || !w.t.ret[0].isNil {
					w.fail("an answer that is an error is read as FLV")
				}
			default:
				w.fail("does not look whether the answer is an error")
			}
		case "file":
			switch o.ext(".flv") {
			case 0:
				o.refuse(did)
				return "file other"
			case -1:
				w.fail("does not look whether it is FLV")
				return k
			}
			if len(l) == 0 || did[0] != "os.Open" || plain(l[0].args[0].sym) != o.u+".Path" {
				w.fail("does not open the file")
				return k
			}
			if !o.try(l[0]) {
				o.want(did, "os.Open")
				return k
			}
			if !o.want(did, "os.Open", "flv:NewDemuxer") {
				return k
			}
			f, d := l[0].res.tup[0].sym, l[1]
			if d.args[0].sym != f {
				w.fail("reads something else")
			}
			o.hook("OnNewFlvDemuxer", d.res.sym)
			o.made(map[string]string{"PacketReader": d.res.sym, "Flv": d.res.sym, "Closer": f})
		default:
			w.fail("does not look at the scheme")
		}
		return k
	})
	r.rtpPaths("format:URLOpener.Create", "create", stopAt(openStops...), 4000, 2, []string{"bad url", "rtmp", "rtmps", "flv", "mp4", "mp4 no streams", "other"}, func(w *rtpWalk) string {
		o := &opener{rtpWalk: w, url: "p1"}
		if len(w.t.ret) != 2 {
			return "bad url"
		}
		l, did := o.did()
		ps := w.extCalls("net/url.Parse")
		if len(ps) != 1 || plain(ps[0].args[0].str()) != "p1" {
			w.fail("does not take the URL apart")
			return "bad url"
		}
		o.u = ps[0].res.tup[0].sym
		if !o.try(ps[0]) {
			if len(did) > 0 {
				w.fail("does %s", strings.Join(did, ", "))
			}
			return "bad url"
		}
		for _, k := range []string{"rtmp", "rtmps"} {
			switch o.strIs(o.u+".Scheme", k) {
			case 1:
				if !o.want(did, "rtmp:Client.Dial") {
					return k
				}
				if d, ok := o.client(l, "PrepareWriting"); ok {
					c, nc := d.res.tup[0].sym, d.res.tup[1].sym
					o.hook("OnNewRtmpConn", c)
					o.made(map[string]string{"PacketWriter": c, "Closer": nc, "Rtmp": c, "NetConn": nc, "IsRemote": "true"})
				}
				return k
			case -1:
				w.fail("does not look whether the scheme is %s", k)
				return k
			}
		}
		k := "other"
		if o.ext(".flv") == 1 {
			k = "flv"
		} else if o.ext(".mp4") == 1 {
			k = "mp4"
		} else if o.ext(".flv") != 0 || o.ext(".mp4") != 0 {
			w.fail("does not look at the extension")
		}
		if k == "mp4" {
			switch w.t.nilState(&sval{sym: "p2"}) {
			case 1:
				k = "mp4 no streams"
			case -1:
				w.fail("does not look whether the streams are known")
			}
		}
		if k == "other" || k == "mp4 no streams" {
			o.refuse(did)
			return k
		}
		if len(l) == 0 || did[0] != "os.Create" || plain(l[0].args[0].sym) != o.u+".Path" {
			w.fail("does not create the file")
			return k
		}
		if !o.try(l[0]) {
			o.want(did, "os.Create")
			return k
		}
		if len(l) < 2 || did[1] != k+":NewMuxer" {
			w.fail("does %s", strings.Join(did, ", "))
			return k
		}
		f, m := l[0].res.tup[0].sym, l[1]
		ws, s := w.cell(m.args[0].sym+".WriteSeeker"), w.cell(m.args[0].sym+".Streamer")
		if ws == nil || s == nil || ws.sym != f || s.sym != "p2" {
			w.fail("does not write the streams to the file")
		}
		if k == "flv" {
			o.want(did, "os.Create", "flv:NewMuxer")
			o.hook("OnNewFlvMuxer", m.res.sym)
			o.made(map[string]string{"PacketWriter": m.res.sym, "Closer": f})
			return k
		}
		if !o.try(m) {
			if o.want(did, "os.Create", "mp4:NewMuxer", "Close") && l[2].args[0].sym != f {
				w.fail("closes something else")
			}
			return k
		}
		o.want(did, "os.Create", "mp4:NewMuxer")
		mx := m.res.tup[0].sym
		o.made(map[string]string{"PacketWriter": mx, "Closer": "*"})
		c := w.cell(w.t.ret[0].sym + ".Closer")
		if c == nil || c.fieldOf("Closer") == nil || c.fieldOf("Muxer") == nil || c.fieldOf("Closer").sym != f || c.fieldOf("Muxer").sym != mx {
			w.fail("closing does not end the movie and close the file")
		}
		return k
	})
	r.rtpPaths("format:Mp4WriterCloser.Close", "close", stopAt("format/mp4:Muxer.WriteTrailer"), 100, 2, []string{"close"}, func(w *rtpWalk) string {
		var l []sevent
		for _, e := range w.t.events {
			if e.kind == "call" {
				l = append(l, e)
			}
		}
		if len(l) != 2 || calleeName(l[0]) != "format/mp4:Muxer.WriteTrailer" || l[1].in.Method == nil || l[1].in.Method.Name() != "Close" || plain(l[0].args[0].sym) != "p0.Muxer" || plain(l[1].args[0].sym) != "p0.Closer" {
			w.fail("does not end the movie and then close the file")
			return "close"
		}
		want := l[1].res.sym
		if w.t.nilState(l[0].res) == 0 {
			want = l[0].res.sym
		} else if w.t.nilState(l[0].res) < 0 {
			w.fail("does not look whether the movie could be ended")
		}
		if len(w.t.ret) != 1 || w.t.ret[0].sym != want && !(w.isNil(0) && w.t.nilState(l[1].res) == 1) {
			w.fail("an error is lost")
		}
		return "close"
	})
	r.openWait()
}

// openWait: the server that waits for one connection.
func (r *Report) openWait() {
	r.rtpPaths("format:URLOpener.StartRtmpServerWaitConn", "wait", stopAt("format/rtmp:UrlGetHost", "format/rtmp:NewServer"), 400, 2, []string{"failed", "connection"}, func(w *rtpWalk) string {
		o := &opener{rtpWalk: w}
		h := w.t.calls("format/rtmp:UrlGetHost")
		ls := w.extCalls("net.Listen")
		if len(ls) != 1 || len(h) != 1 || len(w.t.ret) != 3 || h[0].args[0].sym != "p1" || ls[0].args[0].sym != `"tcp"` || ls[0].args[1].sym != h[0].res.sym {
			w.fail("does not listen at the URL's address")
			return "failed"
		}
		switch w.t.nilState(errOf(ls[0])) {
		case 0:
			if w.t.ret[2].sym != errOf(ls[0]).sym {
				w.fail("the error is lost")
			}
			return "failed"
		case -1:
			w.fail("does not look whether it listens")
		}
		lis := ls[0].res.tup[0].sym
		ns := w.t.calls("format/rtmp:NewServer")
		if len(ns) != 1 {
			w.fail("there is not one server")
			return "connection"
		}
		s := ns[0].res.sym
		if v := w.cell(s + ".ReplaceRawConn"); v == nil || plain(v.sym) != "p0.ReplaceRawConn" {
			w.fail("the server does not get ReplaceRawConn")
		}
		o.hook("OnNewRtmpServer", s)
		got, done := "", ""
		closed := false
		var recv *sevent
		for i, e := range w.t.events {
			switch {
			case e.kind == "recv":
				if recv != nil {
					w.fail("waits twice")
				}
				recv = &w.t.events[i]
				got = plain(e.args[0].sym)
			case e.kind == "call" && e.in.Method != nil && e.in.Method.Name() == "Close" && e.args[0].sym == lis:
				closed = true
			case e.kind == "call" && e.in.Builtin == "close":
				done = plain(e.args[0].sym)
			}
		}
		if recv == nil || recv.res == nil || !closed || done == "" {
			w.fail("does not wait for a connection, or goes on listening, or leaves others waiting")
			return "connection"
		}
		rs := recv.res.sym
		if plain(w.t.ret[0].sym) != rs+".c" || plain(w.t.ret[1].sym) != rs+".nc" || !w.isNil(2) {
			w.fail("does not return the connection that came")
		}
		o.hook("OnNewRtmpConn", w.t.ret[0].sym)
		hc := w.cell(s + ".HandleConn")
		var clo *sevent
		if hc != nil {
			clo = w.closure(hc.sym)
		}
		if clo == nil || clo.in.Callee == nil {
			w.fail("nothing is done with connections")
			return "connection"
		}
		at := func(pred func(sevent) bool) int { i, _ := w.at(pred); return i }
		iHook := at(func(e sevent) bool { return e.kind == "call" && plain(e.args0()) == "p0.OnNewRtmpServer" })
		iSet := at(func(e sevent) bool { return e.kind == "store" && e.name == s+".HandleConn" })
		iGo := at(func(e sevent) bool { return e.kind == "go" })
		if iGo < iSet || iGo < iHook || iGo < 0 {
			w.fail("connections are taken before the server is ready")
		}
		ts, over := tracesInit(build(r.P, clo.in.Callee, &InlineOpt{Quiet: true}), 100, nil, 2, false, nil, nil)
		if over || len(ts) == 0 {
			w.fail("what is done with connections cannot be followed")
		}
		for _, t := range ts {
			if t.end == nil || t.end.Op != OpReturn {
				continue
			}
			x := &rtpWalk{t: t, c: w.c}
			var sel *sevent
			shut := false
			for i, e := range t.events {
				if e.kind == "select" {
					sel = &t.events[i]
				}
				shut = shut || e.kind == "call" && e.in.Method != nil && e.in.Method.Name() == "Close" && e.args[0].sym == "p1"
			}
			if sel == nil || !sel.in.Blocking || len(sel.in.SelState) != 2 {
				w.fail("a connection that comes later waits for ever, or one that comes first is dropped")
				continue
			}
			hand := -1
			j := 0
			for n, st := range sel.in.SelState {
				ch := w.chanOf(*clo, sel.args[j].sym)
				j++
				switch {
				case st.Dir == types.SendOnly && ch == got:
					v := sel.args[j]
					j++
					if v.fieldOf("c") == nil || v.fieldOf("c").sym != "p0" || v.fieldOf("nc") == nil || v.fieldOf("nc").sym != "p1" {
						w.fail("another connection is handed over")
					}
					hand = n
				case st.Dir == types.RecvOnly && ch == done:
				default:
					w.fail("a connection waits for something else: %s", ch)
				}
			}
			which := t.x.leaf(sel.res.sym+".0", tInt).lin
			if x.is(which.add(sc(int64(-hand)), 1)) == shut {
				w.fail("a connection that is used is closed, or one that is not stays open")
			}
		}
		return "connection"
	})
}

// chanOf: a channel that a closure uses, where it was made.
func (w *rtpWalk) chanOf(clo sevent, sym string) string {
	n := w.bound(clo, sym)
	if c := w.cell(n); c != nil {
		return plain(c.sym)
	}
	return n
}

func (e sevent) args0() string {
	if len(e.args) == 0 {
		return ""
	}
	return e.args[0].sym
}

func init() {
	register("C32", "proof", func(r *Report, thorough bool) {
		r.rule("The functions that take addresses apart and put them together are walked along every path; what each result is made of is compared with what the property says.")
		r.urlAddr()
	})
	register("C33", "proof", func(r *Report, thorough bool) {
		r.rule("Open and Create are walked along every path; which reader or writer each scheme and extension leads to, with what, and what happens on failure is compared with what the property says.")
		r.openURL()
	})
}
