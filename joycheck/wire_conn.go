package main

import "strings"

// C34: a connection is prepared within a time limit, then served or closed.

// hookCalls: calls of a function kept in a field of the receiver.
func (w *rtpWalk) hookCalls(name string) (l []int) {
	for i, e := range w.t.events {
		if e.kind == "call" && e.in.Callee == nil && e.in.Method == nil && len(e.args) > 0 && plain(e.args[0].sym) == "p0."+name {
			l = append(l, i)
		}
	}
	return
}

// torn: a string is compared more than once, with answers that do not fit
// together unless somebody changes it meanwhile.
func (w *rtpWalk) torn(sym string) bool {
	is := map[string]int{}
	n := 0
	for b, v := range w.t.bools {
		i := strings.Index(b, "==")
		if i < 0 {
			continue
		}
		x, y := plain(b[:i]), plain(b[i+2:])
		if x == sym {
			x, y = y, x
		}
		if y != sym || !strings.HasPrefix(x, `"`) {
			continue
		}
		if old, ok := is[x]; ok && old != b2i(v) {
			return true
		}
		if v && is[x] == 0 {
			n++
		}
		is[x] = b2i(v)
	}
	return n > 1
}

// isSet: a function field of the receiver is set on this path; -1 not looked
// at, 2 it has changed meanwhile.
func (w *rtpWalk) isSet(name string) int {
	set := -1
	for b, v := range w.t.bools {
		if plain(b) != "p0."+name+"==nil" {
			continue
		}
		if set >= 0 && set != b2i(!v) {
			return 2
		}
		set = b2i(!v)
	}
	return set
}

// onceIfSet: the function of a field is called once if it is set; its event.
func (w *rtpWalk) onceIfSet(name string) *sevent {
	l, set := w.hookCalls(name), w.isSet(name)
	if set == 1 && len(l) == 1 {
		return &w.t.events[l[0]]
	}
	if set == -1 || len(l) != 0 {
		w.fail("%s is called %d times", name, len(l))
	} else if set == 1 {
		w.fail("%s is not called", name)
	}
	return nil
}

// methodOn: calls of a method on a connection.
func (w *rtpWalk) methodOn(name, on string) (l []int) {
	for i, e := range w.t.events {
		if (e.kind == "call" || e.kind == "defer") && e.in.Method != nil && e.in.Method.Name() == name && len(e.args) > 0 && e.args[0].sym == on {
			l = append(l, i)
		}
	}
	return
}

// prepared: what server and client have in common; -1 no Prepare, 0 it fails, 1 it does not.
func (w *rtpWalk) prepared(nc string, flags func(v *sval) bool, limit func(v *sval) bool) (c string, at, ok int) {
	nw := w.t.calls("format/rtmp:NewConn")
	pr := w.t.calls("format/rtmp:Conn.Prepare")
	if len(nw) != 1 || len(pr) != 1 {
		w.fail("does not make one connection and prepare it once")
		return "", 0, -1
	}
	c = nw[0].res.sym
	at, _ = w.at(func(e sevent) bool { return e.kind == "call" && calleeName(e) == "format/rtmp:Conn.Prepare" })
	if pr[0].args[0].sym != c || constVal(pr[0].args[1]) != w.c.r.pkgConst("format/rtmp", "StageGotPublishOrPlayCommand") || !flags(pr[0].args[2]) {
		w.fail("prepares another connection, or for something else")
	}
	rw := nw[0].args[0].sym
	for _, f := range []string{"Reader", "Writer"} {
		v := w.cell(rw + "." + f)
		m := (*sevent)(nil)
		if v != nil {
			m = w.madeBy(v.sym)
		}
		if m == nil || !extern(*m, "bufio.New"+f+"Size") && !extern(*m, "bufio.New"+f) || m.args[0].sym != nc {
			w.fail("%s of the connection is not a buffered one of the network connection", f)
		}
	}
	set, reset := 0, 0
	for _, i := range w.methodOn("SetDeadline", nc) {
		e := w.t.events[i]
		if e.kind == "defer" {
			continue
		}
		a := w.madeBy(e.args[1].sym)
		switch {
		case a != nil && extern(*a, "(time.Time).Add") && w.isNow(a.args[0].sym) && limit(a.args[1]):
			if i < at {
				set = 1
			} else {
				set = 2
			}
		case w.zeroTime(e.args[1]):
			if i < at {
				set = 0
			} else {
				reset = i
			}
		default:
			w.fail("sets another time limit")
		}
	}
	if set != 1 {
		w.fail("there is no time limit while it prepares")
	}
	ok = w.t.nilState(errOf(pr[0]))
	if ok < 0 {
		w.fail("does not look whether it is prepared")
	}
	if ok == 1 && reset <= at {
		w.fail("the time limit stays")
	}
	return c, at, ok
}

func (w *rtpWalk) isNow(sym string) bool {
	m := w.madeBy(sym)
	return m != nil && extern(*m, "time.Now")
}

func (w *rtpWalk) zeroTime(v *sval) bool { return v.isNil || strings.HasPrefix(v.sym, "zero") }

// logged: the events that are reported, in order of the path.
func (w *rtpWalk) logged(c, nc string) (ids []int64, at []int) {
	for _, i := range w.hookCalls("LogEvent") {
		e := w.t.events[i]
		if len(e.args) != 4 || e.args[1].sym != c || e.args[2].sym != nc {
			w.fail("an event of another connection is reported")
			continue
		}
		ids = append(ids, constVal(e.args[3]))
		at = append(at, i)
	}
	return
}

func (r *Report) connServe() {
	con := func(n string) int64 { return r.pkgConst("format/rtmp", n) }
	stops := stopAt("format/rtmp:Conn.Prepare", "format/rtmp:NewConn", "format/rtmp:UrlGetHost", "format/rtmp:Client.doDial", "format/rtmp:Client.FromNetConn")
	stops.Loud = true
	r.rtpPaths("format/rtmp:Server.HandleNetConn", "serve", stops, 400, 2, []string{"prepared", "failed"}, func(w *rtpWalk) string {
		nc := "p1"
		if e := w.onceIfSet("ReplaceRawConn"); e != nil {
			if e.args[1].sym != "p1" {
				w.fail("another connection is replaced")
			}
			nc = e.res.sym
		}
		limit := w.t.x.leaf("p0.HandshakeTimeout", tInt).lin
		c, at, ok := w.prepared(nc, func(v *sval) bool { return constVal(v) == 0 }, func(v *sval) bool {
			if w.t.implies(limit.add(sc(-1), 1)) {
				return w.is(v.lin.add(limit, -1))
			}
			return w.t.implies(v.lin.add(sc(-1), 1))
		})
		if ok < 0 {
			return "failed"
		}
		if v := w.cell(c + ".isserver"); v == nil || v.sym != "true" {
			w.fail("the connection is not a server's")
		}
		if i, _ := w.at(func(e sevent) bool { return e.kind == "store" && e.name == c+".isserver" }); i > at {
			w.fail("the connection is prepared before it is a server's")
		}
		if e := w.onceIfSet("OnNewConn"); e != nil {
			if e.args[1].sym != c {
				w.fail("OnNewConn gets another connection")
			}
			if w.hookCalls("OnNewConn")[0] > at {
				w.fail("OnNewConn is called after the handshake")
			}
		}
		ids, when := w.logged(c, nc)
		switch set := w.isSet("LogEvent"); {
		case set < 0 || set == 0 && len(ids) > 0:
			w.fail("does not look whether events are wanted")
		case set == 1:
			n := 0
			for i, id := range ids {
				switch {
				case id == con("EventConnConnected") && i == 0 && when[i] < at:
					n |= 1
				case id == con("EventHandshakeFailed") && ok == 0 && when[i] > at:
					n |= 2
				case id == con("EventConnDisconnected") && i > 0 && when[i] > at:
				default:
					w.fail("reports event %d", id)
				}
			}
			if n != 1 && ok == 1 || n != 3 && ok == 0 {
				w.fail("does not report what happens")
			}
		}
		h, cl := w.hookCalls("HandleConn"), w.methodOn("Close", nc)
		if ok == 0 {
			if len(h) > 0 {
				w.fail("a connection that is not prepared is handled")
			}
			if len(cl) == 0 {
				w.fail("a connection that is not prepared stays open")
			}
			return "failed"
		}
		if len(h) != 1 || h[0] < at {
			w.fail("a connection that is prepared is not handled once")
			return "prepared"
		}
		if e := w.t.events[h[0]]; len(e.args) != 3 || e.args[1].sym != c || e.args[2].sym != nc {
			w.fail("another connection is handled")
		}
		for _, i := range cl {
			if i < h[0] && w.t.events[i].kind == "call" {
				w.fail("the connection is closed before it is handled")
			}
		}
		for _, i := range w.methodOn("SetDeadline", nc) {
			if i > h[0] {
				w.fail("the time limit is removed too late")
			}
		}
		return "prepared"
	})
	r.rtpPaths("format/rtmp:Client.FromNetConn", "client", stops, 400, 2, []string{"prepared", "failed"}, func(w *rtpWalk) string {
		c, at, ok := w.prepared("p1", func(v *sval) bool { return v.sym == "p3" || w.is(v.lin.add(w.t.x.leaf("p3", tInt).lin, -1)) }, func(v *sval) bool {
			return w.t.implies(v.lin.add(sc(-1), 1))
		})
		if ok < 0 || len(w.t.ret) != 2 {
			return "failed"
		}
		if v := w.cell(c + ".isserver"); v != nil && v.sym != "false" {
			w.fail("the connection is a server's")
		}
		if v := w.cell(c + ".URL"); v == nil || v.sym != "p2" {
			w.fail("the connection does not know its URL")
		}
		if i, _ := w.at(func(e sevent) bool { return e.kind == "store" && e.name == c+".URL" }); i > at {
			w.fail("the connection is prepared before it knows its URL")
		}
		ids, when := w.logged(c, "p1")
		n := 0
		for i, id := range ids {
			switch {
			case id == con("EventHandshakeFailed") && ok == 0 && when[i] > at:
				n++
			case id == con("EventConnConnected") && when[i] < at:
			default:
				w.fail("reports event %d", id)
			}
		}
		if set := w.isSet("LogEvent"); ok == 0 && set != 2 && n != set {
			w.fail("does not report the failure")
		}
		if ok == 0 {
			if !w.t.ret[0].isNil || w.t.ret[1].sym != errOf(w.t.calls("format/rtmp:Conn.Prepare")[0]).sym {
				w.fail("the error is lost, or a connection is returned with it")
			}
			return "failed"
		}
		if w.t.ret[0].sym != c || !w.isNil(1) {
			w.fail("the connection is not returned")
		}
		if len(w.methodOn("Close", "p1")) > 0 {
			w.fail("the connection is closed")
		}
		return "prepared"
	})
	r.rtpPaths("format/rtmp:Client.doDial", "dial", stops, 400, 2, []string{"connected", "failed"}, func(w *rtpWalk) string {
		if len(w.t.ret) != 2 {
			return "failed"
		}
		var dial *sevent
		fn := ""
		if e := w.onceIfSet("NewDialFunc"); e != nil {
			fn = e.res.sym
		}
		for i, e := range w.t.events {
			if e.kind != "call" || len(e.args) != 4 && !(len(e.args) == 4) {
				continue
			}
			own := extern(e, "(*net.Dialer).DialContext") || strings.Contains(e.args[0].sym, "(*net.Dialer).DialContext$bound")
			if own && fn == "" || fn != "" && e.args[0].sym == fn {
				if dial != nil {
					w.fail("dials twice")
				}
				dial = &w.t.events[i]
			} else if own {
				w.fail("does not dial with the function that was set")
			}
		}
		if dial == nil {
			w.fail("does not dial as it is set to")
			return "failed"
		}
		if dial.args[2].sym != `"tcp"` || dial.args[3].sym != "p1" {
			w.fail("dials another address")
		}
		m := w.madeBy(dial.args[1].sym)
		if m == nil || !extern(*m, "context.WithTimeout") || !w.t.implies(m.args[1].lin.add(sc(-1), 1)) {
			w.fail("dials without a time limit")
		}
		if len(dial.res.tup) != 2 {
			return "failed"
		}
		nc, er := dial.res.tup[0], dial.res.tup[1]
		switch w.t.nilState(er) {
		case 0:
			if w.t.ret[1].sym != er.sym {
				w.fail("the error is lost")
			}
			if len(w.hookCalls("ReplaceRawConn")) > 0 {
				w.fail("a connection that failed is replaced")
			}
			return "failed"
		case -1:
			w.fail("does not look whether it is connected")
		}
		want := nc.sym
		if e := w.onceIfSet("ReplaceRawConn"); e != nil {
			if e.args[1].sym != nc.sym {
				w.fail("another connection is replaced")
			}
			want = e.res.sym
		}
		if w.t.ret[0].sym != want || !w.isNil(1) && w.t.nilState(w.t.ret[1]) != 1 {
			w.fail("another connection is returned")
		}
		return "connected"
	})
	r.rtpPaths("format/rtmp:Client.Dial", "client", stops, 400, 2, []string{"bad url", "other", "rtmp", "rtmps", "not connected", "not prepared"}, func(w *rtpWalk) string {
		ps := w.extCalls("net/url.Parse")
		if len(w.t.ret) != 3 || len(ps) != 1 || ps[0].args[0].sym != "p1" {
			w.fail("does not take the URL apart")
			return "bad url"
		}
		fails := func(k string, e *sval) string {
			if !w.t.ret[0].isNil || !w.t.ret[1].isNil {
				w.fail("something is returned with an error")
			}
			if e != nil && w.t.ret[2].sym != e.sym || !w.isErr(2) {
				w.fail("the error is lost")
			}
			return k
		}
		dl, fc := w.t.calls("format/rtmp:Client.doDial"), w.t.calls("format/rtmp:Client.FromNetConn")
		switch w.t.nilState(errOf(ps[0])) {
		case 0:
			if len(dl) > 0 {
				w.fail("dials an address that is none")
			}
			return fails("bad url", errOf(ps[0]))
		case -1:
			w.fail("does not look whether the URL is one")
		}
		u := plain(ps[0].res.tup[0].sym)
		if w.torn(u + ".Scheme") {
			return "torn"
		}
		rtmp, rtmps := w.strIs(u+".Scheme", "rtmp"), w.strIs(u+".Scheme", "rtmps")
		if rtmp != 1 && rtmps != 1 {
			if rtmp < 0 || rtmps < 0 {
				w.fail("does not look at the scheme")
			}
			if len(dl) > 0 {
				w.fail("dials with another scheme")
			}
			return fails("other", nil)
		}
		hs := w.t.calls("format/rtmp:UrlGetHost")
		if len(dl) != 1 || len(hs) != 1 || hs[0].args[0].sym != ps[0].res.tup[0].sym || dl[0].args[0].sym != "p0" || dl[0].args[1].sym != hs[0].res.sym {
			w.fail("does not dial the host of the URL")
			return "other"
		}
		switch w.t.nilState(errOf(dl[0])) {
		case 0:
			return fails("not connected", errOf(dl[0]))
		case -1:
			w.fail("does not look whether it is connected")
		}
		nc := dl[0].res.tup[0].sym
		raw := nc
		tl := w.extCalls("crypto/tls.Client")
		if len(tl) > 0 {
			if tl[0].args[0].sym != nc || len(tl) > 1 {
				w.fail("encrypts something else")
			}
			nc = tl[0].res.sym
		}
		if (len(tl) == 1) != (rtmps == 1) {
			w.fail("rtmp is encrypted or rtmps is not")
		}
		if len(fc) != 1 || fc[0].args[0].sym != "p0" || fc[0].args[1].sym != nc || fc[0].args[2].sym != ps[0].res.tup[0].sym || !w.is(fc[0].args[3].lin.add(w.t.x.leaf("p2", tInt).lin, -1)) {
			w.fail("does not prepare the connection for what is wanted")
			return "other"
		}
		closed := len(w.methodOn("Close", nc))+len(w.methodOn("Close", raw)) > 0
		switch w.t.nilState(errOf(fc[0])) {
		case 0:
			if !closed {
				w.fail("a connection that is not prepared stays open")
			}
			return fails("not prepared", errOf(fc[0]))
		case -1:
			w.fail("does not look whether it is prepared")
		}
		if closed {
			w.fail("the connection is closed")
		}
		if w.t.ret[0].sym != fc[0].res.tup[0].sym || w.t.ret[1].sym != nc || !w.isNil(2) && w.t.nilState(w.t.ret[2]) != 1 {
			w.fail("another connection is returned")
		}
		if rtmps == 1 {
			return "rtmps"
		}
		return "rtmp"
	})
}

func init() {
	register("C34", "proof", func(r *Report, thorough bool) {
		r.rule("The functions that dial, accept and prepare connections are walked along every path; order and arguments of their calls are compared with what the property says.")
		r.connServe()
	})
}
