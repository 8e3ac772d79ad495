package main

import (
	"fmt"
	"strconv"
	"strings"
)

// C30: RTSP requests, responses and credentials.

// text: a string as the pieces it is made of; {x} is a value.
func (w *rtpWalk) text(v *sval) string {
	if v == nil {
		return "{?}"
	}
	return w.textSym(symOf(v), 0)
}

// symOf: what a value is called.
func symOf(v *sval) string {
	switch {
	case v == nil:
		return "?"
	case v.isInt:
		return v.lin.String()
	}
	return v.str()
}

func (w *rtpWalk) textSym(s string, depth int) string {
	if depth > 20 {
		return "{" + s + "}"
	}
	if c, err := strconv.Unquote(s); err == nil && strings.HasPrefix(s, `"`) {
		return c
	}
	if l := sumOf(s); l != nil {
		out := ""
		for _, p := range l {
			out += w.textSym(p, depth+1)
		}
		return out
	}
	m := w.madeBy(s)
	arg := func(k int) string { return w.textSym(symOf(m.args[k]), depth+1) }
	switch {
	case m == nil:
	case extern(*m, "fmt.Sprintf"):
		return w.format(m.args[0], m.args[1], depth)
	case extern(*m, "strconv.Itoa"):
		return arg(0)
	case (extern(*m, "strconv.FormatUint") || extern(*m, "strconv.FormatInt")) && constVal(m.args[1]) == 10:
		return arg(0)
	case calleeName(*m) == "format/rtsp:md5hash":
		return "md5(" + arg(0) + ")"
	case extern(*m, "(*encoding/base64.Encoding).EncodeToString") && m.args[0].sym == "g:encoding/base64.StdEncoding":
		return "base64(" + arg(1) + ")"
	}
	return "{" + plain(s) + "}"
}

// sumOf: the two sides of a sum of strings.
func sumOf(s string) []string {
	if !strings.HasPrefix(s, "(") || !strings.HasSuffix(s, ")") {
		return nil
	}
	depth, plus := 0, -1
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
			if depth == 0 && i != len(s)-1 {
				return nil
			}
		case '+':
			if depth == 1 {
				plus = i
			}
		}
	}
	if plus < 0 {
		return nil
	}
	return []string{s[1:plus], s[plus+1 : len(s)-1]}
}

func (w *rtpWalk) format(f, list *sval, depth int) string {
	c, err := strconv.Unquote(f.sym)
	if err != nil {
		return "{" + symOf(f) + "}"
	}
	l := w.t.items(list, nil)
	out := ""
	for i := 0; i < len(c); i++ {
		if c[i] != '%' || i+1 == len(c) {
			out += c[i : i+1]
			continue
		}
		i++
		switch {
		case c[i] == '%':
			out += "%"
		case strings.IndexByte("sdv", c[i]) >= 0 && len(l) > 0 && l[0].one != nil:
			out += w.textSym(symOf(l[0].one), depth+1)
			l = l[1:]
		default:
			out += "{?}"
		}
	}
	if len(l) > 0 {
		out += "{?}"
	}
	return out
}

// written: what has been put into a buffer by the time of an event.
func (w *rtpWalk) written(v *sval, at int) string {
	m := w.madeBy(symOf(v))
	if m == nil || m.in.Callee == nil || !strings.HasPrefix(fnName(m.in.Callee), "(*bytes.Buffer).") && !strings.HasPrefix(fnName(m.in.Callee), "(*strings.Builder).") {
		return w.text(v)
	}
	if n := m.in.Callee.Name(); n != "Bytes" && n != "String" {
		return "{?}"
	}
	buf, out := m.args[0].sym, ""
	for _, e := range w.t.events[:at] {
		if e.kind != "call" && e.kind != "write" || len(e.args) < 2 || e.args[0].sym != buf || e.in.Callee == nil {
			continue
		}
		switch e.in.Callee.Name() {
		case "Fprintf":
			out += w.format(e.args[1], e.args[2], 0)
		case "WriteString", "Write":
			out += w.text(e.args[1])
		default:
			out += "{?}"
		}
	}
	return out
}

// eachLine takes the lines of a list of strings off a text.
func (w *rtpWalk) eachLine(s, list string) string {
	n := 0
	for {
		l := fmt.Sprintf("{%s[%d]}\r\n", list, n)
		if !strings.HasPrefix(s, l) {
			break
		}
		s = s[len(l):]
		n++
	}
	if !w.is(w.len(list).add(sc(int64(-n)), 1)) {
		w.fail("not every line of %s is in the request", list)
	}
	return s
}

func (r *Report) rtspWrite() {
	r.rtpPaths("format/rtsp:Client.WriteRequest", "request", stopAt("format/rtsp:connWithTimeout.Write"), 20000, 3, []string{"plain", "with credentials"}, func(w *rtpWalk) string {
		t := w.t
		kind, auth := "plain", ""
		switch w.isSet("authHeaders") {
		case 1:
			kind = "with credentials"
			l := w.hookCalls("authHeaders")
			if len(l) != 1 || t.events[l[0]].args[1].sym != "p1.Method" {
				w.fail("the credentials are not those for the method of the request")
				return kind
			}
			auth = plain(t.events[l[0]].res.sym)
		case 0:
			if len(w.hookCalls("authHeaders")) > 0 {
				w.fail("asks for credentials there are none of")
			}
		default:
			w.fail("does not look whether there are credentials")
		}
		first, last := w.at(func(e sevent) bool { return calleeName(e) == "format/rtsp:connWithTimeout.Write" })
		if first < 0 || first != last {
			w.fail("the request is not written once")
			return kind
		}
		e := t.events[first]
		if e.args[0].fieldOf("Conn") == nil || plain(e.args[0].fieldOf("Conn").sym) != "p0.conn.Conn" || plain(symOf(e.args[0].fieldOf("Timeout"))) != "p0.RtspTimeout" && plain(symOf(e.args[0].fieldOf("Timeout"))) != "p0.conn.Timeout" {
			w.fail("the request is not written to the connection with the time limit of RTSP")
		}
		s := w.written(e.args[1], first)
		head := "{p1.Method} {p1.Uri} RTSP/1.0\r\nCSeq: {p0.cseq+1}\r\n"
		if !strings.HasPrefix(s, head) {
			w.fail("the request starts with %q", s)
			return kind
		}
		if s = s[len(head):]; auth != "" {
			s = w.eachLine(s, auth)
		}
		s = w.eachLine(s, "p1.Header")
		s = w.eachLine(s, "p0.Headers")
		if s != "\r\n" {
			w.fail("the headers are followed by %q", s)
		}
		st := w.stores("p0")
		if st["cseq"] == nil || plain(symOf(st["cseq"])) != "p0.cseq+1" {
			w.fail("the requests are not counted")
		}
		if st["conn.Timeout"] == nil || plain(symOf(st["conn.Timeout"])) != "p0.RtspTimeout" {
			w.fail("the time limit is not that of RTSP")
		}
		w.only(st, "cseq", "conn.Timeout")
		if len(t.ret) != 1 || t.ret[0].sym != errOf(e).sym && !(w.isNil(0) && t.nilState(errOf(e)) == 1) {
			w.fail("the error of writing is not what it returns")
		}
		return kind
	})
	for _, dir := range []string{"Read", "Write"} {
		dir := dir
		r.rtpPaths("format/rtsp:connWithTimeout."+dir, dir+" with a time limit", nil, 100, 2, []string{"limit", "none"}, func(w *rtpWalk) string {
			at, last := w.at(func(e sevent) bool { return isMethod(e, dir) || e.kind == strings.ToLower(dir) })
			if at < 0 || at != last {
				w.fail("does not %s once", strings.ToLower(dir))
				return "none"
			}
			e := w.t.events[at]
			if plain(e.args[0].sym) != "p0.Conn" || !w.whole(e.args[len(e.args)-1], "p1") {
				w.fail("not of the connection and the caller's bytes")
			}
			m := w.methodOn("Set"+dir+"Deadline", e.args[0].sym)
			limit := w.t.x.leaf("p0.Timeout", tInt).lin
			if w.t.implies(limit.mul(-1)) {
				if len(m) > 0 {
					w.fail("there is a time limit that nobody asked for")
				}
				return "none"
			}
			if !w.t.implies(limit.add(sc(-1), 1)) {
				w.fail("does not look whether there is a time limit")
				return "none"
			}
			if len(m) != 1 || m[0] > at {
				w.fail("there is no time limit")
				return "limit"
			}
			a := w.madeBy(w.t.events[m[0]].args[1].sym)
			if a == nil || !extern(*a, "(time.Time).Add") || !w.isNow(a.args[0].sym) || !w.is(a.args[1].lin.add(limit, -1)) {
				w.fail("the time limit is another one")
			}
			return "limit"
		})
	}
}

// firstOf: the part of a string up to a separator.
func (w *rtpWalk) firstOf(sym, sep string) string {
	if i := strings.LastIndexAny(sym, "[."); i > 0 && (sym[i:] == "[0]" || sym[i:] == ".0") {
		m := w.madeBy(sym)
		if sym[i:] == "[0]" {
			m = w.madeBy(sym[:i])
		}
		if m != nil && (extern(*m, "strings.Split") || extern(*m, "strings.SplitN") && constVal(m.args[2]) == 2 || extern(*m, "strings.Cut")) && m.args[1].sym == strconv.Quote(sep) {
			return m.args[0].sym
		}
	}
	return ""
}

// header: a value of the headers of a response.
func (w *rtpWalk) header(sym, of, name string) bool {
	m := w.madeBy(sym)
	return m != nil && extern(*m, "(net/textproto.MIMEHeader).Get") && m.args[0].sym == of && m.args[1].sym == strconv.Quote(name)
}

func (r *Report) rtspAuth() {
	role := map[string]string{}
	clo := ""
	r.rtpPaths("format/rtsp:Client.handle401", "challenge", nil, 20000, 4, []string{"none", "no user", "credentials"}, func(w *rtpWalk) string {
		t := w.t
		// the value is "scheme params"
		cut := w.extCalls("strings.SplitN")
		if len(cut) == 0 || !w.header(cut[0].args[0].sym, "p1.Headers", "WWW-Authenticate") || cut[0].args[1].sym != `" "` || constVal(cut[0].args[2]) != 2 {
			w.fail("does not take the challenge apart")
			return "none"
		}
		st := w.stores("p0")
		w.only(st, "authHeaders")
		idle := func(why string) string {
			if len(st) > 0 || !w.isNil(0) {
				w.fail("%s changes something", why)
			}
			return "none"
		}
		if two := w.len(cut[0].res.sym).add(sc(-2), 1); t.isNeq(two) {
			return idle("a challenge without parameters")
		} else if !w.is(two) {
			w.fail("does not look whether there are parameters")
			return "none"
		}
		list := (*sevent)(nil)
		for _, e := range w.extCalls("strings.Split") {
			if e.args[0].sym == cut[0].res.sym+"[1]" && e.args[1].sym == `","` {
				e := e
				list = &e
			}
		}
		if list == nil {
			w.fail("does not take the parameters apart")
			return "none"
		}
		val := map[string]string{"realm": `""`, "nonce": `""`}
		n := 0
		for _, kv := range cut[1:] {
			f := w.madeBy(kv.args[0].sym)
			if f == nil || !extern(*f, "strings.Trim") || f.args[0].sym != fmt.Sprintf("%s[%d]", list.res.sym, n) || f.args[1].sym != `", "` {
				w.fail("looks at another parameter")
				return "none"
			}
			n++
			if kv.args[1].sym != `"="` || constVal(kv.args[2]) != 2 {
				w.fail("name and value are not what is before and after the first =")
			}
			two := w.len(kv.res.sym).add(sc(-2), 1)
			if t.isNeq(two) {
				continue
			}
			if !w.is(two) {
				w.fail("does not look whether there is a value")
			}
			v := ""
			for _, e := range w.extCalls("strings.Trim") {
				if e.args[0].sym == kv.res.sym+"[1]" && e.args[1].sym == `"\""` {
					v = e.res.sym
				}
			}
			for k := range val {
				switch w.strIs(kv.res.sym+"[0]", k) {
				case 1:
					if v == "" {
						w.fail("the value of %s is not what is between its quotes", k)
					}
					val[k] = v
				case -1:
					w.fail("does not look whether a parameter is %s", k)
				}
			}
		}
		if !w.is(w.len(list.res.sym).add(sc(int64(-n)), 1)) {
			w.fail("does not look at every parameter")
		}
		switch w.strIs(val["realm"], "") {
		case 1:
			return idle("a challenge without realm")
		case -1:
			w.fail("does not look whether there is a realm")
			return "none"
		}
		switch w.userNil() {
		case 1:
			if len(st) > 0 || !w.isErr(0) {
				w.fail("there is no error without a user")
			}
			return "no user"
		case -1:
			w.fail("does not look whether there is a user")
		}
		if !w.isNil(0) || st["authHeaders"] == nil {
			w.fail("the challenge is not kept")
			return "credentials"
		}
		c := w.closure(strings.TrimPrefix(st["authHeaders"].sym, "closure:"))
		if c == nil {
			for i, e := range t.events {
				if e.kind == "closure" {
					c = &t.events[i]
				}
			}
		}
		if c == nil || c.in.Callee == nil {
			w.fail("the answer to the challenge is not a function made here")
			return "credentials"
		}
		clo = "format/rtsp:" + strings.TrimPrefix(strings.TrimPrefix(c.in.Callee.RelString(c.in.Callee.Pkg.Pkg), "(*Client)."), "Client.")
		clo = "format/rtsp:Client." + c.in.Callee.Name()
		for _, fv := range c.in.Callee.FreeVars {
			s := w.bound(*c, "fv:"+fv.Name())
			what := ""
			switch m := w.madeBy(s); {
			case s == "p0":
				what = "self"
			case s == val["realm"] && s != val["nonce"]:
				what = "realm"
			case s == val["nonce"] && s != val["realm"]:
				what = "nonce"
			case m != nil && extern(*m, "(*net/url.Userinfo).Username") && plain(m.args[0].sym) == "p0.url.User":
				what = "username"
			case m != nil && extern(*m, "(*net/url.Userinfo).Password") && plain(m.args[0].sym) == "p0.url.User" && strings.HasSuffix(s, ".0"):
				what = "password"
			case strings.HasPrefix(s, "alloc@"):
				// a variable nothing was stored into
				what = "nonce"
				if val["nonce"] != `""` {
					what = ""
				}
			}
			if old, ok := role[fv.Name()]; ok && old != what {
				w.fail("%s is not always the %s of the challenge", fv.Name(), old)
			}
			role[fv.Name()] = what
		}
		return "credentials"
	})
	if clo == "" {
		return
	}
	name := func(want string) string {
		for k, v := range role {
			if v == want {
				return "fv:" + k
			}
		}
		return "fv:?"
	}
	r.rtpPaths(clo, "answer", stopAt("format/rtsp:md5hash"), 100, 2, []string{"basic", "digest"}, func(w *rtpWalk) string {
		l := w.t.items(w.t.ret[0], nil)
		if len(l) != 1 || l[0].one == nil {
			w.fail("the answer is not one line")
			return "digest"
		}
		user, pass, realm, nonce, self := name("username"), name("password"), name("realm"), name("nonce"), name("self")
		got := w.text(l[0].one)
		in := strings.NewReplacer("U$", user, "P$", pass, "R$", realm, "N$", nonce, "S$", self, "M$", "p0")
		want, kind := "Authorization: Basic base64({U$}:{P$})", "basic"
		switch w.strIs(nonce, "") {
		case 0:
			kind = "digest"
			want = `Authorization: Digest username="{U$}", realm="{R$}", nonce="{N$}", uri="{S$.requestUri}", response="md5(md5({U$}:{R$}:{P$}):{N$}:md5({M$}:{S$.requestUri}))"`
		case -1:
			w.fail("does not look whether there is a nonce")
			return kind
		}
		if want = in.Replace(want); got != want {
			w.fail("the answer is %q", got)
		}
		if len(w.t.stored()) > 0 {
			for _, e := range w.t.events {
				if e.kind == "store" && !strings.HasPrefix(e.name, "alloc@") {
					w.fail("changes %s", e.name)
				}
			}
		}
		return kind
	})
	r.rtpPaths("format/rtsp:md5hash", "hash", nil, 10, 2, []string{"md5"}, func(w *rtpWalk) string {
		m := w.madeBy(w.t.ret[0].sym)
		if m == nil || !extern(*m, "encoding/hex.EncodeToString") {
			w.fail("the hash is not written in hexadecimal digits")
			return "md5"
		}
		s := w.extCalls("crypto/md5.Sum")
		v := w.cell(m.args[0].base)
		if len(s) != 1 || s[0].args[0].sym != "p0" || v == nil || v.sym != s[0].res.sym || !w.is(m.args[0].off) || !w.is(m.args[0].length.add(sc(-16), 1)) {
			w.fail("it is not the MD5 of the string")
		}
		return "md5"
	})
}

// userNil: the address has no user: 1, 0, -1.
func (w *rtpWalk) userNil() int {
	for b, v := range w.t.bools {
		if p := plain(b); p == "p0.url.User==nil" || p == "nil==p0.url.User" {
			return b2i(v)
		}
	}
	return -1
}

func (r *Report) rtspResp() {
	r.rtpPaths("format/rtsp:Client.handleResp", "response", stopAt("format/rtsp:Client.handle401"), 100, 2, []string{"ok", "401"}, func(w *rtpWalk) string {
		t := w.t
		st := w.stores("p0")
		w.only(st, "session")
		gets := w.extCalls("(net/textproto.MIMEHeader).Get")
		id := ""
		for _, e := range gets {
			if w.header(e.res.sym, "p1.Headers", "Session") {
				id = e.res.sym
			}
		}
		has, had := -1, w.strIs("p0.session", "")
		if id != "" {
			has = w.strIs(id, "")
		}
		switch {
		case has == 1 || had == 0:
			if len(st) > 0 {
				w.fail("the session changes")
			}
		case has == 0 && had == 1:
			if st["session"] == nil || w.firstOf(st["session"].sym, ";") != id {
				// the list is never empty
				if l := w.extCalls("strings.Split"); len(l) != 1 || !w.ge(sc(0), w.len(l[0].res.sym)) {
					w.fail("the session is not what the server says, up to the ;")
				}
			}
		default:
			w.fail("does not look at the session")
		}
		l := t.calls("format/rtsp:Client.handle401")
		code := t.x.leaf("p1.StatusCode", tInt).lin.add(sc(-401), 1)
		switch {
		case w.is(code):
			if len(l) != 1 || l[0].args[0].sym != "p0" || l[0].args[1].sym != "p1" {
				w.fail("a 401 is not answered")
				return "401"
			}
			if er := errOf(l[0]); t.ret[0].sym != er.sym && !(w.isNil(0) && t.nilState(er) == 1) {
				w.fail("the error of a 401 is lost")
			}
			return "401"
		case t.isNeq(code):
			if len(l) > 0 || !w.isNil(0) {
				w.fail("another status is taken for a 401")
			}
			return "ok"
		}
		w.fail("does not look whether the status is 401")
		return "ok"
	})
	r.rtpPaths("format/rtsp:Client.parseHeaders", "headers", nil, 100, 2, []string{"error", "status", "no status"}, func(w *rtpWalk) string {
		t := w.t
		l := w.extCalls("(*net/textproto.Reader).ReadLine")
		if len(l) != 1 || len(t.ret) != 3 {
			w.fail("does not read one line")
			return "error"
		}
		src := l[0].args[0].sym
		over := src
		for i, f := range []string{"net/textproto.NewReader", "bufio.NewReader", "bytes.NewReader"} {
			m := w.madeBy(over)
			if m == nil || !extern(*m, f) {
				w.fail("does not read the bytes it is given")
				return "error"
			}
			over = m.args[0].sym
			if i == 2 && !w.whole(m.args[0], "p1") {
				w.fail("does not read the bytes it is given")
			}
		}
		switch t.nilState(errOf(l[0])) {
		case 0:
			if !w.isErr(2) {
				w.fail("a response without first line is not an error")
			}
			return "error"
		case -1:
			w.fail("does not look whether there is a first line")
			return "error"
		}
		h := w.extCalls("(*net/textproto.Reader).ReadMIMEHeader")
		headers := func() {
			if len(h) != 1 || h[0].args[0].sym != src || t.ret[1].sym != h[0].res.tup[0].sym {
				w.fail("the headers are not those that follow")
			}
			if !w.isNil(2) {
				w.fail("a response is an error")
			}
		}
		words := w.extCalls("strings.Split")
		if len(words) != 1 || words[0].args[0].sym != l[0].res.tup[0].sym || words[0].args[1].sym != `" "` {
			w.fail("the status line is not taken apart")
			return "status"
		}
		n := w.len(words[0].res.sym)
		if w.ge(sc(1), n) {
			if !w.is(t.ret[0].lin) {
				w.fail("there is a status without one being given")
			}
			headers()
			return "no status"
		}
		num := w.extCalls("strconv.Atoi")
		if !w.ge(n, sc(2)) || len(num) != 1 || num[0].args[0].sym != words[0].res.sym+"[1]" {
			w.fail("the status is not the second word")
			return "status"
		}
		switch t.nilState(errOf(num[0])) {
		case 0:
			if !w.isErr(2) {
				w.fail("a status that is no number is not an error")
			}
			return "error"
		case 1:
			if !w.is(t.ret[0].lin.add(num[0].res.tup[0].lin, -1)) {
				w.fail("the status is another one")
			}
			headers()
		default:
			w.fail("does not look whether the status is a number")
		}
		return "status"
	})
	r.rtpPaths("format/rtsp:Client.readResp", "message", stopAt("format/rtsp:Client.parseHeaders", "format/rtsp:Client.handleResp"), 100, 2, []string{"error", "body", "no body"}, func(w *rtpWalk) string {
		t := w.t
		l := t.calls("format/rtsp:Client.parseHeaders")
		if len(l) != 1 || !w.whole(l[0].args[1], "p1") || len(t.ret) != 2 {
			w.fail("the headers are not read")
			return "error"
		}
		switch t.nilState(errOf(l[0])) {
		case 0:
			if t.ret[1].sym != errOf(l[0]).sym {
				w.fail("an error of the headers is lost")
			}
			return "error"
		case -1:
			w.fail("does not look whether the headers are right")
			return "error"
		}
		num := w.extCalls("strconv.Atoi")
		if len(num) != 1 || !w.header(num[0].args[0].sym, l[0].res.tup[1].sym, "Content-Length") {
			w.fail("does not look how long the body is")
			return "body"
		}
		n := num[0].res.tup[0]
		cp := w.extCalls("io.CopyN")
		full, _ := w.at(func(e sevent) bool { return e.kind == "read" })
		kind, body := "no body", ""
		if w.ge(n.lin, sc(1)) {
			kind = "body"
			if len(cp) != 1 || full >= 0 || plain(cp[0].args[1].sym) != "p0.brconn" || !w.is(cp[0].args[2].lin.add(n.lin, -1)) {
				w.fail("the body is not the bytes that follow, as many as the header says")
				return kind
			}
			switch t.nilState(errOf(cp[0])) {
			case 0:
				if t.ret[1].sym != errOf(cp[0]).sym {
					w.fail("a body that is cut short is not an error")
				}
				return "error"
			case -1:
				w.fail("does not look whether the whole body came")
			}
			for _, e := range w.extCalls("(*bytes.Buffer).Bytes") {
				if e.args[0].sym == cp[0].args[0].sym {
					body = e.res.sym
				}
			}
		} else if !w.ge(sc(0), n.lin) {
			w.fail("does not look whether there is a body")
		} else if len(cp) > 0 || full >= 0 {
			w.fail("reads a body there is not")
		}
		h := t.calls("format/rtsp:Client.handleResp")
		if len(h) != 1 {
			w.fail("the response is not looked at")
			return kind
		}
		at := h[0].args[1].sym
		for f, want := range map[string]string{"StatusCode": symOf(l[0].res.tup[0]), "Headers": symOf(l[0].res.tup[1]), "ContentLength": symOf(n), "Body": body, "Block": ""} {
			for _, v := range []*sval{w.cell(at + "." + f), t.ret[0].fieldOf(f)} {
				if want == "" && (v == nil || v.isNil) || want != "" && v != nil && plain(symOf(v)) == plain(want) || v != nil && symOf(v) == want {
					continue
				}
				w.fail("%s of the response is something else", f)
			}
		}
		if er := errOf(h[0]); t.ret[1].sym != er.sym && !(w.isNil(1) && t.nilState(er) == 1) {
			w.fail("the error of a response is lost")
		}
		return kind
	})
	stops := stopAt("format/rtsp:Client.findRTSP", "format/rtsp:Client.readLFLF", "format/rtsp:Client.readResp")
	r.rtpPaths("format/rtsp:Client.poll", "input", stops, 100, 2, []string{"error", "block", "response"}, func(w *rtpWalk) string {
		t := w.t
		st := w.stores("p0")
		w.only(st, "conn.Timeout")
		first, _ := w.at(func(e sevent) bool { return e.kind == "call" })
		if i, _ := w.at(func(e sevent) bool { return e.kind == "store" && plain(e.name) == "p0.conn.Timeout" }); i < 0 || i > first || plain(symOf(st["conn.Timeout"])) != "p0.RtspTimeout" {
			w.fail("waits without the time limit of RTSP")
		}
		if len(t.ret) != 2 {
			w.fail("returns something else")
			return "error"
		}
		var text []*sval
		for _, name := range []string{"findRTSP", "readLFLF"} {
			l := t.calls("format/rtsp:Client." + name)
			if len(l) != 1 || l[0].args[0].sym != "p0" {
				w.fail("%s is not called once", name)
				return "error"
			}
			switch t.nilState(errOf(l[0])) {
			case 0:
				if t.ret[1].sym != errOf(l[0]).sym {
					w.fail("an error of %s is lost", name)
				}
				return "error"
			case -1:
				w.fail("does not look at the error of %s", name)
				return "error"
			}
			blk := l[0].res.tup[0]
			n := w.len(blk.base)
			if blk.base == "" {
				n = w.len(blk.sym)
			}
			if w.ge(n, sc(1)) {
				if b := t.ret[0].fieldOf("Block"); b == nil || symOf(b) != symOf(blk) {
					w.fail("a block is lost")
				}
				if s := t.ret[0].fieldOf("StatusCode"); s == nil || !w.is(s.lin) {
					w.fail("a block is taken for a response")
				}
				if !w.isNil(1) {
					w.fail("a block is an error")
				}
				return "block"
			}
			if !w.ge(sc(0), n) {
				w.fail("does not look whether there is a block")
				return "block"
			}
			text = append(text, l[0].res.tup[1])
		}
		l := t.calls("format/rtsp:Client.readResp")
		if len(l) != 1 {
			w.fail("a response is not read")
			return "response"
		}
		if !w.joined(l[0].args[1], text...) {
			w.fail("the headers of a response are other bytes")
		}
		er := errOf(l[0])
		switch t.nilState(er) {
		case 0:
			if t.ret[1].sym != er.sym {
				w.fail("an error of a response is lost")
			}
		case 1:
			if !w.isNil(1) {
				w.fail("a response is an error")
			}
			for _, f := range []string{"StatusCode", "Headers", "ContentLength", "Body"} {
				if v := t.ret[0].fieldOf(f); v == nil || plain(symOf(v)) != plain(l[0].res.tup[0].sym)+"."+f {
					w.fail("%s of a response is lost", f)
				}
			}
		default:
			if t.ret[1].sym != er.sym {
				w.fail("an error of a response is lost")
			}
		}
		return "response"
	})
	r.rtpPaths("format/rtsp:Client.ReadResponse", "next response", stopAt("format/rtsp:Client.poll"), 100, 3, []string{"error", "response"}, func(w *rtpWalk) string {
		l := w.t.calls("format/rtsp:Client.poll")
		for i, e := range l {
			er := errOf(e)
			code := w.t.x.leaf(e.res.tup[0].sym+".StatusCode", tInt).lin
			switch w.t.nilState(er) {
			case 0:
				if i != len(l)-1 || w.t.ret[1].sym != er.sym {
					w.fail("an error is lost")
				}
				return "error"
			case -1:
				if i != len(l)-1 || w.t.ret[1].sym != er.sym {
					w.fail("does not look at the error")
					return "error"
				}
			}
			if w.ge(sc(0), code) && i != len(l)-1 {
				continue // a block
			}
			if !w.ge(code, sc(1)) {
				w.fail("does not look whether it is a response")
				return "response"
			}
			if i != len(l)-1 || w.isErr(1) {
				w.fail("a response is passed over")
			}
			for _, f := range []string{"StatusCode", "Headers", "ContentLength", "Body"} {
				if v := w.t.ret[0].fieldOf(f); v == nil && w.t.ret[0].sym != e.res.tup[0].sym || v != nil && plain(symOf(v)) != plain(e.res.tup[0].sym)+"."+f {
					w.fail("%s of a response is lost", f)
				}
			}
			return "response"
		}
		w.fail("returns without a response")
		return "response"
	})
}

// joined: a slice of bytes is others one after the other.
func (w *rtpWalk) joined(v *sval, parts ...*sval) bool {
	l := pick(w.t.events, func(e sevent) bool { return e.kind == "append" })
	if !strings.HasPrefix(v.sym, "append@") || len(l) != 1 || len(l[0].args) != len(parts) {
		return false
	}
	for i, p := range parts {
		if symOf(l[0].args[i]) != symOf(p) {
			return false
		}
	}
	return true
}

// now: what a cell of the receiver is called when an event happens.
func (w *rtpWalk) now(at int, name string) string {
	s := name
	for _, e := range w.t.events[:at] {
		if (e.kind == "havoc" || e.kind == "store") && plain(e.name) == name {
			s = symOf(e.args[0])
		}
	}
	return s
}

// failing: the calls of a path that can fail, in order. An error ends the
// path and is its result; true when no error is known.
func (w *rtpWalk) failing(ret int, names ...string) (l []int, good bool) {
	good = true
	for i, e := range w.t.events {
		if e.kind != "call" {
			continue
		}
		ours := false
		for _, n := range names {
			ours = ours || calleeName(e) == n
		}
		if !ours {
			continue
		}
		if !good {
			w.fail("goes on after an error")
		}
		l = append(l, i)
		switch er := errOf(e); w.t.nilState(er) {
		case 0:
			if w.t.ret[ret].sym != er.sym {
				w.fail("an error is lost")
			}
			good = false
		case -1:
			if w.t.ret[ret].sym != er.sym {
				w.fail("does not look at an error")
			}
		}
	}
	return
}

type rtspAsk struct {
	method, uri string
	lines       []string
}

// asked: the request of a call of WriteRequest.
func (w *rtpWalk) asked(e sevent) (a rtspAsk) {
	v := e.args[1]
	if e.args[0].sym != "p0" || v.fieldOf("Method") == nil {
		w.fail("the request is not known")
		return
	}
	a.method, a.uri = w.text(v.fieldOf("Method")), w.text(v.fieldOf("Uri"))
	h := v.fieldOf("Header")
	if h == nil {
		w.fail("the headers are not known")
		return
	}
	if h.isNil {
		return
	}
	for _, l := range w.elems(h) {
		if l.one == nil {
			w.fail("the headers are not known")
			return
		}
		a.lines = append(a.lines, w.text(l.one))
	}
	return
}

// elems: the elements of a list that is made here and not changed since.
func (w *rtpWalk) elems(v *sval) []litem {
	l := w.t.items(v, nil)
	if len(l) != 1 || l[0].spread == nil || !strings.HasPrefix(v.base, "alloc@") || !v.hasLen || !v.length.konst() || !v.off.konst() {
		return l
	}
	var out []litem
	for i := int64(0); i < v.length.c && i < 16; i++ {
		c := w.cell(fmt.Sprintf("%s[%d]", v.base, v.off.c+i))
		if c == nil {
			return l
		}
		out = append(out, litem{one: c})
	}
	return out
}

// empty: a string of this moment is "": 1, 0, -1.
func (w *rtpWalk) empty(sym string) int {
	l := w.len(sym)
	switch {
	case w.is(l):
		return 1
	case w.t.isNeq(l) || w.ge(l, sc(1)):
		return 0
	}
	return -1
}

func (w *rtpWalk) asks(e sevent, method, uri string, lines ...string) {
	a := w.asked(e)
	if a.method != method || a.uri != uri {
		w.fail("asks for %s %s, not %s %s", a.method, a.uri, method, uri)
	}
	if strings.Join(a.lines, "\n") != strings.Join(lines, "\n") {
		w.fail("%s has the headers %q", method, a.lines)
	}
}

// stageAfter: the step done is noted when it is the next one.
func (w *rtpWalk) stageAfter(good bool, from int64) {
	n := len(w.t.events)
	var set *sval
	for i, e := range w.t.events {
		if e.kind == "store" && plain(e.name) == "p0.stage" {
			if set != nil {
				w.fail("the step is noted more than once")
			}
			n, set = i, e.args[0]
		}
	}
	d := w.t.x.leaf(w.now(n, "p0.stage"), tInt).lin.add(sc(-from), 1)
	switch {
	case !good:
		if set != nil {
			w.fail("a step that fails is noted")
		}
	case w.is(d):
		if set == nil || constVal(set) != from+1 {
			w.fail("the step done is not noted")
		}
	case w.t.isNeq(d):
		if set != nil {
			w.fail("the session goes back to another step")
		}
	default:
		w.fail("does not look which step is done")
	}
}

const rtspC = "format/rtsp:Client."

func (r *Report) rtspSteps() {
	wr, rd, pr := rtspC+"WriteRequest", rtspC+"ReadResponse", rtspC+"prepare"
	r.rtpPaths(pr, "steps", stopAt(rtspC+"Describe", rtspC+"SetupAll", rtspC+"Play"), 400, 3, []string{"done", "failed"}, func(w *rtpWalk) string {
		l, good := w.failing(0, rtspC+"Describe", rtspC+"SetupAll", rtspC+"Play")
		stage := func(i int) slin { return w.t.x.leaf(w.now(i, "p0.stage"), tInt).lin }
		upto := w.t.x.leaf("p1", tInt).lin
		for _, i := range l {
			e := w.t.events[i]
			for k, n := range []string{"Describe", "SetupAll", "Play"} {
				if calleeName(e) == rtspC+n && (e.args[0].sym != "p0" || !w.is(stage(i).add(sc(int64(-k)), 1)) || !w.ge(upto, stage(i).add(sc(1), 1))) {
					w.fail("%s is not the step that is needed", n)
				}
			}
		}
		if !good {
			return "failed"
		}
		if !w.isNil(0) || !w.ge(stage(len(w.t.events)), upto) {
			w.fail("stops before the steps are done")
		}
		return "done"
	})
	r.rtpPaths(rtspC+"SetupAll", "all streams", stopAt(rtspC+"Setup"), 100, 3, []string{"streams"}, func(w *rtpWalk) string {
		l := w.t.calls(rtspC + "Setup")
		if len(l) != 1 || w.t.ret[0].sym != errOf(l[0]).sym {
			w.fail("does not set the streams up")
			return "streams"
		}
		v := l[0].args[1]
		n := 0
		if !v.isNil {
			for _, it := range w.t.items(v, nil) {
				if it.one == nil || !w.is(it.one.lin.add(sc(int64(-n)), 1)) {
					w.fail("a stream is left out, or out of order")
					return "streams"
				}
				n++
			}
		}
		if !w.is(w.len("p0.streams").add(sc(int64(-n)), 1)) {
			w.fail("not every stream is set up")
		}
		return "streams"
	})
	r.rtpPaths(rtspC+"Setup", "setup", stopAt(wr, rd, pr), 4000, 3, []string{"done", "failed", "no such stream"}, func(w *rtpWalk) string {
		l, good := w.failing(0, wr, rd, pr)
		if len(l) == 0 || calleeName(w.t.events[l[0]]) != pr || constVal(w.t.events[l[0]].args[1]) != w.c.r.pkgConst("format/rtsp", "stageDescribeDone") {
			w.fail("does not ask for the description first")
			return "failed"
		}
		n := 0
		seen := ""
		for k, i := range l[1:] {
			e := w.t.events[i]
			if k%2 == 1 {
				if calleeName(e) != rd {
					w.fail("two requests without a response between them")
				}
				n++
				continue
			}
			if calleeName(e) != wr {
				w.fail("waits for a response nobody asked for")
				return "failed"
			}
			si := fmt.Sprintf("p1[%d]", n)
			x := w.t.x.leaf(si, tInt).lin
			if !w.ge(x, sc(0)) || !w.lessLen(x, "p0.streams") {
				w.fail("a stream there is not is set up")
			}
			control := "p0.streams[" + si + "].Sdp.Control"
			uri := "{p0.requestUri}/{" + control + "}"
			looked := false
			for _, h := range w.extCalls("strings.HasPrefix") {
				if plain(h.args[0].sym) == control && h.args[1].sym == `"rtsp://"` {
					switch w.t.truth(h.res) {
					case 1:
						uri, looked = "{"+control+"}", true
					case 0:
						looked = true
					}
				}
			}
			if !looked {
				w.fail("does not look whether the control of a stream is an address")
			}
			lines := []string{fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved={%s}-{%s}", symOf(&sval{isInt: true, lin: x.mul(2)}), symOf(&sval{isInt: true, lin: x.mul(2).add(sc(1), 1)}))}
			id := w.now(i, "p0.session")
			if id == seen {
				w.fail("the session is not the one of the last response")
			}
			seen = id
			switch w.empty(id) {
			case 0:
				lines = append(lines, "Session: {p0.session}")
				if !strings.Contains(w.rawLines(e), id) {
					w.fail("the session is not the one of the last response")
				}
			case 1:
			default:
				w.fail("does not look whether there is a session")
			}
			w.asks(e, "SETUP", uri, lines...)
		}
		if !good {
			w.stageAfter(false, 0)
			return "failed"
		}
		if len(l)%2 == 0 {
			w.fail("a request is not waited for")
		}
		if x := w.t.x.leaf(fmt.Sprintf("p1[%d]", n), tInt).lin; w.isErr(0) && w.ge(w.len("p1"), sc(int64(n+1))) {
			if w.ge(x, sc(0)) && w.lessLen(x, "p0.streams") {
				w.fail("a stream there is is refused")
			}
			w.stageAfter(false, 0)
			return "no such stream"
		}
		if !w.is(w.len("p1").add(sc(int64(-n)), 1)) {
			w.fail("not every stream asked for is set up")
		}
		w.stageAfter(true, 1)
		return "done"
	})
	r.rtpPaths(rtspC+"Play", "play", stopAt(wr, rd, pr), 100, 2, []string{"done", "failed"}, func(w *rtpWalk) string {
		l, good := w.failing(0, wr, rd, pr)
		if len(l) != 1 || calleeName(w.t.events[l[0]]) != wr {
			w.fail("does not ask for one thing")
			return "failed"
		}
		w.asks(w.t.events[l[0]], "PLAY", "{p0.requestUri}", "Session: {p0.session}")
		if !good {
			w.stageAfter(false, 0)
			return "failed"
		}
		w.stageAfter(true, 2)
		return "done"
	})
	r.rtpPaths(rtspC+"Teardown", "teardown", stopAt(wr, rd, pr), 100, 2, []string{"done"}, func(w *rtpWalk) string {
		l, _ := w.failing(0, wr, rd, pr)
		if len(l) != 1 || calleeName(w.t.events[l[0]]) != wr {
			w.fail("does not ask for one thing")
			return "done"
		}
		w.asks(w.t.events[l[0]], "TEARDOWN", "{p0.requestUri}", "Session: {p0.session}")
		return "done"
	})
	r.rtpPaths(rtspC+"Options", "options", stopAt(wr, rd, pr), 100, 2, []string{"done", "failed"}, func(w *rtpWalk) string {
		l, good := w.failing(0, wr, rd, pr)
		if len(l) == 0 || calleeName(w.t.events[l[0]]) != wr || good && (len(l) != 2 || calleeName(w.t.events[l[1]]) != rd) {
			w.fail("does not ask and wait for the response")
			return "failed"
		}
		switch w.strIs("p0.session", "") {
		case 0:
			w.asks(w.t.events[l[0]], "OPTIONS", "{p0.requestUri}", "Session: {p0.session}")
		case 1:
			w.asks(w.t.events[l[0]], "OPTIONS", "{p0.requestUri}")
		default:
			w.fail("does not look whether there is a session")
		}
		if !good {
			return "failed"
		}
		return "done"
	})
	r.rtpPaths(rtspC+"SendRtpKeepalive", "keep alive", stopAt(wr, rd, pr), 100, 2, []string{"off", "first", "sent", "not yet"}, func(w *rtpWalk) string {
		l, _ := w.failing(0, wr, rd, pr)
		st := w.stores("p0")
		limit := w.t.x.leaf("p0.RtpKeepAliveTimeout", tInt).lin
		timer := func(v *sval) bool { return w.samePacket(v, "p0.rtpKeepaliveTimer", nil) }
		idle := func(kind string) string {
			if len(l) > 0 || !w.isNil(0) {
				w.fail("sends something")
			}
			return kind
		}
		if w.ge(sc(0), limit) {
			w.only(st)
			return idle("off")
		}
		z := w.extCalls("(time.Time).IsZero")
		if !w.ge(limit, sc(1)) || len(z) != 1 || !timer(z[0].args[0]) {
			w.fail("does not look whether the time is known")
			return "first"
		}
		w.only(st, "rtpKeepaliveTimer")
		restarted := func(yes bool) {
			if (st["rtpKeepaliveTimer"] != nil) != yes || yes && !w.isNow(st["rtpKeepaliveTimer"].sym) {
				w.fail("the time of the last one is not kept")
			}
		}
		switch w.t.truth(z[0].res) {
		case 1:
			restarted(true)
			return idle("first")
		case -1:
			w.fail("does not look whether the time is known")
			return "first"
		}
		since := (*sevent)(nil)
		for _, e := range append(w.extCalls("(time.Time).Sub"), w.extCalls("time.Since")...) {
			e := e
			if len(e.args) == 2 && w.isNow(e.args[0].sym) && timer(e.args[1]) || len(e.args) == 1 && timer(e.args[0]) {
				since = &e
			}
		}
		switch {
		case since == nil:
			w.fail("does not look how long ago the last one was")
		case w.ge(since.res.lin, limit.add(sc(1), 1)):
			restarted(true)
			if len(l) != 1 {
				w.fail("sends nothing")
				return "sent"
			}
			w.asks(w.t.events[l[0]], "OPTIONS", "{p0.requestUri}")
			return "sent"
		case w.ge(limit, since.res.lin):
			restarted(false)
			return idle("not yet")
		default:
			w.fail("does not look whether it is time")
		}
		return "sent"
	})
	r.rtpPaths(rtspC+"Close", "close", nil, 10, 2, []string{"close"}, func(w *rtpWalk) string {
		l := w.methodOn("Close", "p0.conn.Conn")
		if len(l) != 1 || w.t.ret[0].sym != errOf(w.t.events[l[0]]).sym {
			w.fail("does not close the connection")
		}
		return "close"
	})
}

// lessLen: a number is less than the length of a list of the receiver.
func (w *rtpWalk) lessLen(x slin, list string) bool {
	names := []string{list}
	for _, e := range w.t.events {
		if (e.kind == "havoc" || e.kind == "store") && plain(e.name) == list {
			names = append(names, symOf(e.args[0]))
		}
	}
	for _, n := range names {
		if w.t.implies(w.len(n).add(x, -1).add(sc(-1), 1)) {
			return true
		}
	}
	return false
}

// rawLines: the headers of a request with the version of every value.
func (w *rtpWalk) rawLines(e sevent) (s string) {
	h := e.args[1].fieldOf("Header")
	if h == nil || h.isNil {
		return
	}
	for _, l := range w.elems(h) {
		if l.one != nil {
			s += symOf(l.one) + "\n"
		}
	}
	return
}

func (r *Report) rtspDescribe() {
	wr, rd, pr := rtspC+"WriteRequest", rtspC+"ReadResponse", rtspC+"prepare"
	parse, mk := "format/rtsp/sdp:Parse", "format/rtsp:Stream.makeCodec"
	r.rtpPaths(rtspC+"Describe", "describe", stopAt(wr, rd, pr, parse, mk), 4000, 3, []string{"done", "failed", "refused"}, func(w *rtpWalk) string {
		t := w.t
		l, good := w.failing(0, wr, rd, mk)
		var last *sevent
		var medias []sevent
		n, at := 0, len(t.events)
		for k, i := range l {
			e := t.events[i]
			switch calleeName(e) {
			case wr:
				if k%2 != 0 || k >= 4 {
					w.fail("asks once too often")
				}
				if last != nil {
					if code := t.x.leaf(last.res.tup[0].sym+".StatusCode", tInt).lin.add(sc(-200), 1); !t.isNeq(code) {
						w.fail("asks again after being answered")
					}
				}
				w.asks(e, "DESCRIBE", "{p0.requestUri}", "Accept: application/sdp")
				n++
			case rd:
				last = &t.events[i]
			case mk:
				if len(medias) == 0 {
					at = i
				}
				medias = append(medias, e)
			}
		}
		sp := t.calls(parse)
		if !good && len(sp) == 0 {
			w.stageAfter(false, 0)
			return "failed"
		}
		if last == nil {
			w.fail("asks for nothing")
			return "failed"
		}
		code := t.x.leaf(last.res.tup[0].sym+".StatusCode", tInt).lin.add(sc(-200), 1)
		size := t.x.leaf(last.res.tup[0].sym+".ContentLength", tInt).lin
		if t.isNeq(code) || w.is(size) {
			if n < 2 && t.isNeq(code) {
				w.fail("does not ask again, with credentials")
			}
			if len(sp) > 0 || !w.isErr(0) {
				w.fail("a refusal is taken for a description")
			}
			w.stageAfter(false, 0)
			return "refused"
		}
		if !w.is(code) || !t.isNeq(size) {
			w.fail("does not look whether it is answered")
		}
		if len(sp) != 1 || plain(sp[0].args[0].sym) != plain(last.res.tup[0].sym)+".Body" {
			w.fail("the description is not the body of the response")
			return "done"
		}
		list := sp[0].res.tup[1].sym
		var want []string
		for k, e := range medias {
			s := e.args[0].sym
			want = append(want, s)
			c, d := w.cell(s+".client"), w.cell(s+".Sdp")
			if c == nil || c.sym != "p0" || d == nil || !w.samePacket(d, fmt.Sprintf("%s[%d]", plain(list), k), nil) {
				w.fail("a stream is not the one of its media")
			}
			if len(w.stores(s)) != 2 {
				w.fail("a stream does not start anew")
			}
		}
		_ = at
		if !good {
			w.stageAfter(false, 0)
			return "failed"
		}
		if !w.is(w.len(list).add(sc(int64(-len(medias))), 1)) {
			w.fail("not every media becomes a stream")
		}
		var got []string
		if v := w.cell("p0.streams"); v == nil {
			w.fail("the streams are not kept")
		} else if !v.isNil {
			for _, it := range t.items(v, nil) {
				if it.one == nil {
					w.fail("the streams are not known")
					break
				}
				got = append(got, it.one.sym)
			}
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			w.fail("the streams are not in order")
		}
		if !w.isNil(0) && t.nilState(t.ret[0]) != 1 {
			w.fail("a description is an error")
		}
		w.stageAfter(true, 0)
		return "done"
	})
	r.rtpPaths(rtspC+"Streams", "streams", stopAt(pr), 100, 3, []string{"done", "failed"}, func(w *rtpWalk) string {
		t := w.t
		l, good := w.failing(1, pr)
		if len(l) != 1 || constVal(t.events[l[0]].args[1]) != w.c.r.pkgConst("format/rtsp", "stageDescribeDone") {
			w.fail("does not ask for the description first")
			return "failed"
		}
		if !good {
			return "failed"
		}
		n := 0
		if v := t.ret[0]; !v.isNil {
			for _, it := range t.items(v, nil) {
				if it.one == nil || plain(it.one.sym) != fmt.Sprintf("p0.streams[%d].Codec", n) {
					w.fail("the codecs are not those of the streams, in order")
					return "done"
				}
				n++
			}
		}
		if !w.is(w.len(w.now(len(t.events), "p0.streams")).add(sc(int64(-n)), 1)) || !w.isNil(1) {
			w.fail("not every stream has its codec")
		}
		return "done"
	})
	keep, poll, blk := rtspC+"SendRtpKeepalive", rtspC+"poll", rtspC+"handleBlock"
	r.rtpPaths(rtspC+"ReadPacket", "read", stopAt(pr, keep, poll, blk), 4000, 3, []string{"packet", "failed"}, func(w *rtpWalk) string {
		t := w.t
		l, good := w.failing(1, pr, keep, poll, blk)
		if len(l) == 0 || calleeName(t.events[l[0]]) != pr || constVal(t.events[l[0]].args[1]) != w.c.r.pkgConst("format/rtsp", "stagePlayDone") {
			w.fail("does not start playing first")
			return "failed"
		}
		if len(l) > 1 && calleeName(t.events[l[1]]) != keep {
			w.fail("does not keep the session alive")
		}
		got := ""
		for k, i := range l {
			if k < 2 {
				continue
			}
			e := t.events[i]
			switch calleeName(e) {
			case poll:
				if got != "" {
					w.fail("a block is lost")
				}
				if t.nilState(errOf(e)) != 1 {
					continue
				}
				b := e.res.tup[0].sym + ".Block"
				n := w.len(b)
				switch {
				case w.ge(n, sc(1)):
					got = b
				case w.ge(sc(0), n):
				default:
					w.fail("does not look whether it is a block")
				}
			case blk:
				if got == "" || plain(e.args[1].sym) != plain(got) {
					w.fail("another block is handed on")
				}
				got = ""
				if t.nilState(errOf(e)) != 1 {
					continue
				}
				last := k == len(l)-1
				if is := t.truth(e.res.tup[1]); is == -1 || is == 1 != last {
					w.fail("a packet is lost, or there is none")
				}
				if last && !w.samePacket(t.ret[0], plain(e.res.tup[0].sym), nil) {
					w.fail("the packet is another one")
				}
			default:
				w.fail("does something twice")
			}
		}
		if !good {
			return "failed"
		}
		if !w.isNil(1) && t.nilState(t.ret[1]) != 1 || len(l) < 4 {
			w.fail("returns without a packet")
		}
		return "packet"
	})
}

func (r *Report) rtspFrame() {
	r.rtpPaths(rtspC+"parseBlockHeader", "frame", nil, 100, 2, []string{"no stream", "short", "rtcp", "version", "type", "first", "time"}, func(w *rtpWalk) string {
		t := w.t
		if len(t.ret) != 3 || !w.is(t.ret[0].lin.add(w.be16("p1", sc(2)).lin, -1)) || !w.is(t.ret[1].lin.add(w.field("p1", sc(1), 0, 8).lin, -1)) {
			w.fail("length and channel are not those of the frame")
			return "short"
		}
		if len(w.t.stored()) > 0 {
			w.fail("changes something")
		}
		valid := t.truth(t.ret[2])
		is := func(want bool, kind string) string {
			if valid != b2i(want) {
				w.fail("a frame is %v, not %v", valid == 1, want)
			}
			return kind
		}
		ch := w.field("p1", sc(1), 1, 7).lin
		n := w.len("p0.streams")
		size := w.be16("p1", sc(2)).lin
		noCh, short := w.ge(ch, n), w.ge(sc(7), size)
		switch {
		case noCh:
			return is(false, "no stream")
		case short:
			return is(false, "short")
		case !w.ge(n, ch.add(sc(1), 1)):
			w.fail("does not look whether the channel has a stream")
		case !w.ge(size, sc(8)):
			w.fail("does not look how long the frame is")
		}
		switch w.bit("p1", sc(1), 0) {
		case 1:
			return is(true, "rtcp")
		case -1:
			w.fail("does not look whether the channel is one of RTP")
		}
		bs := t.byteAt("p1", sc(4), 0)
		high := t.x.fromBits(padBits(append(padBits(nil, 6), bs[6:8]...), 64), tInt).lin.add(sc(-128), 1)
		two := w.field("p1", sc(4), 6, 2).lin.add(sc(-2), 1)
		st := "p0.streams[" + ch.String() + "]."
		pt := w.field("p1", sc(5), 0, 7).lin.add(t.x.leaf(st+"Sdp.PayloadType", tInt).lin, -1)
		if t.isNeq(high) || t.isNeq(two) {
			return is(false, "version")
		}
		if t.isNeq(pt) {
			return is(false, "type")
		}
		if !w.is(pt) {
			w.fail("does not look at the payload type")
		}
		if !w.is(high) && !w.is(two) {
			w.fail("does not look at the version")
		}
		switch t.truth(t.x.leaf(st+"gotfirst", tBool)) {
		case 0:
			return is(true, "first")
		case -1:
			w.fail("does not look whether there was a packet before")
			return "first"
		}
		// the time since the first packet: not before the last one, and not more than an hour after it
		var ts []sbit
		for i := int64(11); i >= 8; i-- {
			ts = append(ts, t.byteAt("p1", sc(i), 0)...)
		}
		since := t.x.fromBits(padBits(ts, 64), tInt).lin.add(t.x.leaf(st+"firsttimestamp", tInt).lin, -1).add(t.x.leaf(st+"timestamp", tInt).lin, -1)
		switch {
		case w.ge(sc(-1), since):
			return is(false, "time")
		case !w.ge(since, sc(0)):
			w.fail("does not look whether the time goes back")
			return "time"
		}
		scale := t.x.leaf(st+"Sdp.TimeScale", tInt).lin
		hour := func(l slin) bool {
			if w.is(scale) {
				return l.konst() && l.c == 8000*60*60
			}
			return !strings.HasPrefix(l.String(), "-") && !strings.Contains(l.String(), "timestamp") && strings.Contains(l.String(), "3600*") && strings.Contains(l.String(), st+"Sdp.TimeScale") && t.isNeq(scale)
		}
		for _, c := range t.conds {
			if hour(c.lin.add(since, 1)) {
				return is(true, "time")
			}
			if hour(c.lin.add(since, -1).add(sc(1), 1).mul(-1)) {
				return is(false, "time")
			}
		}
		w.fail("does not look whether the time is more than an hour ahead")
		return "time"
	})
}

// rtspScan: a turn of the loops that look for a frame or a response.
func (r *Report) rtspScan(name string, every bool) {
	f := r.buildFor(rtspC+name, stopAt(rtspC+"parseBlockHeader"))
	if f == nil {
		return
	}
	ts, over := tracesOpt(f, 5000, nil, 1, true, nil)
	if over {
		r.fail("paths|"+name, r.P.pos(f.Root.Pos()), "too many paths to analyse")
		return
	}
	got := map[string]int{}
	for _, t := range ts {
		w := &rtpWalk{t: t, c: chk{r, t, "rtp|scan " + name}}
		k := w.scan(every)
		if w.bad != "" {
			w.c.bad(k, "%s", w.bad)
			return
		}
		got[k]++
		r.ok(name + ": " + k)
	}
	for _, k := range []string{"error", "frame", "text", "on"} {
		r.need("turns of "+name+": "+k, got[k], 1)
	}
}

func (w *rtpWalk) scan(every bool) string {
	t := w.t
	rb := w.extCalls("(*bufio.Reader).ReadByte")
	if len(rb) != 1 || plain(rb[0].args[0].sym) != "p0.brconn" {
		w.fail("does not read one byte")
		return "error"
	}
	if er := errOf(rb[0]); t.nilState(er) != 1 {
		if t.back || len(t.ret) != 3 || t.ret[2].sym != er.sym {
			w.fail("an error of reading is lost")
		}
		return "error"
	}
	val := rb[0].res.tup[0].bits
	isByte := func(v *sval) bool {
		if !v.hasLen || !w.is(v.length.add(sc(-1), 1)) || !w.is(v.off) || len(val) < 8 {
			return false
		}
		for _, m := range t.mem {
			if m.base == v.base && m.kind == 0 && w.is(m.off) && len(m.bits) >= 8 && bitStr(m.bits[:8]) == bitStr(val[:8]) {
				return true
			}
		}
		return false
	}
	long := func(v *sval) slin {
		if v.hasLen {
			return v.length
		}
		return w.len(v.sym)
	}
	var add []sevent
	for _, e := range t.events {
		if e.kind == "append" && len(e.args) == 2 && isByte(e.args[1]) {
			add = append(add, e)
		}
	}
	if len(add) > 1 || every && len(add) == 0 {
		w.fail("a byte is lost or kept twice")
	}
	hd := t.calls(rtspC + "parseBlockHeader")
	if len(hd) > 1 {
		w.fail("looks at two headers at once")
		return "on"
	}
	ok := 0
	if len(hd) == 1 {
		ok = t.truth(hd[0].res.tup[2])
	}
	rd := pick(t.events, func(e sevent) bool { return e.kind == "read" })
	if ok != 1 {
		if ok == -1 {
			w.fail("does not look whether it is a frame")
		}
		if len(rd) > 0 {
			w.fail("reads a frame that is none")
		}
		if t.back {
			return "on"
		}
		n := 0
		if b := t.ret[0]; len(t.ret) != 3 || !b.isNil || !w.isNil(2) && t.nilState(t.ret[2]) != 1 {
			w.fail("returns a frame that is none")
			return "text"
		}
		for _, e := range add {
			if w.is(long(t.ret[1]).add(long(e.args[0]), -1).add(sc(-1), 1)) {
				n++
			}
		}
		if n != 1 || !strings.HasPrefix(t.ret[1].sym, "append@") {
			w.fail("the text is not what has been read")
		}
		return "text"
	}
	if t.back || len(t.ret) != 3 {
		w.fail("a frame is passed over")
		return "frame"
	}
	b, h := t.ret[0], hd[0].args[1]
	if len(rd) != 1 || plain(rd[0].name) != "p0.brconn" {
		w.fail("the rest of a frame is not read")
		return "frame"
	}
	if t.ret[2].sym != errOf(rd[0]).sym && !(w.isNil(2) && t.nilState(errOf(rd[0])) == 1) {
		w.fail("a frame that is cut short is not an error")
	}
	var head *sval
	for _, e := range t.events {
		if e.kind == "append" && len(e.args) == 2 && e.args[0].str() == h.str() && e.in.Dst != nil {
			head = e.args[0]
		}
	}
	if head == nil || !strings.HasPrefix(b.sym, "append@") || !b.hasLen {
		w.fail("the frame does not start with its header")
		return "frame"
	}
	if !w.is(b.length.add(hd[0].res.tup[0].lin, -1).add(sc(-4), 1)) {
		w.fail("the frame is not as long as it says")
	}
	v := rd[0].args[0]
	if v.base != b.base || !w.is(v.off.add(b.off, -1).add(h.length, -1)) || !w.is(v.length.add(h.length, 1).add(b.length, -1)) {
		w.fail("the rest of the frame is read to another place")
	}
	return "frame"
}

func init() {
	register("C30", "proof", func(r *Report, thorough bool) {
		r.rule("Requests are compared as text with what the request says; what is kept of a response, how a challenge is answered and what each step of a session asks for are compared, path by path, with what the property says.")
		r.rtspWrite()
		r.rtspAuth()
		r.rtspResp()
		r.rtspSteps()
		r.rtspDescribe()
		r.rtspFrame()
		r.rtspScan("findRTSP", false)
		r.rtspScan("readLFLF", true)
	})
}
