package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// C13: the command exchange of an RTMP session. Every path of the functions
// that drive it is turned into the sequence of commands and control messages
// it sends, flushes and waits for, and compared with the exchange the
// protocol prescribes for what was received.

var sessStops = []string{
	"format/rtmp:Conn.writeCommand", "format/rtmp:Conn.readCommand", "format/rtmp:Conn.WriteEvent", "format/rtmp:Conn.writeEvent2",
	"format/rtmp:wrapReadWriter.Flush", "format/rtmp:createURL", "format/rtmp:splitPath", "format/rtmp:getTcURL", "format/rtmp:Conn.writeMsg",
	"format/flv/flvio:AMFMap.GetString", "format/flv/flvio:AMFMap.GetFloat64", "format/flv/flvio:FillAMF0Vals",
}

type sessEv struct {
	kind string // read, cmd, ctl, flush, msg
	e    sevent
	at   int    // index of the event
	r    string // read: the command
}

type sess struct {
	chk
	ei     int
	ev     []sessEv
	i      int
	failed *sval // the error of the operation that failed
	names  map[string]string
	reads  int
	now    int // elements are read as of this event
}

var sessKinds = map[string]string{
	"format/rtmp:Conn.writeCommand": "cmd", "format/rtmp:Conn.readCommand": "read", "format/rtmp:Conn.WriteEvent": "ctl", "format/rtmp:Conn.writeEvent2": "ctl",
	"format/rtmp:wrapReadWriter.Flush": "flush", "format/rtmp:Conn.writeMsg": "msg",
}

func newSess(r *Report, t *Trace, key string, ei int) *sess {
	s := &sess{chk: chk{r, t, key}, ei: ei, names: map[string]string{}, now: len(t.events)}
	for i, e := range t.events {
		if e.kind != "call" || e.in.Callee == nil {
			continue
		}
		k := sessKinds[anchorName(e.in.Callee)]
		if e.res != nil {
			id := e.res.sym
			switch {
			case k == "read":
				s.reads++
				s.names[id+".0"] = fmt.Sprintf("R%d", s.reads)
			case strings.HasSuffix(calleeName(e), "GetString") && len(e.args) == 2:
				s.names[id+".0"] = s.str(e.args[0]) + ":" + strings.Trim(e.args[1].sym, `"`)
				s.names[id+".1"] = "ok(" + s.str(e.args[0]) + ":" + strings.Trim(e.args[1].sym, `"`) + ")"
			case strings.HasSuffix(calleeName(e), "GetFloat64") && len(e.args) == 2:
				s.names[id+".0"] = s.str(e.args[0]) + "#" + strings.Trim(e.args[1].sym, `"`)
			case anchorName(e.in.Callee) == "format/rtmp:splitPath":
				s.names[id+".0"] = "app(" + s.str(e.args[0]) + ")"
				s.names[id+".1"] = "stream(" + s.str(e.args[0]) + ")"
			case anchorName(e.in.Callee) == "format/rtmp:getTcURL":
				s.names[id] = "tcurl(" + s.str(e.args[0]) + ")"
			case anchorName(e.in.Callee) == "format/rtmp:createURL" && len(e.args) == 3:
				s.names[id+".0"] = "url(" + s.str(e.args[0]) + "," + s.str(e.args[1]) + "," + s.str(e.args[2]) + ")"
			}
		}
		if k != "" {
			x := sessEv{kind: k, e: e, at: i}
			if k == "read" && e.res != nil {
				x.r = s.names[e.res.sym+".0"]
			}
			s.ev = append(s.ev, x)
		}
	}
	return s
}

var symRe = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*@\d+(\.\d)?`)

// text replaces the results of calls by what they are.
func (s *sess) text(x string) string {
	return symRe.ReplaceAllStringFunc(plain(x), func(m string) string {
		if n := s.names[m]; n != "" {
			return n
		}
		return m
	})
}

func (s *sess) str(v *sval) string {
	switch {
	case v == nil:
		return "?"
	case v.isNil:
		return "nil"
	case v.isInt:
		return s.text(v.lin.String())
	case v.sym != "":
		return s.text(v.sym)
	}
	return s.text(v.str())
}

// amf renders a value that is sent.
func (s *sess) amf(v *sval) string {
	if v == nil || v.isInt || v.isNil || v.fields != nil {
		return s.str(v)
	}
	if v.hasLen && (v.base != "" || v.list != nil) && !strings.HasPrefix(v.sym, `"`) {
		var out []string
		l := s.list(v)
		if l == nil {
			return s.str(v)
		}
		for _, it := range l {
			if len(it.fields) != 2 {
				return s.str(v)
			}
			out = append(out, strings.Trim(s.str(it.fields[0]), `"`)+":"+s.amf(it.fields[1]))
		}
		return "{" + strings.Join(out, ",") + "}"
	}
	return s.str(v)
}

// key looks up one member of a rendered object.
func member(obj, key string) string {
	if !strings.HasPrefix(obj, "{") {
		return ""
	}
	depth, start := 0, 1
	for i := 1; i < len(obj); i++ {
		switch c := obj[i]; {
		case c == '{' || c == '(':
			depth++
		case (c == '}' || c == ')') && depth > 0:
			depth--
		case c == '}' || c == ',' && depth == 0:
			if m := obj[start:i]; strings.HasPrefix(m, key+":") {
				return m[len(key)+1:]
			}
			start = i + 1
		}
	}
	return ""
}

// cond is the path's answer to a question about a received command.
func (s *sess) cond(match func(text string) bool) int {
	res := -1
	var ks []string
	for k := range s.t.bools {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if match(s.text(k)) {
			res = 0
			if s.t.bools[k] {
				return 1
			}
		}
	}
	return res
}

// is: the string v has the value c on this path.
func (s *sess) is(v, c string) int {
	q := `"` + c + `"`
	k := s.cond(func(x string) bool { return x == q+"=="+v || x == v+"=="+q })
	if k == -1 {
		// another value decides it too
		if s.cond(func(x string) bool {
			return strings.HasPrefix(x, `"`) && strings.HasSuffix(x, `"==`+v)
		}) == 1 {
			return 0
		}
	}
	return k
}

func (s *sess) isNil(v string) int {
	return s.cond(func(x string) bool { return x == v+"==nil" })
}

// lenIs0: 1 when the path knows that v is empty, 0 that it is not.
func (s *sess) lenIs0(v string) int {
	for _, c := range s.t.conds {
		for k := range c.lin.t {
			if s.text(k) == "len("+v+")" {
				l := sterm(k)
				switch {
				case s.t.isEq(l):
					return 1
				case s.t.isNeq(l) || s.t.implies(l.add(sc(-1), 1)):
					return 0
				}
			}
		}
	}
	if k := s.is(v, ""); k >= 0 {
		return k
	}
	return -1
}

// end: the path has nothing more to send or to wait for.
func (s *sess) rest() bool {
	if s.i < len(s.ev) {
		s.bad("extra", "goes on with %s where the exchange is over", s.show(s.ev[s.i]))
		return true
	}
	return false
}

func (s *sess) show(e sessEv) string {
	switch e.kind {
	case "cmd":
		if len(e.e.args) == 4 {
			var as []string
			s.now = e.at
			for _, a := range s.list(e.e.args[3]) {
				as = append(as, s.amf(a))
			}
			return "command " + s.str(e.e.args[2]) + " [" + strings.Join(as, " ") + "]"
		}
	case "ctl":
		return "control message " + s.str(e.e.args[1])
	}
	return e.kind
}

// list is what a slice holds as of now.
func (s *sess) list(v *sval) (out []*sval) {
	if v.list == nil && v.hasLen && v.length.konst() && v.off.konst() && v.length.c <= 64 {
		for i := int64(0); i < v.length.c; i++ {
			cell := fmt.Sprintf("%s[%d]", v.base, v.off.c+i)
			var e *sval
			for _, x := range s.t.events[:s.now] {
				if x.kind == "store" && x.name == cell && len(x.args) > 0 {
					e = x.args[0]
				}
			}
			if e == nil {
				return nil
			}
			out = append(out, e)
		}
		return
	}
	for _, it := range s.t.items(v, nil) {
		if it.one == nil {
			return nil
		}
		out = append(out, it.one)
	}
	return
}

// refuse: the path ends here, with an error of its own.
func (s *sess) refuse(why string) {
	if s.rest() {
		return
	}
	if !s.t.failure(s.ei) {
		s.bad("refuse|"+why, "does not fail although %s", why)
		return
	}
	s.r.ok(s.key + ": fails when " + why)
}

// do takes the next step of the exchange; false ends the comparison.
func (s *sess) do(kind, what string) (sessEv, bool) {
	if s.i >= len(s.ev) {
		switch {
		case s.t.end == nil || s.t.end.Op != OpReturn:
			s.bad("step|"+what, "%s: the path turns back without it", what)
		case s.t.failure(s.ei):
			s.bad("refuse|"+what, "fails for no reason the protocol knows, before %s", what)
		default:
			s.bad("step|"+what, "%s: missing", what)
		}
		return sessEv{}, false
	}
	e := s.ev[s.i]
	if e.kind != kind {
		s.bad("step|"+what, "%s: %s happens instead", what, s.show(e))
		return e, false
	}
	s.i++
	er := e.e.res
	if er != nil && er.tup != nil {
		er = er.tup[len(er.tup)-1]
	}
	if er == nil {
		s.bad("err|"+what, "%s: the error is not looked at", what)
		return e, false
	}
	if s.t.end != nil && s.t.end.Op == OpReturn && s.ei < len(s.t.ret) && s.t.ret[s.ei].sym == er.sym && s.i == len(s.ev) && s.t.nilState(er) == -1 {
		// the last step: its result is the function's
		s.failed = er
		return e, true
	}
	switch s.t.nilState(er) {
	case 0:
		if !s.rest() {
			if !s.t.failure(s.ei) {
				s.bad("err|"+what, "%s failed, and the function does not", what)
			} else {
				s.r.ok(s.key + ": fails with " + what)
			}
		}
		return e, false
	case -1:
		s.bad("err|"+what, "%s: the path does not look at the error", what)
		return e, false
	}
	return e, true
}

// command takes a command that is sent. want lists its values; "*" is any
// value, "{k:v,...}" an object with at least these members.
func (s *sess) command(what, msid string, want ...string) bool {
	e, ok := s.do("cmd", what)
	if !ok {
		return false
	}
	if len(e.e.args) != 4 {
		s.bad("step|"+what, "%s: not understood", what)
		return false
	}
	if g := s.str(e.e.args[2]); g != msid {
		s.bad("msid|"+what, "%s is sent on message stream %s, not %s", what, g, msid)
		return false
	}
	s.now = e.at
	as := s.list(e.e.args[3])
	if len(as) < len(want) {
		s.bad("args|"+what, "%s: the command is %s", what, s.show(e))
		return false
	}
	for i, w := range want {
		g := s.amf(as[i])
		if w == "*" || w == g {
			continue
		}
		if strings.HasPrefix(w, "{") && strings.HasPrefix(g, "{") {
			miss := ""
			for _, m := range strings.Split(strings.Trim(w, "{}"), ";") {
				if m == "" {
					continue
				}
				k := m[:strings.Index(m, ":")]
				v := m[len(k)+1:]
				if x := member(g, k); x == "" || v != "*" && x != v {
					miss = m
				}
			}
			if miss == "" {
				continue
			}
			s.bad("args|"+what+"|"+miss[:strings.Index(miss, ":")], "%s: the object %s does not say %s", what, g, miss)
			return false
		}
		s.bad(fmt.Sprintf("args|%s|%d", what, i), "%s: value %d is %s, not %s", what, i, g, w)
		return false
	}
	s.r.ok(s.key + ": " + what)
	return true
}

func (s *sess) flush(what string) bool {
	_, ok := s.do("flush", "the flush after "+what)
	if ok {
		s.r.ok(s.key + ": flushed after " + what)
	}
	return ok
}

// control takes the control messages sent next.
func (s *sess) control(what string, need ...int64) bool {
	got := map[int64]bool{}
	for s.i < len(s.ev) && s.ev[s.i].kind == "ctl" {
		e, ok := s.do("ctl", what)
		if !ok {
			return false
		}
		k, isK := constOf(e.e.args[1])
		if !isK {
			s.bad("ctl|"+what, "%s: a control message of no definite type", what)
			return false
		}
		got[k] = true
	}
	if s.i >= len(s.ev) {
		_, ok := s.do("cmd", what)
		return ok
	}
	for _, n := range need {
		if !got[n] {
			s.bad("ctl|"+what, "%s: control message %d is not sent", what, n)
			return false
		}
	}
	return true
}

// await reads a command.
func (s *sess) await(what string) (string, bool) {
	e, ok := s.do("read", what)
	return e.r, ok
}

// turns: the path goes back to wait for another command.
func (s *sess) turns(what string) {
	if s.rest() {
		return
	}
	if s.t.end != nil && s.t.end.Op == OpReturn {
		s.bad("loop|"+what, "%s ends the exchange", what)
		return
	}
	s.r.ok(s.key + ": goes on after " + what)
}

// field is the value a field of the connection has at the end.
func (s *sess) field(name string) string {
	v := "p0." + name
	for _, e := range s.t.events {
		if e.kind == "store" && len(e.args) > 0 && plain(e.name) == "p0."+name {
			v = s.str(e.args[0])
		}
	}
	return v
}

func (s *sess) set(name, want string) {
	if g := s.field(name); g != want {
		s.bad("set|"+name, "%s is %s at the end, not %s", name, g, want)
	} else {
		s.r.ok(s.key + ": " + name + " = " + want)
	}
}

func (s *sess) success() bool {
	if s.rest() {
		return false
	}
	if !s.t.success(s.ei) && !(s.failed != nil && s.t.ret[s.ei].sym == s.failed.sym) {
		s.bad("success", "does not succeed at the end of the exchange")
		return false
	}
	return true
}

// either is the member of the received object under one of two names.
func (s *sess) either(got, obj, a, b, what string) bool {
	x, y := obj+":"+a, obj+":"+b
	switch {
	case got == x:
		if s.lenIs0(x) == 1 && s.lenIs0(y) != 1 {
			s.bad("either|"+what, "%s stays empty although %q was not looked up", what, b)
			return false
		}
	case got == y:
		if s.lenIs0(x) != 1 {
			s.bad("either|"+what, "%s is taken from %q although %q is there", what, b, a)
			return false
		}
	default:
		s.bad("either|"+what, "%s is %s, neither of the received %q and %q", what, got, a, b)
		return false
	}
	s.r.ok(s.key + ": " + what + " = " + got)
	return true
}

const (
	stGotCommand  = "2"
	stCommandDone = "3"
	stDataStart   = "4"
)

// serverConnect: the server's side up to publish or play.
func (s *sess) serverConnect() {
	r1, ok := s.await("the first command")
	if !ok {
		return
	}
	switch s.is(r1+".name", "connect") {
	case 0:
		s.refuse("the first command is not connect")
		return
	case -1:
		s.bad("connect", "goes on without looking whether the first command is connect")
		return
	}
	if s.isNil(r1+".obj") == 1 {
		s.refuse("connect carries no object")
		return
	}
	if s.cond(func(x string) bool { return x == "ok("+r1+".obj:app)" }) == 0 {
		s.refuse("connect names no application")
		return
	}
	if !s.control("the answer to connect", 5, 6, 1) {
		return
	}
	if !s.command("the answer to connect", "0", `"_result"`, r1+".transid", "{}",
		`{level:"status";code:"NetConnection.Connect.Success";objectEncoding:`+r1+".obj#objectEncoding}") {
		return
	}
	if !s.flush("the answer to connect") {
		return
	}
	if s.i >= len(s.ev) && (s.t.end == nil || s.t.end.Op != OpReturn) {
		return
	}
	r2, ok := s.await("the next command")
	if !ok {
		return
	}
	name := ""
	decided := 0
	for _, n := range []string{"createStream", "publish", "play"} {
		switch s.is(r2+".name", n) {
		case 1:
			name = n
			decided++
		case 0:
			decided++
		}
	}
	switch name {
	case "":
		if decided < 3 {
			s.bad("dispatch", "acts without looking at the name of the command")
			return
		}
		s.turns("another command")
	case "createStream":
		id := s.field("avmsgsid")
		if id == "0" || !regexp.MustCompile(`^\d+$`).MatchString(id) {
			s.bad("createStream", "the stream created has the number %s", id)
			return
		}
		if s.command("the answer to createStream", "0", `"_result"`, r2+".transid", "nil", id) && s.flush("the answer to createStream") {
			s.turns("createStream")
		}
	default:
		if k := s.lenIs0(r2 + ".params"); k == 1 {
			s.refuse(name + " names no stream")
			return
		} else if k == -1 {
			s.bad(name, "uses the first parameter of %s without looking whether there is one", name)
			return
		}
		if s.rest() {
			return
		}
		u := ""
		for _, e := range s.t.calls("format/rtmp:createURL") {
			u = s.names[e.res.sym+".0"]
			if s.t.nilState(e.res.tup[1]) == 0 {
				s.refuse("the URL does not parse")
				return
			}
		}
		tc := s.field("TcUrl")
		if !s.either(tc, r1+".obj", "tcUrl", "tcurl", "TcUrl") || !s.either(s.field("PageUrl"), r1+".obj", "pageUrl", "pageurl", "PageUrl") || !s.either(s.field("FlashVer"), r1+".obj", "flashVer", "flashver", "FlashVer") {
			return
		}
		if !s.success() {
			return
		}
		if want := "url(" + tc + "," + r1 + ".obj:app," + r2 + ".params[0].(string))"; u != want {
			s.bad("url|"+name, "the URL of a %s is %s, not %s", name, u, want)
			return
		}
		s.set("URL", u)
		s.set("Publishing", fmt.Sprint(name == "publish"))
		s.set("Stage", stGotCommand)
	}
}

// status: the first parameter of an answer is an object of level "status".
// false ends the path.
func (s *sess) status(r, what string) bool {
	o := r + ".params[0].(flvio.AMFMap)"
	switch {
	case s.lenIs0(r+".params") == 1:
		s.refuse(what + " has no parameters")
	case s.isNil(o) == 1:
		s.refuse(what + " has no information object")
	case s.is(o+":level", "status") == 0:
		s.refuse(what + " is of another level than status")
	case s.is(o+":level", "status") == -1:
		s.bad("level|"+what, "the level of %s is not looked at", what)
	default:
		return true
	}
	return false
}

// until waits for the command of that name. extra is a further condition.
func (s *sess) until(name, what string, extra func(r string) int) (string, bool) {
	if s.i >= len(s.ev) && (s.t.end == nil || s.t.end.Op != OpReturn) {
		return "", false
	}
	r, ok := s.await(what)
	if !ok {
		return r, false
	}
	switch s.is(r+".name", name) {
	case 0:
		s.turns("a command that is not " + what)
		return r, false
	case -1:
		s.bad("name|"+what, "takes any command for %s", what)
		return r, false
	}
	if extra != nil {
		switch extra(r) {
		case 0:
			s.turns("the answer to another command than " + what)
			return r, false
		case -1:
			s.bad("transid|"+what, "takes any result for %s", what)
			return r, false
		}
	}
	return r, true
}

func (s *sess) clientConnect() bool {
	if !s.control("connect", 1) {
		return false
	}
	if !s.command("connect", "0", `"connect"`, "1", "{app:app(p0.URL);tcUrl:tcurl(p0.URL)}") || !s.flush("connect") {
		return false
	}
	r, ok := s.until("_result", "the answer to connect", nil)
	return ok && s.status(r, "the answer to connect")
}

// stream: the answer to createStream.
func (s *sess) stream(extra func(r string) int) (string, bool) {
	r, ok := s.until("_result", "the answer to createStream", extra)
	if !ok {
		return "", false
	}
	switch s.lenIs0(r + ".params") {
	case 1:
		s.refuse("createStream yields no stream")
		return "", false
	case -1:
		s.bad("stream", "the stream number is taken from an answer that may have none")
		return "", false
	}
	id := s.field("avmsgsid")
	if id != "int("+r+".params[0].(float64))" && id != "uint32("+r+".params[0].(float64))" && id != r+".params[0].(float64)" {
		s.bad("stream", "the stream number is %s, not the one received", id)
		return "", false
	}
	return id, true
}

func (s *sess) started(what string, pub bool) {
	r, ok := s.until("onStatus", what, nil)
	if !ok || !s.status(r, what) || !s.success() {
		return
	}
	s.set("Publishing", fmt.Sprint(pub))
	s.set("Stage", stCommandDone)
	if g := s.field("PubPlayOnStatusParams"); g == "p0.PubPlayOnStatusParams" {
		s.bad("status", "the status received is not kept")
	}
}

func (s *sess) clientPlay() {
	if !s.clientConnect() {
		return
	}
	if !s.command("createStream", "0", `"createStream"`, "*", "nil") || !s.control("createStream") || !s.flush("createStream") {
		return
	}
	id, ok := s.stream(nil)
	if !ok {
		return
	}
	if s.command("play", id, `"play"`, "*", "nil", "stream(p0.URL)") && s.flush("play") {
		s.started("the answer to play", false)
	}
}

func (s *sess) clientPublish() {
	if !s.clientConnect() {
		return
	}
	ids := map[string]bool{"1": true}
	id := ""
	for s.i < len(s.ev) && s.ev[s.i].kind == "cmd" {
		s.now = s.ev[s.i].at
		as := s.list(s.ev[s.i].e.args[3])
		if len(as) < 2 {
			break
		}
		n, tr := strings.Trim(s.amf(as[0]), `"`), s.amf(as[1])
		if ids[tr] {
			s.bad("transid|"+n, "%s uses transaction number %s again", n, tr)
			return
		}
		ids[tr] = true
		if n == "createStream" {
			id = tr
			if !s.command(n, "0", `"createStream"`, tr, "nil") {
				return
			}
			continue
		}
		if !s.command(n, "0", "*", "*", "nil", "stream(p0.URL)") {
			return
		}
	}
	if id == "" {
		if s.i < len(s.ev) {
			s.bad("createStream", "createStream is not sent")
		} else {
			s.do("cmd", "createStream")
		}
		return
	}
	if !s.flush("createStream") {
		return
	}
	st, ok := s.stream(func(r string) int {
		for _, c := range s.t.conds {
			for k := range c.lin.t {
				if x := s.text(k); x == "int("+r+".transid)" || x == r+".transid" {
					var n int64
					fmt.Sscan(id, &n)
					l := sterm(k).add(sc(-n), 1)
					switch {
					case s.t.isEq(l):
						return 1
					case s.t.isNeq(l):
						return 0
					}
				}
			}
		}
		return s.cond(func(x string) bool {
			return strings.Contains(x, r+".transid") && strings.Contains(x, "==") && strings.Contains(x, id)
		})
	})
	if !ok {
		return
	}
	if s.command("publish", st, `"publish"`, "*", "nil", "stream(p0.URL)") && s.flush("publish") {
		s.started("the answer to publish", true)
	}
}

// answer: the server accepts or refuses.
func (s *sess) answer() {
	pub := s.t.truth(s.t.field0("p0.Publishing"))
	yes := s.t.truth(s.t.get(s.t.x.f.Params[1]))
	if pub == -1 || yes == -1 {
		if !s.t.failure(0) || len(s.ev) > 0 {
			s.bad("answer", "answers without looking what was asked for and whether it is granted (%d %d)", pub, yes)
		}
		return
	}
	st := func(level, code string, desc string) bool {
		return s.command(code, "p0.avmsgsid", `"onStatus"`, "p0.lastcmd.transid", "nil", `{level:"`+level+`";code:"`+code+`";description:`+desc+"}")
	}
	switch {
	case yes == 0 && pub == 1:
		if !st("error", "NetStream.Publish.Failed", "p2") {
			return
		}
	case yes == 0:
		if !st("error", "NetStream.Play.Failed", "p2") {
			return
		}
	case pub == 1:
		if !st("status", "NetStream.Publish.Start", "*") {
			return
		}
	default:
		if !s.control("the start of play", 4) {
			return
		}
		for _, c := range []string{"NetStream.Play.Reset", "NetStream.Play.Start"} {
			if !st("status", c, "*") {
				return
			}
		}
		if s.i < len(s.ev) && s.ev[s.i].kind == "msg" {
			if _, ok := s.do("msg", "sample access"); !ok {
				return
			}
			if s.t.truth(s.t.field0("p0.SendSampleAccess")) != 1 {
				s.bad("access", "sample access is announced although it is not asked for")
				return
			}
		} else if s.i < len(s.ev) && s.t.truth(s.t.field0("p0.SendSampleAccess")) != 0 {
			s.bad("access", "sample access is not announced although it may be asked for")
			return
		}
		if !st("status", "NetStream.Data.Start", "*") {
			return
		}
	}
	if s.flush("the answer") && s.success() {
		s.set("Stage", stCommandDone)
	}
}

// field0 is a boolean field as the path has looked at it.
func (t *Trace) field0(name string) *sval {
	var ks []string
	for k := range t.bools {
		if plain(k) == name {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return &sval{sym: name}
	}
	return &sval{sym: ks[0]}
}

// dataStart: a server tells a player that media follows.
func (s *sess) dataStart() {
	srv := s.t.truth(s.t.field0("p0.isserver"))
	pub := s.t.truth(s.t.field0("p0.Publishing"))
	if srv == 1 && pub == 0 {
		if !s.command("the publish notice", "p0.avmsgsid", `"onStatus"`, "*", "nil", `{level:"status";code:"NetStream.Play.PublishNotify"}`) {
			return
		}
	} else if srv == -1 || srv == 1 && pub == -1 {
		s.bad("role", "does not look whether it serves a player")
		return
	}
	if s.flush("the start of data") && s.success() {
		s.set("Stage", stDataStart)
	}
}

// checkSess walks one function of the exchange.
func (r *Report) checkSess(fn string, check func(s *sess), full ...string) {
	ts := r.traceSet("format/rtmp:Conn."+fn, nil, stopAt(sessStops...))
	done := map[string]int{}
	for _, t := range ts {
		s := newSess(r, t, "sess|"+fn, 0)
		check(s)
		for _, e := range t.events {
			if e.kind == "store" && plain(e.name) == "p0.Stage" && !t.success(0) && s.failed == nil {
				s.bad("stage", "the stage is advanced on a path that does not succeed")
			}
		}
		if t.success(0) {
			done["success"]++
		}
	}
	if len(ts) > 0 && done["success"] == 0 && fn != "writePublishOrPlayResult" && fn != "writeDataStart" {
		r.fail("sess|"+fn+"|success", "-", fn+" never succeeds")
	}
}

var phiRe = regexp.MustCompile(`phi\d+`)

// phiNames: which field of a parameter a value carried round a loop is.
func (t *Trace) phiNames() map[string]string {
	out := map[string]string{}
	for _, b := range t.x.f.Blocks {
		for _, in := range b.Instrs {
			if in.Op != OpPhi {
				continue
			}
			for _, a := range in.Args {
				if a.Def != nil && a.Def.Op == OpCell && a.Def.Cell != nil && a.Def.Cell.root.Kind == VParam {
					out[fmt.Sprintf("phi%d", in.Dst.ID)] = t.cellPath(a.Def.Cell)
				}
			}
		}
	}
	return out
}

// carriesNil: the value a loop hands on is nil at first, and nil on each of
// the paths that turn back.
func carriesNil(sym string, ts []*Trace) bool {
	found := false
	for _, t := range ts {
		for _, b := range t.x.f.Blocks {
			for _, in := range b.Instrs {
				if in.Op != OpPhi || fmt.Sprintf("phi%d", in.Dst.ID) != sym {
					continue
				}
				found = true
				for _, a := range in.Args {
					if a == in.Dst || a.Kind == VConst && a.C == nil {
						continue
					}
					if a.Kind != VReg {
						return false
					}
					if v := t.env[a]; v != nil && (t.end == nil || t.end.Op != OpReturn) && t.nilState(v) != 1 && v.sym != sym {
						return false
					}
				}
			}
		}
	}
	return found
}

// stages: the steps of a session in their order.
func (r *Report) stages() {
	steps := map[string]string{}
	var stops []string
	for _, n := range []string{"handshakeServer", "handshakeClient", "readConnect", "connectPlay", "connectPublish", "startPeekReadLoop", "debugStage", "writePublishOrPlayResult", "writeDataStart"} {
		a := "format/rtmp:Conn." + n
		steps[a] = n
		stops = append(stops, a)
	}
	seen := map[string]int{}
	ts := r.traceSet("format/rtmp:Conn.Prepare", nil, stopAt(stops...))
	for _, t := range ts {
		c := chk{r, t, "sess|Prepare"}
		phi := t.phiNames()
		text := func(s string) string {
			return phiRe.ReplaceAllStringFunc(plain(s), func(m string) string {
				if n := phi[m]; n != "" {
					return n
				}
				return m
			})
		}
		stage := ""
		for _, cd := range t.conds {
			for k := range cd.lin.t {
				if text(k) == "p0.Stage" && stage == "" {
					stage = k
				}
			}
		}
		flag := func(name string) int {
			for k, v := range t.bools {
				if text(k) == name {
					if v {
						return 1
					}
					return 0
				}
			}
			return -1
		}
		at := int64(-1)
		for k := int64(0); k < 4 && stage != ""; k++ {
			if t.isEq(sterm(stage).add(sc(-k), 1)) {
				at = k
			}
		}
		play, l1, l2 := -1, sterm("p2").add(sc(-1), 1), sterm("p2").add(sc(-2), 1)
		switch {
		case t.isEq(l1), t.isNeq(l2):
			play = 1
		case t.isEq(l2), t.isNeq(l1):
			play = 0
		}
		srv := flag("p0.isserver")
		granted := flag("p0.PubPlayErr==nil")
		var calls []sevent
		for _, e := range t.events {
			if e.kind == "call" && e.in.Callee != nil && steps[anchorName(e.in.Callee)] != "" && steps[anchorName(e.in.Callee)] != "debugStage" {
				calls = append(calls, e)
			}
		}
		if len(calls) == 0 {
			if t.end != nil && t.end.Op == OpReturn && (t.success(0) || len(t.ret) > 0 && carriesNil(t.ret[0].sym, ts)) {
				if stage == "" || !t.implies(sterm(stage).add(sterm("p1"), -1)) {
					c.bad("early", "succeeds before the stage asked for is reached")
				} else {
					r.ok("Prepare: returns once the stage is reached")
					seen["done"]++
				}
			} else if unknown := stage != "" && t.isNeq(sterm(stage)) && t.isNeq(sterm(stage).add(sc(-1), 1)) &&
				t.isNeq(sterm(stage).add(sc(-2), 1)) && t.isNeq(sterm(stage).add(sc(-3), 1)); t.failure(0) && unknown {
				r.ok("Prepare: fails for a stage there is not")
			} else if t.failure(0) {
				c.bad("refuse", "fails although no step failed")
			}
			continue
		}
		if stage == "" || !t.implies(sterm("p1").add(sterm(stage), -1).add(sc(-1), 1)) {
			c.bad("past", "takes a step although the stage asked for may be reached")
			continue
		}
		want := ""
		switch {
		case at == 0 && srv == 1:
			want = "handshakeServer"
		case at == 0 && srv == 0:
			want = "handshakeClient"
		case at == 1 && srv == 1:
			want = "readConnect"
		case at == 1 && srv == 0 && play == 1:
			want = "connectPlay"
		case at == 1 && srv == 0 && play == 0:
			want = "connectPublish"
		case at == 2:
			want = "writePublishOrPlayResult"
		case at == 3:
			want = "writeDataStart"
		}
		e := calls[0]
		got := steps[anchorName(e.in.Callee)]
		if got != want {
			c.bad("step|"+got, "at stage %d (server %d, play %d) the next step is %s, not %s", at, srv, play, got, want)
			continue
		}
		seen[got]++
		if got == "writePublishOrPlayResult" {
			switch {
			case granted == -1 || len(e.args) != 3:
				c.bad("answer", "answers without looking whether the request is refused")
				continue
			case t.truth(e.args[1]) != granted:
				c.bad("answer", "answers the opposite of what was decided")
				continue
			case granted == 0 && !strings.HasPrefix(plain(e.args[2].sym), "Error@"):
				c.bad("answer", "a refusal does not carry the reason: %s", e.args[2].str())
				continue
			}
		}
		switch t.nilState(e.res) {
		case 0:
			if len(calls) > 1 || !t.failure(0) {
				c.bad("fail|"+got, "goes on although %s failed", got)
			} else {
				r.ok("Prepare: fails with " + got)
			}
			for _, x := range t.events {
				if x.kind == "store" && text(x.name) == "p0.Stage" {
					c.bad("stage", "the stage is advanced although %s failed", got)
				}
			}
			continue
		case -1:
			c.bad("fail|"+got, "does not look whether %s failed", got)
			continue
		}
		next := ""
		if len(calls) > 1 {
			next = steps[anchorName(calls[1].in.Callee)]
		}
		if (at == 1) != (next == "startPeekReadLoop") || len(calls) > 2 {
			c.bad("peek|"+got, "after %s comes %q", got, next)
			continue
		}
		for _, x := range t.events {
			if x.kind == "store" && text(x.name) == "p0.Stage" {
				if at != 0 || x.args[0].str() == "" || !x.args[0].isInt || !t.isEq(x.args[0].lin.add(sc(-1), 1)) {
					c.bad("stage", "the stage becomes %s after %s", x.args[0].str(), got)
				}
				at = -1
			}
		}
		if at == 0 {
			c.bad("stage", "the stage is not advanced after the handshake")
			continue
		}
		if t.end != nil && t.end.Op == OpReturn && (t.failure(0) || stage == "") {
			c.bad("fail|"+got, "fails although %s succeeded", got)
			continue
		}
		r.ok("Prepare: " + got)
	}
	for _, n := range []string{"done", "handshakeServer", "handshakeClient", "readConnect", "connectPlay", "connectPublish", "writePublishOrPlayResult", "writeDataStart"} {
		if seen[n] == 0 {
			r.fail("sess|Prepare|none|"+n, "-", "no path of Prepare: "+n)
		}
	}

	// packets are exchanged at their stage only
	for _, x := range []struct {
		fn, op      string
		stage, flag int64
	}{
		{"ReadPacket", "format/flv:ReadPacket", 3, 1},
		{"WritePacket", "format/flv:WritePacket", 4, 2},
	} {
		for _, t := range r.traceSet("format/rtmp:Conn."+x.fn, nil, stopAt("format/rtmp:Conn.Prepare", x.op)) {
			c := chk{r, t, "sess|" + x.fn}
			ready := false
			for _, e := range t.events {
				if e.kind != "call" || e.in.Callee == nil {
					continue
				}
				switch anchorName(e.in.Callee) {
				case "format/rtmp:Conn.Prepare":
					st, _ := constOf(e.args[1])
					fl, _ := constOf(e.args[2])
					if st == x.stage && fl == x.flag && t.nilState(e.res) == 1 {
						ready = true
					} else if t.nilState(e.res) == 0 && !t.failure(len(t.ret)-1-len(t.x.f.RetCells)) {
						c.bad("prepare", "succeeds although Prepare failed")
					}
				case x.op:
					if !ready {
						c.bad("prepare", "exchanges a packet before the session has reached stage %d", x.stage)
					} else {
						r.ok(x.fn + " after Prepare")
					}
				}
			}
		}
	}

	// who only writes keeps reading, to notice the end of the connection
	n := 0
	for _, t := range r.traceSet("format/rtmp:Conn.startPeekReadLoop", nil, nil) {
		c := chk{r, t, "sess|startPeekReadLoop"}
		srv, pub := t.truth(t.field0("p0.isserver")), t.truth(t.field0("p0.Publishing"))
		var g *sevent
		for i, e := range t.events {
			if e.kind == "go" {
				g = &t.events[i]
			}
		}
		switch {
		case srv == -1 || pub == -1:
			c.bad("role", "does not look whether the connection is written to")
		case (srv != pub) != (g != nil):
			c.bad("role", "watches the connection when server is %d and publishing is %d: %v", srv, pub, g != nil)
		default:
			r.ok("the connection is watched when it is written to")
		}
		if g == nil || g.in.Callee == nil {
			continue
		}
		n++
		for _, u := range r.traceFn(g.in.Callee, nil, nil) {
			d := chk{r, u, "sess|startPeekReadLoop|watch"}
			read, told := false, false
			for _, e := range u.events {
				switch {
				case e.kind == "call" && e.in.Callee != nil && e.in.Callee.Name() == "Copy":
					read = true
				case e.kind == "send":
					told = true
					if !read {
						d.bad("order", "reports the end of the connection before reading it to the end")
					}
				}
			}
			if u.end != nil && u.end.Op == OpReturn {
				if !read || !told {
					d.bad("end", "ends without having read to the end and having reported it")
				} else {
					r.ok("the end of the connection is reported")
				}
			}
		}
	}
	if n == 0 {
		r.fail("sess|startPeekReadLoop|none", "-", "nothing watches the connection")
	}
}

func init() {
	register("C13", "proof", func(r *Report, thorough bool) {
		r.rule("Every path of the functions that drive an RTMP session is turned into the sequence of commands and control messages it sends, flushes and waits for, with their values, and compared with the exchange the protocol prescribes for what was received on that path; the stage machine calls each of them at its stage only.")
		r.checkSess("readConnect", (*sess).serverConnect)
		r.checkSess("connectPlay", (*sess).clientPlay)
		r.checkSess("connectPublish", (*sess).clientPublish)
		r.checkSess("writePublishOrPlayResult", (*sess).answer)
		r.checkSess("writeDataStart", (*sess).dataStart)
		r.stages()
	})
}
