package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: no error is lost.
//
// The rule is about every function of the module by itself: an error that a
// call may return is followed along every path of the control flow graph until
// the path knows it is nil, hands it on (returns it, stores it, sends it,
// passes it to a call), or returns another error instead. A path that does
// none of that loses it.

// errNever are the calls whose error is always nil.
var errNever = map[string]bool{
	"bytes.Buffer.Write": true, "bytes.Buffer.WriteString": true, "bytes.Buffer.WriteByte": true, "bytes.Buffer.WriteRune": true,
	"strings.Builder.Write": true, "strings.Builder.WriteString": true, "strings.Builder.WriteByte": true, "strings.Builder.WriteRune": true,
	"hash.Hash.Write": true, "rand.Read": true,
	"fmt.Print": true, "fmt.Println": true, "fmt.Printf": true,
}

// A lenient entry allows so many calls of one callee in one package to have
// their error passed over: more are one too many.
type lenient struct {
	max int
	why string
}

// errLenient are the errors a package is allowed to pass over, and why.
var errLenient = map[string]lenient{
	"cmd/avtool net.Listener.Accept":                             {3, "a server goes on when one connection cannot be accepted"},
	"cmd/avtool cobra.Command.Help":                              {1, "printing the help"},
	"format net.Listener.Accept":                                 {1, "a server goes on when one connection cannot be accepted"},
	"format/flv format/flv/flvio.ParseAMFVals":                   {1, "metadata that is none is left out of the stream"},
	"format/flv/flvio format/flv/flvio.ParseAMFVals":             {1, "a field of the debugging output"},
	"format/flv/flvio json.Marshal":                              {1, "a field of the debugging output"},
	"format/mp4/mp4io fmt.Fprint":                                {9, "printing a tree of boxes"},
	"format/mp4/mp4io fmt.Fprintf":                               {9, "printing a tree of boxes"},
	"format/mp4/mp4io fmt.Fprintln":                              {9, "printing a tree of boxes"},
	"format/rtmp format/rtmp.Conn.Prepare":                       {1, "a last message before closing"},
	"format/rtmp io.Copy":                                        {1, "what the player sends is discarded, any end is the end"},
	"format/rtmp format/flv/flvio.Tag.Parse":                     {1, "a message that is no tag is skipped"},
	"format/rtsp net.SplitHostPort":                              {1, "asks whether the address has a port"},
	"format/rtsp textproto.Reader.ReadMIMEHeader":                {1, "headers up to the first malformed one are taken"},
	"format/rtsp strconv.Atoi":                                   {1, "a missing content length is zero"},
	"format/rtsp format/rtsp.Stream.handleRtpPacket":             {1, "SkipErrRtpBlock asks for it"},
	"format/rtsp format/rtsp.Stream.handleH264Payload":           {2, "parameter sets of the session description may be malformed"},
	"format/rtsp format/rtsp.Stream.handleBuggyAnnexbH264Packet": {1, "the error belongs to packets it has handled"},
	"format/rtsp/sdp strconv.Atoi":                               {5, "malformed attributes of a session description are left out"},
	"format/rtsp/sdp base64.Encoding.DecodeString":               {1, "malformed attributes of a session description are left out"},
	"format/rtsp/sdp hex.DecodeString":                           {1, "malformed attributes of a session description are left out"},
}

// errEOF are the calls whose io.EOF is the end and no error.
var errEOF = map[string]bool{
	"cmd/avtool av.PacketReader.ReadPacket":    true,
	"cmd/avtool format/flv.Demuxer.ReadPacket": true,
	"format/mp4/mp4io io.ReadFull":             true,
}

// errClose are calls that end the use of something: nothing depends on them.
var errClose = map[string]bool{
	"net.Conn.Close": true, "net.Listener.Close": true, "io.Closer.Close": true, "io.ReadCloser.Close": true, "tls.Conn.Close": true, "os.File.Close": true,
	// a deadline that cannot be set shows as an error of the next read or write
	"net.Conn.SetDeadline": true, "net.Conn.SetReadDeadline": true, "net.Conn.SetWriteDeadline": true,
}

// errLog are calls that only print what they are given.
var errLog = map[string]bool{
	"log.Print": true, "log.Println": true, "log.Printf": true, "fmt.Print": true, "fmt.Println": true, "fmt.Printf": true,
	"fmt.Fprint": true, "fmt.Fprintln": true, "fmt.Fprintf": true,
}

// errText are calls that make a text of what they are given.
var errText = map[string]bool{"fmt.Sprint": true, "fmt.Sprintf": true, "fmt.Sprintln": true, "errors.Unwrap": true}

// errAsks are calls that ask what error it is.
var errAsks = map[string]bool{"errors.Is": true, "errors.As": true, "os.IsNotExist": true, "os.IsTimeout": true, "os.IsExist": true}

// errStops are calls that do not return.
var errStops = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalln": true, "log.Fatalf": true, "runtime.Goexit": true, "testing.common.FailNow": true}

var errIface = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errIface) }

// calledName names what a call calls: pkg.Func or pkg.Type.Method, with the
// module's packages by their relative path.
func calledName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		n := "?"
		if t := namedOf(c.Value.Type()); t != nil {
			n = t.Obj().Name()
			if t.Obj().Pkg() != nil {
				n = shortPkg(t.Obj().Pkg().Path()) + "." + n
			}
		}
		return n + "." + c.Method.Name()
	}
	f := c.StaticCallee()
	if f == nil {
		return "?"
	}
	if f.Object() == nil {
		return fnName(f)
	}
	o := f.Object()
	pk := ""
	if o.Pkg() != nil {
		pk = shortPkg(o.Pkg().Path()) + "."
	}
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			return pk + n.Obj().Name() + "." + o.Name()
		}
	}
	return pk + o.Name()
}

func shortPkg(p string) string {
	if inModule(p) {
		return relPkg(p)
	}
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:]
	}
	return p
}

// errSource: the error results of a call and the value that holds each of them
// (nil when nothing does).
type errSource struct {
	fn   *ssa.Function
	in   ssa.Instruction
	call *ssa.CallCommon
	val  ssa.Value
	used bool
}

func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		if isErr(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func errSources(fn *ssa.Function) []errSource {
	var out []errSource
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			if _, ok := c.Value.(*ssa.Builtin); ok {
				continue
			}
			sig := c.Signature()
			i := errResult(sig)
			if i < 0 {
				continue
			}
			s := errSource{fn: fn, in: in, call: c}
			if v, ok := in.(*ssa.Call); ok {
				if sig.Results().Len() == 1 {
					s.val = v
				} else {
					for _, u := range *v.Referrers() {
						if x, ok := u.(*ssa.Extract); ok && x.Index == i {
							s.val = x
						}
					}
				}
			}
			if s.val != nil {
				for _, u := range *s.val.Referrers() {
					if _, ok := u.(*ssa.DebugRef); !ok {
						s.used = true
					}
				}
			}
			out = append(out, s)
		}
	}
	return out
}

// errWalk follows one error.
type errWalk struct {
	p    *Prog
	src  errSource
	seen map[string]bool
	lost func(pos token.Pos, why string)
	eqs  map[string]bool
}

type errState struct {
	in     map[ssa.Value]bool // values and cells that hold it
	nonnil map[ssa.Value]bool // other errors this path knows are not nil
	known  bool               // it is known not to be nil
	eq     string             // it is known to be this error
	phis   map[ssa.Value]ssa.Value
}

func (s *errState) clone() *errState {
	n := &errState{in: map[ssa.Value]bool{}, nonnil: map[ssa.Value]bool{}, known: s.known, eq: s.eq, phis: map[ssa.Value]ssa.Value{}}
	for k := range s.in {
		n.in[k] = true
	}
	for k := range s.nonnil {
		n.nonnil[k] = true
	}
	for k, v := range s.phis {
		n.phis[k] = v
	}
	return n
}

func (s *errState) key(b *ssa.BasicBlock) string {
	var ks []string
	for k := range s.in {
		ks = append(ks, k.Name())
	}
	for k := range s.nonnil {
		ks = append(ks, "!"+k.Name())
	}
	for k, v := range s.phis {
		ks = append(ks, k.Name()+"="+v.Name())
	}
	sort.Strings(ks)
	return fmt.Sprint(b.Index, s.known, s.eq, ks)
}

// cellOf is the memory cell an address stands for, when it is followed.
func cellOf(a ssa.Value) ssa.Value {
	switch a := a.(type) {
	case *ssa.Alloc:
		return a
	case *ssa.FreeVar:
		return a
	}
	return nil
}

// realNonNil: v cannot be nil whatever happens.
func (p *Prog) realNonNil(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return p.realNonNil(v.X)
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			if p.errGlob[g] {
				return true
			}
			return g.Pkg != nil && !inModule(g.Pkg.Pkg.Path()) // io.EOF and the like
		}
	case *ssa.Call:
		return errAlways(&v.Call)
	case *ssa.Extract:
		return false
	}
	return false
}

// errAlways: the call returns an error that is not nil.
func errAlways(c *ssa.CallCommon) bool {
	switch calledName(c) {
	case "fmt.Errorf", "errors.New", "errors.Errorf":
		return true
	}
	return false
}

func ssaNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// cond: what a branch says about the error. sub is +1 when the true side means
// it is nil, -1 when the false side does; other is the value of another error.
func errCond(v ssa.Value) (x ssa.Value, y ssa.Value, op token.Token) {
	neg := false
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		neg = !neg
		v = u.X
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return nil, nil, token.ILLEGAL
	}
	op = b.Op
	if neg {
		if op == token.EQL {
			op = token.NEQ
		} else {
			op = token.EQL
		}
	}
	return b.X, b.Y, op
}

func (w *errWalk) block(b, pred *ssa.BasicBlock, from int, st *errState) {
	if pred != nil {
		// the phis of a block take their values together
		type set struct {
			phi *ssa.Phi
			v   ssa.Value
		}
		var sets []set
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, q := range b.Preds {
				if q == pred {
					sets = append(sets, set{phi, phi.Edges[i]})
				}
			}
		}
		type upd struct {
			in, nn bool
			c      ssa.Value
		}
		var us []upd
		for _, s := range sets {
			u := upd{in: st.in[s.v], nn: st.nonnil[s.v] || w.p.realNonNil(s.v)}
			if _, ok := s.v.(*ssa.Const); ok {
				u.c = s.v
			} else if c := st.phis[s.v]; c != nil {
				u.c = c
			}
			us = append(us, u)
		}
		for i, s := range sets {
			delete(st.in, s.phi)
			delete(st.nonnil, s.phi)
			delete(st.phis, s.phi)
			if us[i].in {
				st.in[s.phi] = true
			}
			if us[i].nn {
				st.nonnil[s.phi] = true
			}
			if us[i].c != nil && (isErr(s.phi.Type()) || isBool(s.phi.Type())) {
				st.phis[s.phi] = us[i].c
			}
		}
		k := st.key(b)
		if w.seen[k] {
			return
		}
		w.seen[k] = true
	}
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in == w.src.in {
			if st.known || !errAlways(w.src.call) {
				w.lost(in.Pos(), "the call is made again")
			}
			return
		}
		delete2 := func(v ssa.Value) {
			delete(st.in, v)
			delete(st.nonnil, v)
			delete(st.phis, v)
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers, *ssa.Defer, *ssa.Go:
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, a := range c.Common().Args {
					if st.in[a] {
						return
					}
				}
			}
		case *ssa.MakeClosure:
		case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType:
			v := in.(ssa.Value)
			x := *in.Operands(nil)[0]
			delete2(v)
			if st.in[x] {
				st.in[v] = true
			}
			if st.nonnil[x] {
				st.nonnil[v] = true
			}
		case *ssa.TypeAssert:
			delete2(in)
			if st.in[in.X] && !in.CommaOk {
				st.in[in] = true
			}
		case *ssa.UnOp:
			delete2(in)
			if in.Op == token.MUL {
				if c := cellOf(in.X); c != nil {
					if st.in[c] {
						st.in[in] = true
					}
					if st.nonnil[c] {
						st.nonnil[in] = true
					}
					if x := st.phis[c]; x != nil {
						st.phis[in] = x
					}
				}
			}
		case *ssa.Store:
			if c := cellOf(in.Addr); c != nil && isErr(derefType(c.Type())) {
				v := st.in[in.Val]
				nn := st.nonnil[in.Val] || w.p.realNonNil(in.Val)
				k := st.phis[in.Val]
				if x, ok := in.Val.(*ssa.Const); ok {
					k = x
				}
				delete2(c)
				if v {
					st.in[c] = true
					if _, ok := c.(*ssa.FreeVar); ok {
						return // the function that made the closure has it
					}
				}
				if nn {
					st.nonnil[c] = true
				}
				if k != nil {
					st.phis[c] = k
				}
			} else if st.in[in.Val] {
				// printing puts it in a slice of interfaces first
				if a := varargOf(in.Addr); a != nil {
					st.in[a] = true
				} else {
					return
				}
			}
		case *ssa.Slice:
			delete2(in)
			if st.in[in.X] {
				st.in[in] = true
			}
		case *ssa.Send:
			if st.in[in.X] {
				return
			}
		case *ssa.MapUpdate:
			if st.in[in.Value] {
				return
			}
		case *ssa.Panic:
			return
		case *ssa.Call:
			delete2(in)
			n := calledName(&in.Call)
			if errStops[n] || neverReturns(&in.Call) {
				return
			}
			used := in.Call.IsInvoke() && st.in[in.Call.Value]
			for _, a := range in.Call.Args {
				used = used || st.in[a]
			}
			switch {
			case !used || errLog[n]:
			case errText[n] || in.Call.IsInvoke() && (in.Call.Method.Name() == "Error" || in.Call.Method.Name() == "Unwrap"):
				st.in[in] = true
			case errAsks[n] || in.Call.IsInvoke() && isBool(in.Type()):
			default:
				return
			}
		case *ssa.Return:
			w.ret(in, st)
			return
		case *ssa.If:
			w.branch(b, in, st)
			return
		case *ssa.Jump:
			w.block(b.Succs[0], b, 0, st)
			return
		default:
			if v, ok := in.(ssa.Value); ok && v != w.src.val {
				delete2(v)
			}
		}
	}
}

// varargOf: the address is an element of an array made for a call.
func varargOf(a ssa.Value) ssa.Value {
	ix, ok := a.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	al, ok := ix.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	if _, ok := derefType(al.Type()).Underlying().(*types.Array); !ok {
		return nil
	}
	return al
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (w *errWalk) branch(b *ssa.BasicBlock, in *ssa.If, st *errState) {
	side := func(i int, f func(*errState)) {
		n := st.clone()
		if f != nil {
			f(n)
		}
		w.block(b.Succs[i], b, 0, n)
	}
	cv := in.Cond
	if c := st.phis[cv]; c != nil {
		cv = c
	}
	if c, ok := cv.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
		if constant.BoolVal(c.Value) {
			side(0, nil)
		} else {
			side(1, nil)
		}
		return
	}
	if c, ok := in.Cond.(*ssa.Call); ok && calledName(&c.Call) == "errors.Is" && st.in[c.Call.Args[0]] {
		side(0, func(s *errState) {
			s.known = true
			s.eq = errName(c.Call.Args[1])
		})
		side(1, nil)
		return
	}
	x, y, op := errCond(in.Cond)
	if x == nil || !isErr(x.Type()) {
		side(0, nil)
		side(1, nil)
		return
	}
	isNil := func(v ssa.Value) bool { return ssaNil(v) || st.phis[v] != nil && ssaNil(st.phis[v]) }
	if isNil(x) && !isNil(y) {
		x, y = y, x
	}
	eq, ne := 0, 1
	if op == token.NEQ {
		eq, ne = 1, 0
	}
	switch {
	case isNil(x) && isNil(y):
		side(eq, nil)
	case isNil(y) && st.in[x]:
		side(ne, func(s *errState) { s.known = true })
		// the other side knows it is nil
	case isNil(y):
		if w.p.realNonNil(x) || st.nonnil[x] {
			side(ne, nil)
			return
		}
		side(eq, nil)
		side(ne, func(s *errState) { s.nonnil[x] = true })
	case st.in[x] || st.in[y]:
		o := y
		if st.in[y] {
			o = x
		}
		side(ne, nil)
		side(eq, func(s *errState) {
			s.known = true
			s.eq = errName(o)
		})
	default:
		side(0, nil)
		side(1, nil)
	}
}

func errName(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
		}
	}
	return "?"
}

func (w *errWalk) ret(in *ssa.Return, st *errState) {
	fn := w.src.fn
	i := errResult(fn.Signature)
	if i < 0 {
		// nobody to tell: what the function stops doing is the answer
		if st.known || st.eq != "" {
			return
		}
		// a bare result that is or carries it
		for _, r := range in.Results {
			if st.in[r] {
				return
			}
		}
		w.lost(in.Pos(), "the function returns without looking at it")
		return
	}
	v := in.Results[i]
	if st.in[v] || w.p.realNonNil(v) || st.nonnil[v] {
		return
	}
	for _, r := range in.Results {
		if st.in[r] {
			return
		}
	}
	if st.eq != "" {
		if errEnds(w.src, st.eq) {
			return
		}
		w.lost(in.Pos(), "the function returns without an error although the error is "+st.eq)
		return
	}
	if st.known {
		w.lost(in.Pos(), "the function returns without an error although there is one")
		return
	}
	w.lost(in.Pos(), "the function returns without looking at it")
}

// errEnds: an error that tells of an end and is none.
func errEnds(s errSource, eq string) bool {
	return eq == "io.EOF" && errEOF[relPkg(fnPkgPath(s.fn))+" "+calledName(s.call)]
}

// errToBuf: a write to a buffer in memory.
func errToBuf(c *ssa.CallCommon) bool {
	switch calledName(c) {
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
		if m, ok := c.Args[0].(*ssa.MakeInterface); ok {
			if n := namedOf(m.X.Type()); n != nil && n.Obj().Pkg() != nil {
				k := n.Obj().Pkg().Path() + "." + n.Obj().Name()
				return k == "bytes.Buffer" || k == "strings.Builder"
			}
		}
	}
	return false
}

func init() {
	register("C15", "other", func(r *Report, thorough bool) {
		n, paths := 0, 0
		passed := map[string][]func(){}
		pass := func(k string, f func()) { passed[k] = append(passed[k], f) }
		for _, fn := range r.P.AllFuncs {
			if strings.HasSuffix(r.P.Fset.Position(fn.Pos()).Filename, "_test.go") {
				continue
			}
			srcs := errSources(fn)
			if len(srcs) == 0 {
				continue
			}
			for k, s := range srcs {
				name := calledName(s.call)
				pk := relPkg(fnPkgPath(fn))
				if errNever[name] || errClose[name] || errToBuf(s.call) || strings.HasSuffix(pk, "/gen") {
					continue
				}
				n++
				key := fmt.Sprintf("%s|%s|%d", fnName(fn), name, k)
				pos := r.P.pos(s.in.Pos())
				if s.val == nil || !s.used {
					msg := fmt.Sprintf("%s: nothing looks at the error of %s", fnName(fn), name)
					pass(pk+" "+name, func() { r.bad(key, pos, msg) })
					continue
				}
				w := &errWalk{p: r.P, src: s, seen: map[string]bool{}}
				bad := false
				w.lost = func(at token.Pos, why string) {
					if bad {
						return
					}
					bad = true
					msg := fmt.Sprintf("%s: the error of %s is lost: %s (%s)", fnName(fn), name, why, r.P.pos(at))
					pass(pk+" "+name, func() { r.bad(key, pos, msg) })
				}
				st := &errState{in: map[ssa.Value]bool{s.val: true}, nonnil: map[ssa.Value]bool{}, phis: map[ssa.Value]ssa.Value{}, known: errAlways(s.call)}
				b := s.in.Block()
				from := 0
				for i, x := range b.Instrs {
					if x == s.in {
						from = i + 1
					}
				}
				// the extract itself
				for from < len(b.Instrs) {
					if _, ok := b.Instrs[from].(*ssa.Extract); !ok {
						break
					}
					from++
				}
				w.block(b, nil, from, st)
				paths += len(w.seen)
				if !bad {
					r.ok(key + " " + pos)
				}
			}
		}
		r.need("calls that return an error", n, 300)
		r.Cov["path states"] = paths
		reads := 0
		for _, fn := range r.P.AllFuncs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok || !readsSome(r.P, &c.Call, 0) {
						continue
					}
					reads++
					got := false
					for _, u := range *c.Referrers() {
						if x, ok := u.(*ssa.Extract); ok && x.Index == 0 && len(*x.Referrers()) > 0 {
							got = true
						}
						if _, ok := u.(*ssa.Return); ok {
							got = true
						}
					}
					r.check(got, fnName(fn)+"|short read", r.P.pos(in.Pos()), fnName(fn)+": the number of bytes read is not looked at: a short read is taken for a full one")
				}
			}
		}
		r.need("calls that may read less than asked for", reads, 2)
		over := map[string]int{}
		for k, fs := range passed {
			if len(fs) <= errLenient[k].max {
				over[k+": "+errLenient[k].why] = len(fs)
				continue
			}
			for _, f := range fs {
				f()
			}
		}
		r.Cov["errors passed over, by rule"] = over
	})
}

// readsSome: the call reads as much as there is, not as much as asked for.
func readsSome(p *Prog, c *ssa.CallCommon, depth int) bool {
	sig := c.Signature()
	n := calledName(c)
	if !strings.HasSuffix(n, ".Read") || n == "rand.Read" || sig.Params().Len() != 1 || sig.Results().Len() != 2 || !isErr(sig.Results().At(1).Type()) {
		return false
	}
	f := c.StaticCallee()
	if f == nil || f.Blocks == nil || !inModule(fnPkgPath(f)) || depth > 3 {
		return true
	}
	full, some := false, false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Call); ok {
				if calledName(&x.Call) == "io.ReadFull" {
					full = true
				}
				some = some || readsSome(p, &x.Call, depth+1)
			}
		}
	}
	return some || !full
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
