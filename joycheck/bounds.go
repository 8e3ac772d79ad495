package main

import (
	"fmt"
	"go/token"
	"go/types"
)

// An Oblig is one run-time check the program must never fail.
type Oblig struct {
	Kind string
	In   *Instr
	What string
	OK   bool
	How  string
}

func (n *Num) obligations(kinds map[string]bool) []*Oblig {
	var out []*Oblig
	f := n.f
	chk := func(kind string, in *Instr, what string, goals ...lin) {
		if kinds != nil && !kinds[kind] {
			return
		}
		o := &Oblig{Kind: kind, In: in, What: what, OK: true}
		for _, g := range goals {
			if !n.prove(g, in.Blk, in, 3) {
				o.OK = false
				o.How = "cannot show " + g.String() + " >= 0"
				break
			}
		}
		out = append(out, o)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.Op {
			case OpIndexAddr, OpIndex:
				if _, ok := in.Args[0].Typ.Underlying().(*types.Map); ok {
					continue
				}
				i := n.lin(in.Args[1])
				l := n.lenLin(in.Args[0])
				chk("index", in, fmt.Sprintf("index %s of %s", in.Args[1], in.Args[0]), i, l.minus(i).plusc(-1))
			case OpSlice:
				if in.Args[1] == theNoV && in.Args[2] == theNoV {
					continue
				}
				lo := lc(0)
				if in.Args[1] != theNoV {
					lo = n.lin(in.Args[1])
				}
				hi := n.lenLin(in.Args[0])
				goals := []lin{}
				if !(lo.isConst() && lo.c >= 0) {
					goals = append(goals, lo)
				}
				if in.Args[2] != theNoV {
					hi = n.lin(in.Args[2])
					lim := n.lenLin(in.Args[0])
					if c, ok := n.capLin(in.Args[0]); ok {
						lim = c
					}
					goals = append(goals, lim.minus(hi))
				}
				goals = append(goals, hi.minus(lo))
				chk("slice", in, "slice bounds", goals...)
			case OpBin:
				switch in.Tok {
				case token.QUO, token.REM:
					if !isIntType(in.Dst.Typ) {
						continue
					}
					if k, ok := constInt(in.Args[1]); ok && k != 0 {
						continue
					}
					d := n.lin(in.Args[1])
					o := &Oblig{Kind: "div", In: in, What: "division by zero"}
					if n.prove(d.plusc(-1), in.Blk, in, 3) || n.prove(d.scale(-1).plusc(-1), in.Blk, in, 3) || n.neqZero(in.Args[1], in.Blk) || n.mulNonZero(in.Args[1], in.Blk, in) {
						o.OK = true
					} else {
						o.How = "cannot show " + d.String() + " != 0"
					}
					if kinds == nil || kinds["div"] {
						out = append(out, o)
					}
				case token.SHL, token.SHR:
					if k, ok := constInt(in.Args[1]); ok && k >= 0 {
						continue
					}
					if b := basicOf(in.Args[1].Typ); b != nil && b.Info()&types.IsUnsigned != 0 {
						continue
					}
					chk("shift", in, "negative shift count", n.lin(in.Args[1]))
				}
			case OpHavoc:
				if in.ClobBy != nil && in.ClobArg >= 0 && isIntType(in.Dst.Typ) && in.ClobBy.Callee != nil && inModule(fnPkgPath(in.ClobBy.Callee)) {
					o := &Oblig{Kind: "cursor", In: in.ClobBy, What: "cursor passed to " + fnName(in.ClobBy.Callee) + " is not negative", OK: true}
					if !n.prove(n.lin(in.Args[0]), in.ClobBy.Blk, in.ClobBy, 3) {
						o.OK = false
						o.How = "cannot show " + n.lin(in.Args[0]).String() + " >= 0"
					}
					if kinds == nil || kinds["cursor"] {
						out = append(out, o)
					}
				}
			case OpMakeSlice:
				if _, ok := constInt(in.Args[0]); ok {
					continue
				}
				chk("make", in, "make with negative length", n.lin(in.Args[0]))
			case OpTypeAssert:
				if !in.CommaOk && !in.NoNil && !f.tagAssert(in) {
					if kinds == nil || kinds["assert"] {
						out = append(out, &Oblig{Kind: "assert", In: in, What: "type assertion to " + types.TypeString(in.Typ, nil), How: "unchecked type assertion"})
					}
				}
			case OpPanic:
				if kinds == nil || kinds["panic"] {
					out = append(out, &Oblig{Kind: "panic", In: in, What: "explicit panic", How: "reachable panic"})
				}
			}
		}
	}
	return out
}

// neqZero: a dominating branch establishes v != 0.
func (n *Num) neqZero(v *V, b *Block) bool {
	l := n.lin(v)
	for x := b; x != nil; x = x.idom {
		if len(x.Preds) != 1 {
			continue
		}
		_, ne := n.edgeFacts(x, 0)
		for _, e := range ne {
			if e.key() == l.key() || e.scale(-1).key() == l.key() {
				return true
			}
		}
	}
	return false
}
