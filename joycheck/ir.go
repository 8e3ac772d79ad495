package main

// An inlined intermediate representation. A root function is expanded with all
// its statically resolved, non-recursive in-module callees; local memory (and,
// with clobbers, struct fields) is promoted to registers; branches whose
// outcome is fixed by the path taken are threaded; and the result is put in
// SSA form. All analyses run on this form.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type VKind int

const (
	VReg VKind = iota
	VConst
	VParam
	VFreeVar
	VGlobal
	VFunc
	VBuiltin
	VUndef
)

type V struct {
	ID   int
	Kind VKind
	Typ  types.Type
	C    constant.Value // VConst; nil means the zero value (nil, struct{}...)
	Obj  interface{}
	Name string
	Def  *Instr // in SSA form, the defining instruction of a VReg
	Orig ssa.Value
}

type Op int

const (
	OpNop Op = iota
	OpCopy
	OpPhi
	OpBin
	OpUn // - ! ^
	OpConvert
	OpChangeType
	OpLen
	OpCap
	OpIndexAddr
	OpFieldAddr
	OpField
	OpIndex
	OpSlice
	OpMakeSlice
	OpMakeMap
	OpMakeChan
	OpLoad
	OpStore
	OpCall
	OpAlloc
	OpMakeIface
	OpTypeAssert
	OpExtract
	OpLookup
	OpMapUpdate
	OpRange
	OpNext
	OpSelect
	OpSend
	OpRecv
	OpGo
	OpDefer
	OpRunDefers
	OpClosure
	OpStruct // struct value built from promoted fields
	OpCell   // the unknown initial content of a promoted memory cell
	OpHavoc  // unknown new content of a promoted cell (clobbered)
	OpEnter  // marks entry into an inlined call
	OpExit   // marks return from an inlined call
	OpPanic
	OpReturn
	OpIf
	OpJump
)

var opNames = map[Op]string{OpNop: "nop", OpCopy: "copy", OpPhi: "phi", OpBin: "bin", OpUn: "un", OpConvert: "convert", OpChangeType: "changetype", OpLen: "len", OpCap: "cap", OpIndexAddr: "indexaddr", OpFieldAddr: "fieldaddr", OpField: "field", OpIndex: "index", OpSlice: "slice", OpMakeSlice: "makeslice", OpMakeMap: "makemap", OpMakeChan: "makechan", OpLoad: "load", OpStore: "store", OpCall: "call", OpAlloc: "alloc", OpMakeIface: "makeiface", OpTypeAssert: "typeassert", OpExtract: "extract", OpLookup: "lookup", OpMapUpdate: "mapupdate", OpRange: "range", OpNext: "next", OpSelect: "select", OpSend: "send", OpRecv: "recv", OpGo: "go", OpDefer: "defer", OpRunDefers: "rundefers", OpClosure: "closure", OpStruct: "struct", OpCell: "cell", OpHavoc: "havoc", OpEnter: "enter", OpExit: "exit", OpPanic: "panic", OpReturn: "return", OpIf: "if", OpJump: "jump"}

type Instr struct {
	Op       Op
	Tok      token.Token
	Args     []*V
	Dst      *V
	Typ      types.Type // asserted/allocated/converted-to type where relevant
	Idx      int        // field or extract index
	Orig     ssa.Instruction
	Ctx      *Ctx
	Blk      *Block
	Callee   *ssa.Function // OpCall/OpGo/OpDefer static callee
	Method   *types.Func   // invoke-mode method
	Builtin  string
	CommaOk  bool
	Maybe    bool // deferred call that may not have been registered
	Deferred bool // call executed by RunDefers
	Recur    bool // call not expanded because it is recursive
	NoNil    bool
	Cell     *cell
	ClobBy   *Instr // OpHavoc: the call that may have written the cell
	ClobArg  int    // index of the pointer argument of ClobBy, -1 if none
	SelState []*ssa.SelectState
	Blocking bool
}

type Block struct {
	ID     int
	Instrs []*Instr // the last one is the terminator
	Succs  []*Block
	Preds  []*Block
	Ctx    *Ctx

	// dominator information (SSA form)
	idom     *Block
	rpo      int
	domKids  []*Block
	domIn    int
	domOut   int
	loopHead *Loop // set when this block heads a loop
	loop     *Loop // innermost loop containing this block
}

func (b *Block) term() *Instr {
	if len(b.Instrs) == 0 {
		return nil
	}
	return b.Instrs[len(b.Instrs)-1]
}

type Loop struct {
	Head    *Block
	Blocks  map[*Block]bool
	Parent  *Loop
	Latches []*Block
}

// Ctx identifies one inlined activation.
type Ctx struct {
	Fn     *ssa.Function
	Parent *Ctx
	Call   ssa.Instruction // call site in the parent
	Depth  int
}

func (c *Ctx) has(f *ssa.Function) bool {
	for ; c != nil; c = c.Parent {
		if c.Fn == f {
			return true
		}
	}
	return false
}

func (c *Ctx) String() string {
	var parts []string
	for x := c; x != nil; x = x.Parent {
		parts = append([]string{fnName(x.Fn)}, parts...)
	}
	return strings.Join(parts, " > ")
}

type Fn struct {
	P        *Prog
	Root     *ssa.Function
	Ctx      *Ctx
	Params   []*V
	Free     []*V
	Blocks   []*Block // Blocks[0] is the entry
	nextV    int
	nextB    int
	consts   map[string]*V
	globs    map[interface{}]*V
	Loops    []*Loop
	Opt      *InlineOpt
	NInl     int
	Opaque   map[string]int // calls that were not expanded
	funcs    map[*ssa.Function]bool
	cells    map[string]*cell
	RetCells []*cell // parameter cells whose final value is appended to OpReturn
	NRes     int
}

// InlineOpt tunes expansion.
type InlineOpt struct {
	Stop               func(f *ssa.Function) bool // do not expand these
	MaxDepth           int
	Budget             int // maximum number of expanded instructions
	Devirt             func(c *ssa.CallCommon) *ssa.Function
	Keep               func(f *ssa.Function) bool // these write no bytes of slices they get
	Quiet              bool                       // leave out calls of the Log* observer fields
	Loud               bool                       // keep them all the same
	MaxTrip, MaxUnroll int                        // loop unrolling limits (trip count, instructions)
}

func (f *Fn) newV(kind VKind, t types.Type) *V {
	f.nextV++
	return &V{ID: f.nextV, Kind: kind, Typ: t}
}

func (f *Fn) newBlock(ctx *Ctx) *Block {
	f.nextB++
	b := &Block{ID: f.nextB, Ctx: ctx}
	f.Blocks = append(f.Blocks, b)
	return b
}

func (f *Fn) konst(c constant.Value, t types.Type) *V {
	k := "nil"
	if c != nil {
		k = c.ExactString()
	}
	if t != nil {
		k += "|" + types.TypeString(t, nil)
	}
	if v := f.consts[k]; v != nil {
		return v
	}
	v := f.newV(VConst, t)
	v.C = c
	f.consts[k] = v
	return v
}

func (f *Fn) intConst(n int64) *V { return f.konst(constant.MakeInt64(n), types.Typ[types.Int]) }
func (f *Fn) boolConst(b bool) *V { return f.konst(constant.MakeBool(b), types.Typ[types.Bool]) }

func (f *Fn) emit(b *Block, in *Instr) *Instr {
	in.Blk = b
	if in.Ctx == nil {
		in.Ctx = b.Ctx
	}
	b.Instrs = append(b.Instrs, in)
	return in
}

func link(a, b *Block) {
	a.Succs = append(a.Succs, b)
	b.Preds = append(b.Preds, a)
}

func (v *V) String() string {
	if v == nil {
		return "<nil>"
	}
	switch v.Kind {
	case VConst:
		if v.C == nil {
			return "nil"
		}
		return v.C.ExactString()
	case VParam, VFreeVar:
		return v.Name
	case VGlobal:
		return "@" + v.Obj.(*ssa.Global).Name()
	case VFunc:
		return "&" + v.Obj.(*ssa.Function).Name()
	case VBuiltin:
		return "builtin"
	case VUndef:
		return "undef"
	}
	return fmt.Sprintf("v%d", v.ID)
}

func (in *Instr) String() string {
	var sb strings.Builder
	if in.Dst != nil {
		fmt.Fprintf(&sb, "%s = ", in.Dst)
	}
	sb.WriteString(opNames[in.Op])
	if in.Tok != 0 {
		sb.WriteString(" " + in.Tok.String())
	}
	if in.Callee != nil {
		sb.WriteString(" " + fnName(in.Callee))
	}
	if in.Method != nil {
		sb.WriteString(" ." + in.Method.Name())
	}
	if in.Builtin != "" {
		sb.WriteString(" " + in.Builtin)
	}
	if in.Op == OpFieldAddr || in.Op == OpField || in.Op == OpExtract {
		fmt.Fprintf(&sb, " #%d", in.Idx)
	}
	for _, a := range in.Args {
		sb.WriteString(" " + a.String())
	}
	if in.Typ != nil && (in.Op == OpConvert || in.Op == OpAlloc || in.Op == OpTypeAssert) {
		sb.WriteString(" :" + types.TypeString(in.Typ, func(p *types.Package) string { return p.Name() }))
	}
	if in.Cell != nil {
		sb.WriteString(" [" + in.Cell.String() + "]")
	}
	return sb.String()
}

func (f *Fn) dump() string {
	var sb strings.Builder
	for _, b := range f.Blocks {
		fmt.Fprintf(&sb, "b%d: (preds", b.ID)
		for _, p := range b.Preds {
			fmt.Fprintf(&sb, " b%d", p.ID)
		}
		fmt.Fprintf(&sb, ")")
		if b.Ctx != nil {
			fmt.Fprintf(&sb, " // %s", b.Ctx)
		}
		if b.loopHead != nil {
			fmt.Fprintf(&sb, " LOOP")
		}
		sb.WriteString("\n")
		for _, in := range b.Instrs {
			fmt.Fprintf(&sb, "    %s", in)
			if in.Orig != nil && in.Orig.Pos().IsValid() {
				fmt.Fprintf(&sb, "   ; %s", f.P.pos(in.Orig.Pos()))
			}
			sb.WriteString("\n")
		}
		sb.WriteString("    ->")
		for _, s := range b.Succs {
			fmt.Fprintf(&sb, " b%d", s.ID)
		}
		sb.WriteString("\n")
	}
	return sb.String()
}
