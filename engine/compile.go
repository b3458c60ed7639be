package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Func is a compiled function.
type Func struct {
	ssa    *ssa.Function
	name   string
	pkg    string
	isRT   bool
	noRace bool // library model: its own accesses are not checked for races
	isRepo bool
	syn    bool
	nat    intrinsic
	redir  *ssa.Function

	state   atomic.Int32 // 0 = not compiled, 1 = compiled
	code    []Ins
	nregs   int
	nparams int
	blocks  []int // pc of blocks
	phis    [][]phi
	recover int // pc of the recover block or -1
	results *types.Tuple
	execd   atomic.Int64
}

type phi struct {
	dst  int32
	edge []opd
}

type opd struct {
	k byte // 'r' register, 'c' constant, 'g' global
	i int32
	v Val
}

type iop uint8

const (
	iNop iop = iota
	iAlloc
	iBin
	iCmp
	iCall
	iGo
	iDefer
	iMove
	iConvert
	iExtract
	iField
	iFieldAddr
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iSliceArr
	iStore
	iTypeAssert
	iLoad
	iUnNot
	iUnNeg
	iUnXor
	iRecv
)

// Ins is a compiled instruction.
type Ins struct {
	op     iop
	w      uint8
	signed bool
	kind   byte
	commaOK,
	agg bool
	loadOnly   bool // the address is used by loads only
	tok        token.Token
	dst        int32
	n          int
	es         int
	eb         int // bytes of an element
	blk        int32
	t1         int32
	t2         int32
	a, b, c, d opd
	args       []opd
	typ        types.Type
	typ2       types.Type
	rt         *RType
	fn         *Func
	bi         *ssa.Builtin
	meth       *types.Func
	sel        []selState
	pos        token.Pos
}

type selState struct {
	send bool
	ch   opd
	v    opd
	et   types.Type
}

type unsupErr struct{ msg string }

func unsup(msg string) unsupErr { return unsupErr{msg} }

func (l *Loaded) compile(f *Func) {
	if f.state.Load() == 1 {
		return
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if f.state.Load() == 1 {
		return
	}
	s := f.ssa
	if len(s.Blocks) == 0 {
		panic(unsup("no body: " + f.name))
	}
	c := &comp{l: l, f: f, slot: map[ssa.Value]int32{}}
	for _, p := range s.Params {
		c.reg(p)
	}
	f.nparams = len(s.Params)
	for _, p := range s.FreeVars {
		c.reg(p)
	}
	for _, b := range s.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.reg(v)
			}
		}
	}
	f.blocks = make([]int, len(s.Blocks))
	f.phis = make([][]phi, len(s.Blocks))
	f.results = s.Signature.Results()
	for _, b := range s.Blocks {
		f.blocks[b.Index] = len(f.code)
		for _, i := range b.Instrs {
			c.instr(b, i)
		}
	}
	f.recover = -1
	if s.Recover != nil {
		f.recover = f.blocks[s.Recover.Index]
	}
	f.nregs = len(c.slot)
	f.state.Store(1)
}

type comp struct {
	l    *Loaded
	f    *Func
	slot map[ssa.Value]int32
}

func (c *comp) reg(v ssa.Value) int32 {
	if i, ok := c.slot[v]; ok {
		return i
	}
	i := int32(len(c.slot))
	c.slot[v] = i
	return i
}

func (c *comp) opd(v ssa.Value) opd {
	switch v := v.(type) {
	case nil:
		return opd{}
	case *ssa.Const:
		return opd{k: 'c', v: c.constant(v)}
	case *ssa.Global:
		return opd{k: 'g', i: int32(c.l.globalIdx(v))}
	case *ssa.Function:
		return opd{k: 'c', v: Val{R: &Closure{fn: c.l.funcLocked(v)}}}
	case *ssa.Builtin:
		return opd{k: 'c', v: Val{}}
	}
	i, ok := c.slot[v]
	if !ok {
		panic(unsup(fmt.Sprintf("no slot for %s %T in %s", v.Name(), v, c.f.name)))
	}
	return opd{k: 'r', i: i}
}

func (c *comp) constant(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		if isAgg(t) {
			return Val{R: Agg(make([]Val, c.l.sizeOf(t)))}
		}
		return Val{}
	}
	if tp, ok := t.(*types.TypeParam); ok {
		panic(unsup("const of type param " + tp.String()))
	}
	w, signed, kind := basicInfo(t)
	switch kind {
	case 'b':
		return boolVal(constant.BoolVal(k.Value))
	case 's':
		s := constant.StringVal(k.Value)
		if s == "" {
			return Val{}
		}
		return mkStr(&Obj{bytes: []byte(s), isB: true, konst: true}, 0, len(s))
	case 'i':
		if signed {
			if i, ok := constant.Int64Val(constant.ToInt(k.Value)); ok {
				return Val{N: uint64(i) & mask(w)}
			}
		}
		u, _ := constant.Uint64Val(constant.ToInt(k.Value))
		return Val{N: u & mask(w)}
	case 'f':
		f, _ := constant.Float64Val(k.Value)
		return Val{N: math.Float64bits(f)}
	case 'g':
		f, _ := constant.Float32Val(k.Value)
		return Val{N: uint64(math.Float32bits(f))}
	case 'p':
		return Val{}
	}
	panic(unsup("const " + k.String()))
}

func (c *comp) emit(i Ins) { c.f.code = append(c.f.code, i) }

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (c *comp) call(in *Ins, cc *ssa.CallCommon) {
	for _, a := range cc.Args {
		in.args = append(in.args, c.opd(a))
	}
	if cc.IsInvoke() {
		in.kind = 'm'
		in.meth = cc.Method
		in.a = c.opd(cc.Value)
		return
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		in.kind = 'b'
		in.bi = v
		if len(cc.Args) > 0 {
			in.typ = cc.Args[0].Type()
			if len(cc.Args) > 1 {
				in.typ2 = cc.Args[1].Type()
			}
		}
		// Sizes needed by builtins.
		switch v.Name() {
		case "append", "copy", "clear":
			switch u := in.typ.Underlying().(type) {
			case *types.Slice:
				in.es = c.l.sizeOf(u.Elem())
				in.agg = isByte(u.Elem())
				in.eb = elemBytes(u.Elem())
			}
		case "min", "max":
			in.w, in.signed, _ = basicInfo(in.typ)
		case "Slice", "SliceData":
			switch u := in.typ.Underlying().(type) {
			case *types.Pointer:
				in.es = c.l.sizeOf(u.Elem())
			case *types.Slice:
				in.es = c.l.sizeOf(u.Elem())
			}
		}
	case *ssa.Function:
		in.kind = 'f'
		in.fn = c.l.funcLocked(v)
	default:
		in.kind = 'c'
		in.a = c.opd(v)
	}
}

func (c *comp) instr(b *ssa.BasicBlock, x ssa.Instruction) {
	in := Ins{pos: x.Pos(), blk: int32(b.Index), dst: -1}
	if v, ok := x.(ssa.Value); ok {
		in.dst = c.slot[v]
	}
	switch x := x.(type) {
	case *ssa.DebugRef:
		return
	case *ssa.Phi:
		p := phi{dst: in.dst}
		for _, e := range x.Edges {
			p.edge = append(p.edge, c.opd(e))
		}
		c.f.phis[b.Index] = append(c.f.phis[b.Index], p)
		return
	case *ssa.Alloc:
		in.op = iAlloc
		t := deref(x.Type())
		in.typ = t
		in.n = c.l.sizeOf(t)
		if a, ok := t.Underlying().(*types.Array); ok && isByte(a.Elem()) {
			in.agg = true
		}
	case *ssa.BinOp:
		c.binop(&in, x)
	case *ssa.Call:
		in.op = iCall
		c.call(&in, x.Common())
	case *ssa.Go:
		in.op = iGo
		c.call(&in, x.Common())
	case *ssa.Defer:
		in.op = iDefer
		c.call(&in, x.Common())
		if x.DeferStack != nil {
			in.b = c.opd(x.DeferStack)
		}
	case *ssa.ChangeInterface:
		in.op = iMove
		in.a = c.opd(x.X)
	case *ssa.ChangeType:
		in.op = iMove
		in.a = c.opd(x.X)
	case *ssa.Convert:
		in.op = iConvert
		in.a = c.opd(x.X)
		in.typ = x.X.Type()
		in.typ2 = x.Type()
	case *ssa.MultiConvert:
		in.op = iConvert
		in.a = c.opd(x.X)
		in.typ = x.X.Type()
		in.typ2 = x.Type()
	case *ssa.Extract:
		in.op = iExtract
		in.a = c.opd(x.Tuple)
		in.n = x.Index
	case *ssa.Field:
		in.op = iField
		in.a = c.opd(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		in.n = c.l.fieldOff(st, x.Field)
		in.typ = st.Field(x.Field).Type()
		in.es = c.l.sizeOf(in.typ)
		in.agg = isAgg(in.typ)
	case *ssa.FieldAddr:
		in.op = iFieldAddr
		in.a = c.opd(x.X)
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		in.n = c.l.fieldOff(st, x.Field)
	case *ssa.If:
		in.op = iIf
		in.a = c.opd(x.Cond)
		in.t1 = int32(b.Succs[0].Index)
		in.t2 = int32(b.Succs[1].Index)
	case *ssa.Index:
		in.op = iIndex
		in.a = c.opd(x.X)
		in.b = c.opd(x.Index)
		in.w, in.signed, _ = basicInfo(x.Index.Type())
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			in.kind = 'a'
			in.n = int(u.Len())
			in.typ = u.Elem()
			in.es = c.l.sizeOf(u.Elem())
			in.agg = isAgg(u.Elem())
		default:
			in.kind = 's'
		}
	case *ssa.IndexAddr:
		in.op = iIndexAddr
		in.loadOnly = true
		for _, r := range *x.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				in.loadOnly = false
			}
		}
		in.a = c.opd(x.X)
		in.b = c.opd(x.Index)
		in.w, in.signed, _ = basicInfo(x.Index.Type())
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			in.kind = 's'
			in.es = c.l.sizeOf(u.Elem())
			in.typ = u.Elem()
		case *types.Pointer:
			in.kind = 'a'
			a := u.Elem().Underlying().(*types.Array)
			in.n = int(a.Len())
			in.es = c.l.sizeOf(a.Elem())
			in.typ = a.Elem()
		}
	case *ssa.Jump:
		in.op = iJump
		in.t1 = int32(b.Succs[0].Index)
	case *ssa.Lookup:
		in.op = iLookup
		in.a = c.opd(x.X)
		in.b = c.opd(x.Index)
		in.commaOK = x.CommaOk
		mt := x.X.Type().Underlying().(*types.Map)
		in.typ = mt.Key()
		in.typ2 = mt.Elem()
	case *ssa.MakeChan:
		in.op = iMakeChan
		in.a = c.opd(x.Size)
	case *ssa.MakeClosure:
		in.op = iMakeClosure
		in.fn = c.l.funcLocked(x.Fn.(*ssa.Function))
		for _, v := range x.Bindings {
			in.args = append(in.args, c.opd(v))
		}
	case *ssa.MakeInterface:
		in.op = iMakeIface
		in.a = c.opd(x.X)
		in.rt = c.l.rtypeLocked(x.X.Type())
	case *ssa.MakeMap:
		in.op = iMakeMap
	case *ssa.MakeSlice:
		in.op = iMakeSlice
		in.a = c.opd(x.Len)
		in.b = c.opd(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		in.es = c.l.sizeOf(et)
		in.agg = isByte(et)
	case *ssa.MapUpdate:
		in.op = iMapUpdate
		in.a = c.opd(x.Map)
		in.b = c.opd(x.Key)
		in.c = c.opd(x.Value)
		in.typ = x.Map.Type().Underlying().(*types.Map).Key()
	case *ssa.Next:
		in.op = iNext
		in.a = c.opd(x.Iter)
		in.agg = x.IsString
		if r, ok := x.Iter.(*ssa.Range); ok {
			if mt, ok := r.X.Type().Underlying().(*types.Map); ok {
				in.typ = mt.Key()
				in.typ2 = mt.Elem()
			}
		}
	case *ssa.Panic:
		in.op = iPanic
		in.a = c.opd(x.X)
	case *ssa.Range:
		in.op = iRange
		in.a = c.opd(x.X)
		_, in.agg = x.X.Type().Underlying().(*types.Basic)
	case *ssa.Return:
		in.op = iReturn
		for _, r := range x.Results {
			in.args = append(in.args, c.opd(r))
		}
	case *ssa.RunDefers:
		in.op = iRunDefers
	case *ssa.Select:
		in.op = iSelect
		in.commaOK = !x.Blocking
		for _, s := range x.States {
			st := selState{send: s.Dir == types.SendOnly, ch: c.opd(s.Chan), v: c.opd(s.Send)}
			st.et = s.Chan.Type().Underlying().(*types.Chan).Elem()
			in.sel = append(in.sel, st)
		}
	case *ssa.Send:
		in.op = iSend
		in.a = c.opd(x.Chan)
		in.b = c.opd(x.X)
	case *ssa.Slice:
		in.op = iSlice
		in.a = c.opd(x.X)
		in.b = c.opd(x.Low)
		in.c = c.opd(x.High)
		in.d = c.opd(x.Max)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			in.kind = 's'
			in.es = c.l.sizeOf(u.Elem())
		case *types.Basic:
			in.kind = 't'
		case *types.Pointer:
			in.kind = 'a'
			a := u.Elem().Underlying().(*types.Array)
			in.n = int(a.Len())
			in.es = c.l.sizeOf(a.Elem())
		default:
			// Constrained type parameters: treat as a string or byte slice.
			in.kind = 't'
		}
	case *ssa.SliceToArrayPointer:
		in.op = iSliceArr
		in.a = c.opd(x.X)
		in.n = int(deref(x.Type()).Underlying().(*types.Array).Len())
	case *ssa.Store:
		in.op = iStore
		in.a = c.opd(x.Addr)
		in.b = c.opd(x.Val)
		t := deref(x.Addr.Type())
		in.agg = isAgg(t)
		in.es = c.l.sizeOf(t)
	case *ssa.TypeAssert:
		in.op = iTypeAssert
		in.a = c.opd(x.X)
		in.commaOK = x.CommaOk
		in.typ = x.AssertedType
		in.rt = c.l.rtypeLocked(x.AssertedType)
		_, in.agg = x.AssertedType.Underlying().(*types.Interface)
	case *ssa.UnOp:
		in.a = c.opd(x.X)
		in.commaOK = x.CommaOk
		switch x.Op {
		case token.MUL:
			in.op = iLoad
			t := deref(x.X.Type())
			in.typ = t
			in.agg = isAgg(t)
			in.es = c.l.sizeOf(t)
			_, _, in.kind = basicInfo(t)
			if _, ok := t.Underlying().(*types.Slice); ok {
				in.kind = 'S'
			}
		case token.NOT:
			in.op = iUnNot
		case token.SUB:
			in.op = iUnNeg
			in.w, in.signed, in.kind = basicInfo(x.Type())
		case token.XOR:
			in.op = iUnXor
			in.w, in.signed, in.kind = basicInfo(x.Type())
		case token.ARROW:
			in.op = iRecv
			in.typ = x.X.Type().Underlying().(*types.Chan).Elem()
		}
	default:
		panic(unsup(fmt.Sprintf("instr %T in %s", x, c.f.name)))
	}
	c.emit(in)
}

func (c *comp) binop(in *Ins, x *ssa.BinOp) {
	in.op = iBin
	in.tok = x.Op
	in.a = c.opd(x.X)
	in.b = c.opd(x.Y)
	in.typ = x.X.Type()
	in.w, in.signed, in.kind = basicInfo(x.X.Type())
	if x.Op == token.SHL || x.Op == token.SHR {
		// Width and signedness of the shift count.
		w, s, _ := basicInfo(x.Y.Type())
		in.n = int(w)
		in.commaOK = s
	}
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		in.op = iCmp
		// Comparison with an interface on one side only.
		_, ix := x.X.Type().Underlying().(*types.Interface)
		_, iy := x.Y.Type().Underlying().(*types.Interface)
		if ix != iy {
			if ix {
				in.n = 1
				in.rt = c.l.rtypeLocked(x.Y.Type())
			} else {
				in.n = 2
				in.rt = c.l.rtypeLocked(x.X.Type())
				in.typ = x.Y.Type()
			}
			in.kind = 'o'
		}
	}
}
