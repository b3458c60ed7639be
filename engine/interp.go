package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
)

func (m *Machine) jump(f *Frame, to int32) {
	if ph := f.fn.phis[to]; len(ph) > 0 {
		b := f.fn.ssa.Blocks[to]
		from := int(f.blk)
		idx := -1
		for i, p := range b.Preds {
			if p.Index == from {
				idx = i
				break
			}
		}
		if len(ph) == 1 {
			f.regs[ph[0].dst] = m.val(&ph[0].edge[idx])
		} else {
			var buf [16]Val
			tmp := buf[:0]
			for i := range ph {
				tmp = append(tmp, m.val(&ph[i].edge[idx]))
			}
			for i := range ph {
				f.regs[ph[i].dst] = tmp[i]
			}
		}
	}
	f.blk = to
	f.pc = f.fn.blocks[to]
}

// loop executes until the path ends or a scheduling point is reached.
func (m *Machine) loop() {
	for {
		f := m.top
		in := &f.fn.code[f.pc]
		m.steps++
		m.instrDec0 = len(m.decs)
		m.instrPC0 = len(m.pc)
		m.instrDom0 = len(m.domTr)
		if m.steps&0xfff == 0 {
			m.stats.Instr += 0x1000
			if m.lim.maxSteps > 0 && m.steps > m.lim.maxSteps && !m.initing {
				panic(endSig{"step budget"})
			}
		}
		switch in.op {
		case iLoad:
			p := m.val(&in.a)
			o, ok := p.R.(*Obj)
			if !ok {
				m.nilPtr(p)
			}
			if o.noini && !m.initing {
				panic(unsup("a variable of a package whose initialisation is not modelled, at " + m.L.pos(in.pos)))
			}
			if m.raceOn {
				m.raceRead(o, int(p.N), in.es)
			}
			if in.agg {
				m.set(in.dst, Val{R: m.loadAgg(o, int(p.N), in.es)})
			} else {
				v := o.get(int(p.N))
				if v.R != nil {
					switch in.kind {
					case 's':
						if _, ok := v.R.(*Slice); ok {
							v = m.asStr(v)
						}
					case 'S':
						if so, ok := v.R.(*Obj); ok {
							v = Val{R: &Slice{so, strOff(v), strLen(v), strLen(v)}}
						}
					}
				}
				m.set(in.dst, v)
			}
			m.top.pc++
		case iStore:
			p := m.val(&in.a)
			v := m.val(&in.b)
			o, ok := p.R.(*Obj)
			if !ok {
				m.nilPtr(p)
			}
			if m.raceOn {
				m.raceWrite(o, int(p.N), in.es)
			}
			m.store(o, int(p.N), v, in.agg, in.es)
			m.fr().pc++
		case iIf:
			c := m.val(&in.a)
			var b bool
			if t, ok := c.R.(*Term); ok {
				b = m.branch(t)
			} else {
				b = c.N != 0
			}
			f = m.fr()
			if b {
				m.jump(f, in.t1)
			} else {
				m.jump(f, in.t2)
			}
		case iJump:
			m.jump(m.fr(), in.t1)
		case iFieldAddr:
			p := m.val(&in.a)
			if p.R == nil {
				m.nilPtr(p)
			}
			p.N += uint64(in.n)
			m.set(in.dst, p)
			m.top.pc++
		case iIndexAddr:
			v := m.indexAddr(in)
			m.set(in.dst, v)
			m.top.pc++
		case iBin:
			v := m.binop(in, m.val(&in.a), m.val(&in.b))
			m.set(in.dst, v)
			m.top.pc++
		case iCmp:
			v := m.cmp(in, m.val(&in.a), m.val(&in.b))
			m.set(in.dst, v)
			m.top.pc++
		case iCall:
			m.call(in)
			if m.endPath || m.phase != 0 {
				return
			}
		case iMove:
			v := m.val(&in.a)
			m.set(in.dst, v)
			m.top.pc++
		case iExtract:
			t := m.val(&in.a).R.(Tuple)
			m.set(in.dst, t[in.n])
			m.top.pc++
		case iReturn:
			var buf [4]Val
			res := buf[:0]
			for i := range in.args {
				res = append(res, m.val(&in.args[i]))
			}
			m.ret(res)
			if m.endPath || m.phase != 0 {
				return
			}
		case iAlloc:
			var o *Obj
			if in.agg {
				o = &Obj{bytes: make([]byte, in.n), isB: true, epoch: m.epoch}
			} else {
				o = &Obj{cells: make([]Val, in.n), epoch: m.epoch}
			}
			m.set(in.dst, Val{R: o})
			m.top.pc++
		case iField:
			x := m.val(&in.a).R.(Agg)
			if in.agg {
				m.set(in.dst, Val{R: Agg(x[in.n : in.n+in.es])})
			} else {
				m.set(in.dst, x[in.n])
			}
			m.top.pc++
		case iIndex:
			v := m.index(in)
			m.set(in.dst, v)
			m.top.pc++
		case iSlice:
			v := m.slice(in)
			m.set(in.dst, v)
			m.top.pc++
		case iConvert:
			v := m.convert(m.val(&in.a), in.typ, in.typ2)
			m.set(in.dst, v)
			m.top.pc++
		case iMakeIface:
			v := m.val(&in.a)
			m.set(in.dst, Val{R: &Iface{in.rt, v}})
			m.top.pc++
		case iTypeAssert:
			m.typeAssert(in)
		case iMakeClosure:
			c := &Closure{fn: in.fn, binds: make([]Val, len(in.args))}
			for i := range in.args {
				c.binds[i] = m.val(&in.args[i])
			}
			m.set(in.dst, Val{R: c})
			m.top.pc++
		case iMakeMap:
			m.set(in.dst, Val{R: m.newMap()})
			m.top.pc++
		case iMakeSlice:
			n := m.concInt(m.val(&in.a))
			c := m.concInt(m.val(&in.b))
			if n < 0 || n > 1<<31 {
				panic(goPanic{m.runtimeErr("makeslice: len out of range")})
			}
			if c < n || c > 1<<31 {
				panic(goPanic{m.runtimeErr("makeslice: cap out of range")})
			}
			if c*in.es > 1<<26 {
				panic(unsup("huge allocation"))
			}
			var o *Obj
			if in.agg {
				o = &Obj{bytes: make([]byte, c), isB: true, epoch: m.epoch}
			} else {
				o = &Obj{cells: make([]Val, c*in.es), epoch: m.epoch}
			}
			m.set(in.dst, Val{R: &Slice{o, 0, n, c}})
			m.top.pc++
		case iMapUpdate:
			mo, ok := m.val(&in.a).R.(*MapObj)
			if !ok {
				panic(goPanic{m.panicErrStr("assignment to entry in nil map")})
			}
			if m.raceOn {
				m.raceMap(mo, true)
			}
			m.mapSet(mo, m.val(&in.b), m.val(&in.c), in.typ)
			m.fr().pc++
		case iLookup:
			mv := m.val(&in.a)
			var v Val
			found := false
			if mo, ok := mv.R.(*MapObj); ok {
				if m.raceOn {
					m.raceMap(mo, false)
				}
				if i := m.mapFind(mo, m.val(&in.b), in.typ); i >= 0 {
					v = mo.vals[i]
					found = true
				}
			}
			if !found {
				v = m.zero(in.typ2)
			}
			if in.commaOK {
				v = Val{R: Tuple{v, boolVal(found)}}
			}
			m.set(in.dst, v)
			m.top.pc++
		case iRange:
			x := m.val(&in.a)
			it := &MapIter{epo: m.epoch}
			if in.agg {
				it.isS = true
				it.str = m.asStr(x)
			} else {
				it.m, _ = x.R.(*MapObj)
				if it.m != nil && m.raceOn {
					m.raceMap(it.m, false)
				}
			}
			m.set(in.dst, Val{R: it})
			m.top.pc++
		case iNext:
			m.next(in)
		case iRunDefers:
			f = m.fr()
			if len(f.defers) == 0 {
				f.pc++
				continue
			}
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			m.callDefer(d)
			if m.endPath || m.phase != 0 {
				return
			}
		case iDefer:
			d := deferRec{}
			for i := range in.args {
				d.args = append(d.args, m.val(&in.args[i]))
			}
			switch in.kind {
			case 'b':
				d.bi = in
			case 'f':
				d.fn = in.fn
			case 'm':
				fn, recv := m.resolve(in)
				d.fn = fn
				d.args = append([]Val{recv}, d.args...)
			default:
				c, ok := m.val(&in.a).R.(*Closure)
				if !ok {
					m.nilPtr(Val{})
				}
				d.cl = c
			}
			f = m.fr()
			f.defers = append(f.defers, d)
			f.pc++
		case iGo:
			m.goStmt(in)
			if m.phase != 0 {
				return
			}
		case iPanic:
			v := m.val(&in.a)
			if v.R == nil {
				v = m.runtimeErr("panic called with nil argument")
			}
			panic(goPanic{v})
		case iUnNot:
			v := m.val(&in.a)
			if t, ok := v.R.(*Term); ok {
				v = fromTerm(m.tt.Not(t))
			} else {
				v = Val{N: v.N ^ 1}
			}
			m.set(in.dst, v)
			m.top.pc++
		case iUnNeg:
			v := m.val(&in.a)
			switch in.kind {
			case 'f':
				if v.R != nil {
					v = fromTerm(m.tt.FUn(OpFNeg, v.R.(*Term)))
				} else {
					v = Val{N: v.N ^ (1 << 63)}
				}
			case 'g':
				v = Val{N: uint64(math.Float32bits(-math.Float32frombits(uint32(v.N))))}
			default:
				if t, ok := v.R.(*Term); ok {
					v = fromTerm(m.tt.Bin(OpSub, m.tt.Const(in.w, 0), t))
				} else {
					v = Val{N: -v.N & mask(in.w)}
				}
			}
			m.set(in.dst, v)
			m.top.pc++
		case iUnXor:
			v := m.val(&in.a)
			if t, ok := v.R.(*Term); ok {
				v = fromTerm(m.tt.BNotBV(t))
			} else {
				v = Val{N: ^v.N & mask(in.w)}
			}
			m.set(in.dst, v)
			m.top.pc++
		case iSend:
			if m.syncPoint() {
				return
			}
			m.send(m.val(&in.a), m.val(&in.b))
			m.fr().pc++
			m.passed()
		case iRecv:
			if m.syncPoint() {
				return
			}
			v, ok := m.recv(m.val(&in.a), in.typ)
			if in.commaOK {
				v = Val{R: Tuple{v, boolVal(ok)}}
			}
			m.set(in.dst, v)
			m.top.pc++
			m.passed()
		case iSelect:
			if m.syncPoint() {
				return
			}
			m.selectStmt(in)
			m.passed()
		case iMakeChan:
			n := m.concInt(m.val(&in.a))
			m.set(in.dst, Val{R: &Chan{cap: n, epoch: m.epoch}})
			m.top.pc++
		case iSliceArr:
			v := m.val(&in.a)
			s, ok := v.R.(*Slice)
			if !ok {
				if in.n > 0 {
					panic(goPanic{m.runtimeErr("cannot convert slice to array pointer")})
				}
				m.set(in.dst, Val{})
			} else {
				if s.len < in.n {
					panic(goPanic{m.runtimeErr("cannot convert slice to array pointer")})
				}
				m.set(in.dst, Val{R: s.obj, N: uint64(s.off)})
			}
			m.top.pc++
		default:
			panic(unsup(fmt.Sprintf("op %d", in.op)))
		}
	}
}

func (m *Machine) nilPtr(p Val) {
	if p.R != nil {
		panic(unsup(fmt.Sprintf("pointer to %T", p.R)))
	}
	panic(goPanic{m.runtimeErr("invalid memory address or nil pointer dereference")})
}

func (m *Machine) panicErrStr(s string) Val { return m.runtimeErr(s) }

func (m *Machine) loadAgg(o *Obj, off, n int) Agg {
	r := make(Agg, n)
	if o.isB {
		for i := range r {
			r[i] = o.byteAt(off + i)
		}
		return r
	}
	copy(r, o.cells[off:off+n])
	return r
}

func (m *Machine) store(o *Obj, off int, v Val, agg bool, n int) {
	m.touch(o)
	if agg {
		x := v.R.(Agg)
		if o.isB {
			for i := range x {
				o.setByte(off+i, x[i])
			}
			return
		}
		copy(o.cells[off:off+n], x)
		return
	}
	if o.isB {
		o.setByte(off, v)
		return
	}
	o.cells[off] = v
}

// concInt concretises an integer, forking over its feasible values.
func (m *Machine) concInt(v Val) int {
	t, ok := v.R.(*Term)
	if !ok {
		return int(v.N)
	}
	return int(sx(m.concretize(t), t.w))
}

func (m *Machine) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	for i := 0; i < 4096; i++ {
		var c uint64
		if m.forcePos < len(m.forced) {
			c = m.forced[m.forcePos].x
			m.forcePos++
		} else {
			if !m.ensureModel() {
				panic(endSig{"solver unknown"})
			}
			c = m.tt.Eval(t, m.model)
		}
		m.decs = append(m.decs, dec{implied: true, x: c})
		if m.branch(m.tt.Eq(t, m.tt.Const(t.w, c))) {
			return c
		}
	}
	panic(unsup("concretize: too many values"))
}

func (m *Machine) indexAddr(in *Ins) Val {
	x := m.val(&in.a)
	iv := m.val(&in.b)
	var o *Obj
	off, n := 0, 0
	if in.kind == 's' {
		s, ok := x.R.(*Slice)
		if ok {
			o, off, n = s.obj, s.off, s.len
		}
	} else {
		ob, ok := x.R.(*Obj)
		if !ok {
			m.nilPtr(x)
		}
		o, off, n = ob, int(x.N), in.n
	}
	if t, ok := iv.R.(*Term); ok {
		t = m.tt.Resize(t, 64, in.signed)
		if !m.branch(m.tt.Cmp(OpUlt, t, m.tt.Const(64, uint64(n)))) {
			panic(goPanic{m.runtimeErr("index out of range")})
		}
		if in.loadOnly && !m.raceOn {
			if in.es == 1 {
				_, _, k := basicInfo(in.typ)
				if k == 'i' || k == 'b' {
					if v, ok := m.tableLookup(t, n, func(i int) Val { return o.get(off + i) }, &Ins{kind: 'a', typ: in.typ}); ok {
						return Val{R: &Obj{cells: []Val{v}, epoch: m.epoch}}
					}
				}
			}
			if !o.isB && n <= 512 {
				return Val{R: o, N: uint64(off + m.pickClass(t, n, o, off, in.es)*in.es)}
			}
		}
		i := m.pickIndex(t, n)
		return Val{R: o, N: uint64(off + i*in.es)}
	}
	i := sx(iv.N, in.w)
	if !in.signed {
		i = int64(iv.N)
	}
	if i < 0 || i >= int64(n) {
		panic(goPanic{m.runtimeErr(fmt.Sprintf("index out of range [%d] with length %d", i, n))})
	}
	return Val{R: o, N: uint64(off + int(i)*in.es)}
}

// pickClass picks an element to load: elements that are the same are not told apart.
func (m *Machine) pickClass(t *Term, n int, o *Obj, off, es int) int {
	var classes [][]int
	for i := 0; i < n; i++ {
		found := false
		for k, c := range classes {
			if sameCells(o.cells[off+i*es:off+(i+1)*es], o.cells[off+c[0]*es:off+(c[0]+1)*es]) {
				classes[k] = append(c, i)
				found = true
				break
			}
		}
		if !found {
			classes = append(classes, []int{i})
		}
	}
	sort.SliceStable(classes, func(i, j int) bool { return len(classes[i]) < len(classes[j]) })
	for k, c := range classes {
		if k == len(classes)-1 {
			return c[0]
		}
		cond := m.tt.Bool(false)
		for _, i := range c {
			cond = m.tt.Or(cond, m.tt.Eq(t, m.tt.Const(t.w, uint64(i))))
		}
		if m.branch(cond) {
			return c[0]
		}
	}
	return 0
}

func sameCells(a, b []Val) bool {
	for i := range a {
		if a[i].N != b[i].N {
			return false
		}
		switch a[i].R.(type) {
		case nil, *Obj, *Slice, *Term, *Iface:
			if a[i].R != b[i].R {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// pickIndex concretises an in-range index by asking for each value.
func (m *Machine) pickIndex(t *Term, n int) int {
	if n == 1 {
		return 0
	}
	// A deterministic enumeration keeps replays independent of solver models.
	for i := 0; i < n-1; i++ {
		if m.branch(m.tt.Eq(t, m.tt.Const(t.w, uint64(i)))) {
			return i
		}
	}
	return n - 1
}

func (m *Machine) index(in *Ins) Val {
	x := m.val(&in.a)
	iv := m.val(&in.b)
	n := in.n
	if in.kind == 's' {
		x = m.asStr(x)
		n = strLen(x)
	}
	if t, ok := iv.R.(*Term); ok {
		w64 := m.tt.Resize(t, 64, in.signed)
		if !m.branch(m.tt.Cmp(OpUlt, w64, m.tt.Const(64, uint64(n)))) {
			panic(goPanic{m.runtimeErr("index out of range")})
		}
		if v, ok := m.tableLookup(w64, n, func(i int) Val {
			if in.kind == 's' {
				return x.R.(*Obj).byteAt(strOff(x) + i)
			}
			if in.agg {
				return Val{R: 0}
			}
			return x.R.(Agg)[i]
		}, in); ok {
			return v
		}
		iv = Val{N: uint64(m.pickIndex(w64, n))}
	}
	i := sx(iv.N, in.w)
	if !in.signed {
		i = int64(iv.N)
	}
	if i < 0 || i >= int64(n) {
		panic(goPanic{m.runtimeErr(fmt.Sprintf("index out of range [%d] with length %d", i, n))})
	}
	if in.kind == 's' {
		return x.R.(*Obj).byteAt(strOff(x) + int(i))
	}
	a := x.R.(Agg)
	if in.agg {
		return Val{R: Agg(a[int(i)*in.es : (int(i)+1)*in.es])}
	}
	return a[i]
}

// tableLookup builds an if-then-else over a small table of concrete scalars.
func (m *Machine) tableLookup(t *Term, n int, get func(i int) Val, in *Ins) (Val, bool) {
	if n > 512 {
		return Val{}, false
	}
	w := uint8(8)
	if in.kind != 's' {
		ww, _, k := basicInfo(in.typ)
		if k != 'i' && k != 'b' {
			return Val{}, false
		}
		w = ww
	}
	vals := make([]uint64, n)
	for i := range vals {
		v := get(i)
		if v.R != nil {
			return Val{}, false
		}
		vals[i] = v.N
	}
	mk := func(v uint64) *Term {
		if w == 0 {
			return m.tt.Bool(v != 0)
		}
		return m.tt.Const(w, v)
	}
	// Binary decision over runs.
	type run struct {
		lo int
		v  uint64
	}
	var runs []run
	for i, v := range vals {
		if len(runs) == 0 || runs[len(runs)-1].v != v {
			runs = append(runs, run{i, v})
		}
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return mk(runs[lo].v)
		}
		mid := (lo + hi) / 2
		return m.tt.Ite(m.tt.Cmp(OpUlt, t, m.tt.Const(64, uint64(runs[mid].lo))), build(lo, mid), build(mid, hi))
	}
	return fromTerm(build(0, len(runs))), true
}

func (m *Machine) slice(in *Ins) Val {
	x := m.val(&in.a)
	lo, hi, mx := -1, -1, -1
	if in.b.k != 0 {
		lo = m.concInt(m.val(&in.b))
		if lo < 0 {
			panic(goPanic{m.runtimeErr("slice bounds out of range")})
		}
	}
	if in.c.k != 0 {
		hi = m.concInt(m.val(&in.c))
		if hi < 0 {
			panic(goPanic{m.runtimeErr("slice bounds out of range")})
		}
	}
	if in.d.k != 0 {
		mx = m.concInt(m.val(&in.d))
	}
	if lo < 0 {
		lo = 0
	}
	kind := in.kind
	if kind == 't' {
		if _, ok := x.R.(*Slice); ok {
			kind = 's'
			if in.es == 0 {
				in.es = 1
			}
		}
	}
	switch kind {
	case 't':
		n := strLen(x)
		if hi < 0 {
			hi = n
		}
		if lo > hi || hi > n {
			panic(goPanic{m.runtimeErr(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))})
		}
		if lo == hi {
			return Val{}
		}
		return mkStr(x.R.(*Obj), strOff(x)+lo, hi-lo)
	case 's':
		s, ok := x.R.(*Slice)
		if !ok {
			if lo > 0 || hi > 0 || mx > 0 {
				panic(goPanic{m.runtimeErr(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity 0", lo, hi))})
			}
			return Val{}
		}
		if hi < 0 {
			hi = s.len
		}
		c := s.cap
		if mx >= 0 {
			if mx > c {
				panic(goPanic{m.runtimeErr("slice bounds out of range")})
			}
			c = mx
		}
		if lo > hi || hi > c {
			panic(goPanic{m.runtimeErr(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, c))})
		}
		return Val{R: &Slice{s.obj, s.off + lo*in.es, hi - lo, c - lo}}
	default:
		o, ok := x.R.(*Obj)
		if !ok {
			m.nilPtr(x)
		}
		if hi < 0 {
			hi = in.n
		}
		c := in.n
		if mx >= 0 {
			c = mx
		}
		if lo > hi || hi > c || c > in.n {
			panic(goPanic{m.runtimeErr("slice bounds out of range")})
		}
		return Val{R: &Slice{o, int(x.N) + lo*in.es, hi - lo, c - lo}}
	}
}

func (m *Machine) binop(in *Ins, a, b Val) Val {
	switch in.kind {
	case 'i':
	case 'f':
		if a.R == nil && b.R == nil {
			x, y := math.Float64frombits(a.N), math.Float64frombits(b.N)
			switch in.tok {
			case token.ADD:
				x += y
			case token.SUB:
				x -= y
			case token.MUL:
				x *= y
			case token.QUO:
				x /= y
			}
			return Val{N: math.Float64bits(x)}
		}
		op := map[token.Token]Op{token.ADD: OpFAdd, token.SUB: OpFSub, token.MUL: OpFMul, token.QUO: OpFDiv}[in.tok]
		return fromTerm(m.tt.FBin(op, m.term(a, fpSort), m.term(b, fpSort)))
	case 'g':
		x, y := math.Float32frombits(uint32(a.N)), math.Float32frombits(uint32(b.N))
		switch in.tok {
		case token.ADD:
			x += y
		case token.SUB:
			x -= y
		case token.MUL:
			x *= y
		case token.QUO:
			x /= y
		}
		return Val{N: uint64(math.Float32bits(x))}
	case 's':
		return m.concat(a, b)
	case 'b':
		x, y := m.term(a, 0), m.term(b, 0)
		switch in.tok {
		case token.AND:
			return fromTerm(m.tt.And(x, y))
		case token.OR:
			return fromTerm(m.tt.Or(x, y))
		}
		panic(unsup("bool op " + in.tok.String()))
	case 'p':
		// Pointer arithmetic is not supported; xor with zero and the like is identity.
		if b.R == nil && b.N == 0 {
			return a
		}
		panic(unsup("pointer arithmetic"))
	default:
		panic(unsup("binop on " + in.typ.String()))
	}
	w := in.w
	switch in.tok {
	case token.SHL, token.SHR:
		return m.shift(in, a, b)
	}
	if a.R == nil && b.R == nil {
		x, y := a.N, b.N
		var r uint64
		switch in.tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.AND:
			r = x & y
		case token.OR:
			r = x | y
		case token.XOR:
			r = x ^ y
		case token.AND_NOT:
			r = x &^ y
		case token.QUO, token.REM:
			if y == 0 {
				panic(goPanic{m.runtimeErr("integer divide by zero")})
			}
			if in.signed {
				sa, sb := sx(x, w), sx(y, w)
				if in.tok == token.QUO {
					if sb == -1 {
						r = uint64(-sa)
					} else {
						r = uint64(sa / sb)
					}
				} else if sb != -1 {
					r = uint64(sa % sb)
				}
			} else if in.tok == token.QUO {
				r = x / y
			} else {
				r = x % y
			}
		}
		return Val{N: r & mask(w)}
	}
	if p, ok := a.R.(*Obj); ok {
		_ = p
		if b.R == nil && b.N == 0 {
			return a
		}
		panic(unsup("uintptr arithmetic on a pointer"))
	}
	x, y := m.term(a, w), m.term(b, w)
	switch in.tok {
	case token.ADD:
		return fromTerm(m.tt.Bin(OpAdd, x, y))
	case token.SUB:
		return fromTerm(m.tt.Bin(OpSub, x, y))
	case token.MUL:
		return fromTerm(m.tt.Bin(OpMul, x, y))
	case token.AND:
		return fromTerm(m.tt.Bin(OpAnd, x, y))
	case token.OR:
		return fromTerm(m.tt.Bin(OpOr, x, y))
	case token.XOR:
		return fromTerm(m.tt.Bin(OpXor, x, y))
	case token.AND_NOT:
		return fromTerm(m.tt.Bin(OpAnd, x, m.tt.BNotBV(y)))
	case token.QUO, token.REM:
		if m.branch(m.tt.Eq(y, m.tt.Const(w, 0))) {
			panic(goPanic{m.runtimeErr("integer divide by zero")})
		}
		op := OpUDiv
		switch {
		case in.signed && in.tok == token.QUO:
			op = OpSDiv
		case in.signed:
			op = OpSRem
		case in.tok == token.REM:
			op = OpURem
		}
		return fromTerm(m.narrow(m.tt.Bin(op, x, y)))
	}
	panic(unsup("binop " + in.tok.String()))
}

func (m *Machine) shift(in *Ins, a, b Val) Val {
	w := in.w
	if b.R == nil {
		c := b.N
		if in.commaOK && sx(c, uint8(in.n)) < 0 {
			panic(goPanic{m.runtimeErr("negative shift amount")})
		}
		if a.R == nil {
			if in.tok == token.SHL {
				if c >= uint64(w) {
					return Val{}
				}
				return Val{N: (a.N << c) & mask(w)}
			}
			if in.signed {
				if c > 63 {
					c = 63
				}
				return Val{N: uint64(sx(a.N, w)>>c) & mask(w)}
			}
			if c >= uint64(w) {
				return Val{}
			}
			return Val{N: a.N >> c}
		}
		if c >= uint64(w) {
			if in.signed && in.tok == token.SHR {
				c = uint64(w) - 1
			} else {
				return Val{}
			}
		}
		x := m.term(a, w)
		y := m.tt.Const(w, c)
		switch {
		case in.tok == token.SHL:
			return fromTerm(m.tt.Bin(OpShl, x, y))
		case in.signed:
			return fromTerm(m.tt.Bin(OpAshr, x, y))
		}
		return fromTerm(m.tt.Bin(OpLshr, x, y))
	}
	ct := b.R.(*Term)
	if in.commaOK {
		if m.branch(m.tt.Cmp(OpSlt, ct, m.tt.Const(ct.w, 0))) {
			panic(goPanic{m.runtimeErr("negative shift amount")})
		}
	}
	x := m.term(a, w)
	var y *Term
	big := m.tt.False
	if ct.w > w {
		big = m.tt.Not(m.tt.Cmp(OpUlt, ct, m.tt.Const(ct.w, uint64(w))))
		y = m.tt.Resize(ct, w, false)
	} else {
		y = m.tt.Resize(ct, w, false)
	}
	switch {
	case in.tok == token.SHL:
		return fromTerm(m.tt.Ite(big, m.tt.Const(w, 0), m.tt.Bin(OpShl, x, y)))
	case in.signed:
		return fromTerm(m.tt.Ite(big, m.tt.Bin(OpAshr, x, m.tt.Const(w, uint64(w)-1)), m.tt.Bin(OpAshr, x, y)))
	}
	return fromTerm(m.tt.Ite(big, m.tt.Const(w, 0), m.tt.Bin(OpLshr, x, y)))
}

func (m *Machine) cmp(in *Ins, a, b Val) Val {
	switch in.kind {
	case 'i':
		if a.R == nil && b.R == nil {
			var r bool
			if in.tok == token.EQL {
				return boolVal(a.N == b.N)
			}
			if in.tok == token.NEQ {
				return boolVal(a.N != b.N)
			}
			if in.signed {
				x, y := sx(a.N, in.w), sx(b.N, in.w)
				switch in.tok {
				case token.LSS:
					r = x < y
				case token.LEQ:
					r = x <= y
				case token.GTR:
					r = x > y
				case token.GEQ:
					r = x >= y
				}
			} else {
				x, y := a.N, b.N
				switch in.tok {
				case token.LSS:
					r = x < y
				case token.LEQ:
					r = x <= y
				case token.GTR:
					r = x > y
				case token.GEQ:
					r = x >= y
				}
			}
			return boolVal(r)
		}
		if _, ok := a.R.(*Obj); ok { // uintptr holding a pointer
			switch in.tok {
			case token.EQL:
				return boolVal(a == b)
			case token.NEQ:
				return boolVal(a != b)
			}
			panic(unsup("pointer compare"))
		}
		x, y := m.term(a, in.w), m.term(b, in.w)
		lt, le := OpUlt, OpUle
		if in.signed {
			lt, le = OpSlt, OpSle
		}
		switch in.tok {
		case token.EQL:
			return fromTerm(m.tt.Eq(x, y))
		case token.NEQ:
			return fromTerm(m.tt.Not(m.tt.Eq(x, y)))
		case token.LSS:
			return fromTerm(m.tt.Cmp(lt, x, y))
		case token.LEQ:
			return fromTerm(m.tt.Cmp(le, x, y))
		case token.GTR:
			return fromTerm(m.tt.Cmp(lt, y, x))
		case token.GEQ:
			return fromTerm(m.tt.Cmp(le, y, x))
		}
	case 'f':
		x, y := m.term(a, fpSort), m.term(b, fpSort)
		switch in.tok {
		case token.EQL:
			return fromTerm(m.tt.FCmp(OpFEq, x, y))
		case token.NEQ:
			return fromTerm(m.tt.Not(m.tt.FCmp(OpFEq, x, y)))
		case token.LSS:
			return fromTerm(m.tt.FCmp(OpFLt, x, y))
		case token.LEQ:
			return fromTerm(m.tt.FCmp(OpFLe, x, y))
		case token.GTR:
			return fromTerm(m.tt.FCmp(OpFLt, y, x))
		case token.GEQ:
			return fromTerm(m.tt.FCmp(OpFLe, y, x))
		}
	case 'g':
		x, y := math.Float32frombits(uint32(a.N)), math.Float32frombits(uint32(b.N))
		switch in.tok {
		case token.EQL:
			return boolVal(x == y)
		case token.NEQ:
			return boolVal(x != y)
		case token.LSS:
			return boolVal(x < y)
		case token.LEQ:
			return boolVal(x <= y)
		case token.GTR:
			return boolVal(x > y)
		case token.GEQ:
			return boolVal(x >= y)
		}
	case 's':
		switch in.tok {
		case token.EQL:
			return fromTerm(m.strEq(a, b))
		case token.NEQ:
			return fromTerm(m.tt.Not(m.strEq(a, b)))
		case token.LSS:
			return fromTerm(m.strLess(a, b))
		case token.GTR:
			return fromTerm(m.strLess(b, a))
		case token.LEQ:
			return fromTerm(m.tt.Not(m.strLess(b, a)))
		case token.GEQ:
			return fromTerm(m.tt.Not(m.strLess(a, b)))
		}
	}
	// Everything else only has equality.
	t := in.typ
	if in.n == 1 { // interface on the left
		b = Val{R: &Iface{in.rt, b}}
	} else if in.n == 2 {
		a = Val{R: &Iface{in.rt, a}}
	}
	c := m.eqTerm(a, b, t)
	if in.tok == token.NEQ {
		c = m.tt.Not(c)
	}
	return fromTerm(c)
}

func (m *Machine) strLess(a, b Val) *Term {
	a, b = m.asStr(a), m.asStr(b)
	if x, ok := strConc(a); ok {
		if y, ok := strConc(b); ok {
			return m.tt.Bool(x < y)
		}
	}
	la, lb := strLen(a), strLen(b)
	n := la
	if lb < n {
		n = lb
	}
	r := m.tt.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x := m.term(a.R.(*Obj).byteAt(strOff(a)+i), 8)
		y := m.term(b.R.(*Obj).byteAt(strOff(b)+i), 8)
		r = m.tt.Ite(m.tt.Eq(x, y), r, m.tt.Cmp(OpUlt, x, y))
	}
	return r
}

func (m *Machine) concat(a, b Val) Val {
	a, b = m.asStr(a), m.asStr(b)
	la, lb := strLen(a), strLen(b)
	if la == 0 {
		return b
	}
	if lb == 0 {
		return a
	}
	o := &Obj{isB: true, epoch: m.epoch, bytes: make([]byte, la+lb)}
	cpy := func(v Val, at, n int) {
		x := v.R.(*Obj)
		off := strOff(v)
		copy(o.bytes[at:], x.bytes[off:off+n])
		if x.sym != nil {
			for i, t := range x.sym[off : off+n] {
				if t != nil {
					o.setByte(at+i, Val{R: t})
				}
			}
		}
	}
	cpy(a, 0, la)
	cpy(b, la, lb)
	return mkStr(o, 0, la+lb)
}

func (m *Machine) convert(v Val, from, to types.Type) Val {
	fw, fs, fk := basicInfo(from)
	tw, _, tk := basicInfo(to)
	switch {
	case fk == 'i' && tk == 'i':
		if t, ok := v.R.(*Term); ok {
			return fromTerm(m.tt.Resize(t, tw, fs))
		}
		if v.R != nil {
			return v // uintptr holding a pointer
		}
		if fs {
			return Val{N: uint64(sx(v.N, fw)) & mask(tw)}
		}
		return Val{N: v.N & mask(tw)}
	case fk == 'i' && tk == 'f':
		if t, ok := v.R.(*Term); ok {
			// Deciding floating point arithmetic is slow: split over the values
			// (each is a path of its own, found by the solver).
			v = Val{N: m.concretize(t)}
		}
		if fs {
			return Val{N: math.Float64bits(float64(sx(v.N, fw)))}
		}
		return Val{N: math.Float64bits(float64(v.N))}
	case fk == 'f' && tk == 'i':
		_, ts, _ := basicInfo(to)
		if t, ok := v.R.(*Term); ok {
			if ts {
				return fromTerm(m.tt.Resize(m.tt.mk(OpFToS, 64, 0, "", t), tw, true))
			}
			return fromTerm(m.tt.Resize(m.tt.mk(OpFToU, 64, 0, "", t), tw, false))
		}
		f := math.Float64frombits(v.N)
		if ts {
			return Val{N: uint64(goF2I(f)) & mask(tw)}
		}
		return Val{N: uint64(f) & mask(tw)}
	case fk == 'f' && tk == 'f', fk == 'g' && tk == 'g', fk == 's' && tk == 's', fk == 'b' && tk == 'b':
		return v
	case fk == 'f' && tk == 'g':
		if v.R != nil {
			panic(unsup("symbolic float32"))
		}
		return Val{N: uint64(math.Float32bits(float32(math.Float64frombits(v.N))))}
	case fk == 'g' && tk == 'f':
		return Val{N: math.Float64bits(float64(math.Float32frombits(uint32(v.N))))}
	case fk == 'i' && tk == 'g':
		if v.R != nil {
			panic(unsup("symbolic float32"))
		}
		if fs {
			return Val{N: uint64(math.Float32bits(float32(sx(v.N, fw))))}
		}
		return Val{N: uint64(math.Float32bits(float32(v.N)))}
	case fk == 'g' && tk == 'i':
		return Val{N: uint64(int64(math.Float32frombits(uint32(v.N)))) & mask(tw)}
	case fk == 'i' && tk == 's':
		r := rune(m.concInt(v))
		if fs && sx(uint64(r), 32) < 0 {
			r = 0xfffd
		}
		return m.str(string(r))
	case tk == 'p' || fk == 'p':
		return v
	}
	// string <-> slices
	if tk == 's' {
		if s, ok := from.Underlying().(*types.Slice); ok {
			if isByte(s.Elem()) {
				if o, ok := v.R.(*Obj); ok {
					_ = o
					return v
				}
				if m.raceOn {
					if sl, ok := v.R.(*Slice); ok {
						m.raceRead(sl.obj, sl.off, sl.len)
					}
				}
				return m.bytesToStr(v)
			}
			sl, ok := v.R.(*Slice)
			if !ok {
				return Val{}
			}
			var rs []rune
			for i := 0; i < sl.len; i++ {
				c := sl.obj.cells[sl.off+i]
				rs = append(rs, rune(sx(uint64(m.concInt(c)), 32)))
			}
			return m.str(string(rs))
		}
	}
	if fk == 's' {
		if s, ok := to.Underlying().(*types.Slice); ok {
			if isByte(s.Elem()) {
				r := m.strToBytes(v)
				return r
			}
			str := m.asStr(v)
			var cells []Val
			for p := 0; p < strLen(str); {
				r, n := m.decodeRune(str, p)
				cells = append(cells, Val{N: uint64(uint32(r))})
				if r == -1 {
					panic(unsup("symbolic []rune"))
				}
				p += n
			}
			if cells == nil {
				return Val{R: &Slice{m.newCells(0), 0, 0, 0}}
			}
			return Val{R: &Slice{&Obj{cells: cells, epoch: m.epoch}, 0, len(cells), len(cells)}}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(unsup("convert " + from.String() + " -> " + to.String()))
}

// decodeRune decodes the rune at p; symbolic ASCII bytes are returned through decodeRuneVal.
func (m *Machine) decodeRune(s Val, p int) (rune, int) {
	v, n := m.decodeRuneVal(s, p)
	if t, ok := v.R.(*Term); ok {
		return rune(sx(m.concretize(t), 32)), n
	}
	return rune(sx(v.N, 32)), n
}

func (m *Machine) decodeRuneVal(s Val, p int) (Val, int) {
	o := s.R.(*Obj)
	off := strOff(s)
	n := strLen(s)
	b0 := o.byteAt(off + p)
	if t, ok := b0.R.(*Term); ok {
		if m.branch(m.tt.Cmp(OpUlt, t, m.tt.Const(8, 0x80))) {
			return Val{R: m.tt.Resize(t, 32, false)}, 1
		}
	} else if b0.N < 0x80 {
		return Val{N: b0.N}, 1
	}
	// Multi-byte: decode symbolically.
	at := func(i int) (*Term, bool) {
		if p+i >= n {
			return nil, false
		}
		return m.term(o.byteAt(off+p+i), 8), true
	}
	bad := Val{N: 0xfffd}
	in := func(t *Term, lo, hi uint64) bool {
		return m.branch(m.tt.And(m.tt.Cmp(OpUle, m.tt.Const(8, lo), t), m.tt.Cmp(OpUle, t, m.tt.Const(8, hi))))
	}
	x0, _ := at(0)
	part := func(t *Term, msk uint64, sh uint64) *Term {
		return m.tt.Bin(OpShl, m.tt.Resize(m.tt.Bin(OpAnd, t, m.tt.Const(8, msk)), 32, false), m.tt.Const(32, sh))
	}
	or := func(ts ...*Term) Val {
		r := ts[0]
		for _, t := range ts[1:] {
			r = m.tt.Bin(OpOr, r, t)
		}
		return fromTerm(r)
	}
	switch {
	case in(x0, 0xc2, 0xdf):
		x1, ok := at(1)
		if !ok || !in(x1, 0x80, 0xbf) {
			return bad, 1
		}
		return or(part(x0, 0x1f, 6), part(x1, 0x3f, 0)), 2
	case in(x0, 0xe0, 0xef):
		x1, ok := at(1)
		if !ok {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xbf)
		if m.branch(m.tt.Eq(x0, m.tt.Const(8, 0xe0))) {
			lo = 0xa0
		} else if m.branch(m.tt.Eq(x0, m.tt.Const(8, 0xed))) {
			hi = 0x9f
		}
		if !in(x1, lo, hi) {
			return bad, 1
		}
		x2, ok := at(2)
		if !ok || !in(x2, 0x80, 0xbf) {
			return bad, 1
		}
		return or(part(x0, 0x0f, 12), part(x1, 0x3f, 6), part(x2, 0x3f, 0)), 3
	case in(x0, 0xf0, 0xf4):
		x1, ok := at(1)
		if !ok {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xbf)
		if m.branch(m.tt.Eq(x0, m.tt.Const(8, 0xf0))) {
			lo = 0x90
		} else if m.branch(m.tt.Eq(x0, m.tt.Const(8, 0xf4))) {
			hi = 0x8f
		}
		if !in(x1, lo, hi) {
			return bad, 1
		}
		x2, ok := at(2)
		if !ok || !in(x2, 0x80, 0xbf) {
			return bad, 1
		}
		x3, ok := at(3)
		if !ok || !in(x3, 0x80, 0xbf) {
			return bad, 1
		}
		return or(part(x0, 0x07, 18), part(x1, 0x3f, 12), part(x2, 0x3f, 6), part(x3, 0x3f, 0)), 4
	}
	return bad, 1
}

func (m *Machine) next(in *Ins) {
	it := m.val(&in.a).R.(*MapIter)
	if it.isS {
		n := strLen(it.str)
		if it.pos >= n {
			m.set(in.dst, Val{R: Tuple{Val{}, Val{}, Val{}}})
			m.top.pc++
			return
		}
		r, w := m.decodeRuneVal(it.str, it.pos)
		m.touchIter(it)
		p := it.pos
		it.pos += w
		m.set(in.dst, Val{R: Tuple{Val{N: 1}, Val{N: uint64(p)}, r}})
		m.top.pc++
		return
	}
	mo := it.m
	done := Val{R: Tuple{Val{}, Val{}, Val{}}}
	if mo == nil {
		m.set(in.dst, done)
		m.top.pc++
		return
	}
	if m.misc.mapOrder && !m.top.fn.isRT {
		// Any live, not yet visited entry may come next.
		var cand []int
		for i := range mo.keys {
			if mo.live[i] && (i >= len(it.done) || !it.done[i]) {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			m.set(in.dst, done)
			m.top.pc++
			return
		}
		k := cand[0]
		if len(cand) > 1 && m.misc.mapDev != 0 {
			c := m.choose(len(cand))
			k = cand[c]
			if c > 0 && m.misc.mapDev > 0 {
				m.misc.mapDev--
			}
		}
		m.touchIter(it)
		for len(it.done) <= k {
			it.done = append(it.done, false)
		}
		it.done[k] = true
		m.set(in.dst, Val{R: Tuple{Val{N: 1}, mo.keys[k], mo.vals[k]}})
		m.top.pc++
		return
	}
	m.touchIter(it)
	for it.pos < len(mo.keys) && !mo.live[it.pos] {
		it.pos++
	}
	if it.pos >= len(mo.keys) {
		m.set(in.dst, done)
		m.top.pc++
		return
	}
	i := it.pos
	it.pos++
	m.set(in.dst, Val{R: Tuple{Val{N: 1}, mo.keys[i], mo.vals[i]}})
	m.top.pc++
}

func (m *Machine) typeAssert(in *Ins) {
	v := m.val(&in.a)
	var ok bool
	var res Val
	i, has := v.R.(*Iface)
	if has {
		if in.agg {
			it := in.typ.Underlying().(*types.Interface)
			ok = m.L.implements(i.t, it, in.rt)
			res = v
		} else {
			ok = i.t == in.rt
			res = i.v
		}
	}
	if !ok {
		if !in.commaOK {
			d := "nil"
			if has {
				d = i.t.t.String()
			}
			panic(goPanic{m.runtimeErr("interface conversion: interface is " + d + ", not " + in.typ.String())})
		}
		if in.agg {
			res = Val{}
		} else {
			res = m.zero(in.typ)
		}
	}
	if in.commaOK {
		res = Val{R: Tuple{res, boolVal(ok)}}
	}
	m.set(in.dst, res)
	m.top.pc++
}

// resolve finds the target of an invoke-mode call.
func (m *Machine) resolve(in *Ins) (*Func, Val) {
	v := m.val(&in.a)
	i, ok := v.R.(*Iface)
	if !ok {
		m.nilPtr(Val{})
	}
	return m.L.method(i.t, in.meth), i.v
}

func (m *Machine) call(in *Ins) {
	var fn *Func
	var binds []Val
	var abuf [8]Val
	args := abuf[:0]
	switch in.kind {
	case 'b':
		v := m.builtin(in)
		if m.endPath {
			return
		}
		if in.dst >= 0 {
			m.set(in.dst, v)
		}
		m.fr().pc++
		return
	case 'f':
		fn = in.fn
	case 'm':
		f, recv := m.resolve(in)
		fn = f
		args = append(args, recv)
	default:
		c, ok := m.val(&in.a).R.(*Closure)
		if !ok {
			m.nilPtr(Val{})
		}
		fn, binds = c.fn, c.binds
	}
	for i := range in.args {
		args = append(args, m.val(&in.args[i]))
	}
	if fn.nat != nil {
		if fn.syn { // synchronising intrinsic
			if m.syncPoint() {
				return
			}
		}
		v := fn.nat(m, in, args)
		if m.endPath || m.phase == 2 {
			return
		}
		if in.dst >= 0 {
			m.set(in.dst, v)
		}
		m.fr().pc++
		if fn.syn {
			m.passed()
		}
		return
	}
	if m.initing && fn.ssa.Synthetic == "package initializer" {
		m.fr().pc++
		return
	}
	if len(m.g.stack) > 2500 {
		if len(m.g.stack) > m.lim.maxDepth {
			m.failNow("crash", "stack overflow (unbounded recursion)")
			return
		}
	}
	fr := m.mkFrame(fn, args, binds)
	fr.dst = in.dst
	m.g.stack = append(m.g.stack, fr)
	m.top = fr
}
