package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"strings"
)

func (m *Machine) concStr(v Val) string {
	s, ok := strConc(m.asStr(v))
	if !ok {
		panic(unsup("symbolic string where a concrete one is needed: " + strDbg(v)))
	}
	return s
}

// sliceGrow has the capacities that the runtime has: spare capacity is memory that slices share.
func (m *Machine) sliceGrow(s *Slice, es, eb int, isB bool, need int) *Slice {
	var o *Obj
	c := 0
	if s != nil {
		c = s.cap
	}
	nc := c * 2
	switch {
	case nc < need:
		nc = need
	case c >= 256:
		for nc = c; nc < need; {
			nc += (nc + 3*256) >> 2
		}
	}
	if eb > 0 {
		nc = roundupSize(nc*eb) / eb
	}
	if isB {
		o = &Obj{bytes: make([]byte, nc), isB: true, epoch: m.epoch}
	} else {
		o = &Obj{cells: make([]Val, nc*es), epoch: m.epoch}
	}
	r := &Slice{o, 0, 0, nc}
	if s != nil {
		r.len = s.len
		m.copyCells(o, 0, s.obj, s.off, s.len*es)
	}
	return r
}

// copyCells copies n cells between objects of any kind (overlap-safe).
func (m *Machine) copyCells(d *Obj, do int, s *Obj, so, n int) {
	if n == 0 {
		return
	}
	if d.isB && s.isB {
		if s.sym != nil || d.sym != nil {
			if s.sym == nil {
				for i := 0; i < n; i++ {
					d.sym[do+i] = nil
				}
			} else {
				if d.sym == nil {
					d.sym = make([]*Term, len(d.bytes))
				}
				copy(d.sym[do:do+n], s.sym[so:so+n])
			}
		}
		copy(d.bytes[do:do+n], s.bytes[so:so+n])
		return
	}
	if !d.isB && !s.isB {
		copy(d.cells[do:do+n], s.cells[so:so+n])
		return
	}
	tmp := make([]Val, n)
	for i := range tmp {
		tmp[i] = s.get(so + i)
	}
	for i, v := range tmp {
		if d.isB {
			d.setByte(do+i, v)
		} else {
			d.cells[do+i] = v
		}
	}
}

func (m *Machine) builtinDefer(d deferRec) {
	in := *d.bi
	in.args = nil
	for _, a := range d.args {
		in.args = append(in.args, opd{k: 'c', v: a})
	}
	m.builtin(&in)
	m.afterDefer()
}

func (m *Machine) builtin(in *Ins) Val {
	arg := func(i int) Val { return m.val(&in.args[i]) }
	switch in.bi.Name() {
	case "len":
		v := arg(0)
		switch u := in.typ.Underlying().(type) {
		case *types.Basic:
			return Val{N: uint64(strLen(m.asStr(v)))}
		case *types.Map:
			if mo, ok := v.R.(*MapObj); ok {
				if m.raceOn {
					m.raceMap(mo, false)
				}
				return intVal(mo.n)
			}
			return Val{}
		case *types.Chan:
			if c, ok := v.R.(*Chan); ok {
				return intVal(len(c.buf))
			}
			return Val{}
		case *types.Array:
			return intVal(int(u.Len()))
		case *types.Pointer:
			return intVal(int(u.Elem().Underlying().(*types.Array).Len()))
		}
		switch s := v.R.(type) {
		case *Slice:
			return intVal(s.len)
		case *Obj:
			return intVal(strLen(v))
		}
		return Val{}
	case "Sizeof":
		return Val{N: uint64(types.SizesFor("gc", "amd64").Sizeof(in.typ))}
	case "cap":
		v := arg(0)
		switch u := in.typ.Underlying().(type) {
		case *types.Chan:
			if c, ok := v.R.(*Chan); ok {
				return intVal(c.cap)
			}
			return Val{}
		case *types.Array:
			return intVal(int(u.Len()))
		case *types.Pointer:
			return intVal(int(u.Elem().Underlying().(*types.Array).Len()))
		}
		if s, ok := v.R.(*Slice); ok {
			return intVal(s.cap)
		}
		return Val{}
	case "append":
		return m.appendB(in, arg(0), arg(1))
	case "copy":
		dv, sv := arg(0), arg(1)
		d, ok := dv.R.(*Slice)
		if !ok {
			return Val{}
		}
		so, soff, sn := m.srcOf(sv)
		n := d.len
		if sn < n {
			n = sn
		}
		if n == 0 {
			return Val{}
		}
		es := in.es
		if m.raceOn {
			m.raceRead(so, soff, n*es)
			m.raceWrite(d.obj, d.off, n*es)
		}
		m.touch(d.obj)
		m.copyCells(d.obj, d.off, so, soff, n*es)
		return intVal(n)
	case "delete":
		if mo, ok := arg(0).R.(*MapObj); ok {
			if m.raceOn {
				m.raceMap(mo, true)
			}
			m.mapDelete(mo, arg(1), in.typ.Underlying().(*types.Map).Key())
		}
		return Val{}
	case "clear":
		v := arg(0)
		switch x := v.R.(type) {
		case *MapObj:
			m.touchMap(x)
			x.keys, x.vals, x.live, x.index, x.nsym, x.n = nil, nil, nil, map[string]int{}, 0, 0
		case *Slice:
			m.touch(x.obj)
			for i := 0; i < x.len*in.es; i++ {
				if x.obj.isB {
					x.obj.setByte(x.off+i, Val{})
				} else {
					x.obj.cells[x.off+i] = Val{}
				}
			}
		}
		return Val{}
	case "print", "println":
		if m.trace {
			for i := range in.args {
				v := arg(i)
				if _, ok := v.R.(*Obj); ok {
					fmt.Print(strDbg(v), " ")
				} else {
					fmt.Print(v.N, " ")
				}
			}
			fmt.Println()
		}
		return Val{}
	case "recover":
		g := m.g
		if len(g.panics) == 0 || !m.top.isDefer {
			return Val{}
		}
		p := g.panics[len(g.panics)-1]
		if p.recovered || p.depth != len(g.stack)-2 {
			return Val{}
		}
		np := *p
		np.recovered = true
		g.panics[len(g.panics)-1] = &np
		return p.val
	case "close":
		m.closeChan(arg(0))
		return Val{}
	case "min", "max":
		r := arg(0)
		w, signed, k := basicInfo(in.typ)
		for i := 1; i < len(in.args); i++ {
			b := arg(i)
			if k != 'i' {
				if k == 's' {
					l := m.branch(m.strLess(b, r))
					if l == (in.bi.Name() == "min") {
						r = b
					}
					continue
				}
				if r.R != nil || b.R != nil {
					panic(unsup("min/max of floats"))
				}
				x, y := math.Float64frombits(r.N), math.Float64frombits(b.N)
				if in.bi.Name() == "min" {
					x = min(x, y)
				} else {
					x = max(x, y)
				}
				r = Val{N: math.Float64bits(x)}
				continue
			}
			op := OpUlt
			if signed {
				op = OpSlt
			}
			c := m.tt.Cmp(op, m.term(b, w), m.term(r, w))
			if in.bi.Name() == "max" {
				c = m.tt.Cmp(op, m.term(r, w), m.term(b, w))
			}
			r = fromTerm(m.tt.Ite(c, m.term(b, w), m.term(r, w)))
		}
		return r
	case "ssa:wrapnilchk":
		v := arg(0)
		if v.R == nil {
			m.nilPtr(Val{})
		}
		return v
	case "String":
		p := arg(0)
		n := m.concInt(arg(1))
		if n == 0 {
			return Val{}
		}
		o, ok := p.R.(*Obj)
		if !ok {
			m.nilPtr(p)
		}
		if !o.isB {
			return m.asStr(Val{R: &Slice{o, int(p.N), n, n}})
		}
		return mkStr(o, int(p.N), n)
	case "StringData":
		v := m.asStr(arg(0))
		if v.R == nil {
			return Val{}
		}
		return Val{R: v.R, N: uint64(strOff(v))}
	case "SliceData":
		if s, ok := arg(0).R.(*Slice); ok {
			return Val{R: s.obj, N: uint64(s.off)}
		}
		return Val{}
	case "Slice":
		p := arg(0)
		n := m.concInt(arg(1))
		if p.R == nil {
			return Val{}
		}
		return Val{R: &Slice{p.R.(*Obj), int(p.N), n, n}}
	}
	panic(unsup("builtin " + in.bi.Name() + " at " + m.L.pos(in.pos)))
}

func (m *Machine) srcOf(v Val) (*Obj, int, int) {
	switch s := v.R.(type) {
	case *Slice:
		return s.obj, s.off, s.len
	case *Obj:
		return s, strOff(v), strLen(v)
	}
	return nil, 0, 0
}

func (m *Machine) appendB(in *Ins, dv, sv Val) Val {
	so, soff, sn := m.srcOf(sv)
	if sn == 0 {
		return dv
	}
	es := in.es
	d, _ := dv.R.(*Slice)
	n := 0
	if d != nil {
		n = d.len
	}
	if m.raceOn && so != nil {
		m.raceRead(so, soff, sn*es)
	}
	if d == nil || n+sn > d.cap {
		if m.raceOn && d != nil {
			m.raceRead(d.obj, d.off, n*es)
		}
		g := m.sliceGrow(d, es, in.eb, in.agg, n+sn)
		m.copyCells(g.obj, n*es, so, soff, sn*es)
		g.len = n + sn
		return Val{R: g}
	}
	if m.raceOn {
		m.raceWrite(d.obj, d.off+n*es, sn*es)
	}
	m.touch(d.obj)
	m.copyCells(d.obj, d.off+n*es, so, soff, sn*es)
	return Val{R: &Slice{d.obj, d.off, n + sn, d.cap}}
}

// cell helpers for synchronisation primitives.
func (m *Machine) cell(p Val, i int) Val { return p.R.(*Obj).get(int(p.N) + i) }
func (m *Machine) setCell(p Val, i int, v Val) {
	o, ok := p.R.(*Obj)
	if !ok {
		m.nilPtr(p)
	}
	m.touch(o)
	if o.isB {
		o.setByte(int(p.N)+i, v)
		return
	}
	o.cells[int(p.N)+i] = v
}

func key(p Val) cellKey {
	o, _ := p.R.(*Obj)
	return cellKey{o, p.N}
}

func (m *Machine) needPtr(p Val) {
	if p.R == nil {
		m.nilPtr(p)
	}
}

var syncNames = map[string]bool{}

func intrinsics() map[string]intrinsic {
	t := map[string]intrinsic{}
	syn := func(name string, f intrinsic) { t[name] = f; syncNames[name] = true }

	// ---- locks ----
	lock := func(m *Machine, in *Ins, a []Val) Val {
		m.needPtr(a[0])
		if m.cell(a[0], 0).N != 0 {
			panic(blockSig{key(a[0]), "mutex lock"})
		}
		m.setCell(a[0], 0, Val{N: 1})
		m.hbSync(key(a[0]), true, false)
		return Val{}
	}
	unlock := func(m *Machine, in *Ins, a []Val) Val {
		m.needPtr(a[0])
		if m.cell(a[0], 0).N == 0 {
			m.failNow("crash", "fatal error: sync: unlock of unlocked mutex")
			return Val{}
		}
		m.hbSync(key(a[0]), false, true)
		m.setCell(a[0], 0, Val{})
		m.wake(key(a[0]))
		return Val{}
	}
	syn("(*sync.Mutex).Lock", lock)
	syn("(*sync.Mutex).Unlock", unlock)
	syn("(*sync.Mutex).TryLock", func(m *Machine, in *Ins, a []Val) Val {
		if m.cell(a[0], 0).N != 0 {
			return Val{}
		}
		lock(m, in, a)
		return Val{N: 1}
	})
	syn("(*sync.RWMutex).Lock", func(m *Machine, in *Ins, a []Val) Val {
		if m.cell(a[0], 0).N != 0 || m.cell(a[0], 1).N != 0 {
			panic(blockSig{key(a[0]), "rwmutex lock"})
		}
		m.setCell(a[0], 0, Val{N: 1})
		m.hbSync(key(a[0]), true, false)
		return Val{}
	})
	syn("(*sync.RWMutex).Unlock", unlock)
	syn("(*sync.RWMutex).RLock", func(m *Machine, in *Ins, a []Val) Val {
		if m.cell(a[0], 0).N != 0 {
			panic(blockSig{key(a[0]), "rwmutex rlock"})
		}
		m.setCell(a[0], 1, Val{N: m.cell(a[0], 1).N + 1})
		m.hbSync(key(a[0]), true, false)
		return Val{}
	})
	syn("(*sync.RWMutex).RUnlock", func(m *Machine, in *Ins, a []Val) Val {
		n := m.cell(a[0], 1).N
		if n == 0 {
			m.failNow("crash", "fatal error: sync: RUnlock of unlocked RWMutex")
			return Val{}
		}
		m.hbSync(key(a[0]), false, true)
		m.setCell(a[0], 1, Val{N: n - 1})
		m.wake(key(a[0]))
		return Val{}
	})
	wgAdd := func(m *Machine, p Val, d int64) {
		n := int64(m.cell(p, 0).N) + d
		if n < 0 {
			panic(goPanic{m.runtimeErr("sync: negative WaitGroup counter")})
		}
		if d < 0 {
			m.hbSync(key(p), false, true)
		}
		m.setCell(p, 0, Val{N: uint64(n)})
		if n == 0 {
			m.wake(key(p))
		}
	}
	syn("(*sync.WaitGroup).Add", func(m *Machine, in *Ins, a []Val) Val {
		wgAdd(m, a[0], int64(m.concInt(a[1])))
		return Val{}
	})
	syn("(*sync.WaitGroup).Done", func(m *Machine, in *Ins, a []Val) Val {
		wgAdd(m, a[0], -1)
		return Val{}
	})
	syn("(*sync.WaitGroup).Wait", func(m *Machine, in *Ins, a []Val) Val {
		if m.cell(a[0], 0).N != 0 {
			panic(blockSig{key(a[0]), "waitgroup wait"})
		}
		m.hbSync(key(a[0]), true, false)
		return Val{}
	})

	// ---- atomics ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		load := func(m *Machine, in *Ins, a []Val) Val {
			m.needPtr(a[0])
			m.hbSync(key(a[0]), true, false)
			return m.cell(a[0], 0)
		}
		store := func(m *Machine, in *Ins, a []Val) Val {
			m.needPtr(a[0])
			m.hbSync(key(a[0]), true, true)
			m.setCell(a[0], 0, a[1])
			return Val{}
		}
		add := func(m *Machine, in *Ins, a []Val) Val {
			m.needPtr(a[0])
			m.hbSync(key(a[0]), true, true)
			o := m.cell(a[0], 0)
			var v Val
			if o.R == nil && a[1].R == nil {
				v = Val{N: (o.N + a[1].N) & mask(w)}
			} else {
				v = fromTerm(m.tt.Bin(OpAdd, m.term(o, w), m.term(a[1], w)))
			}
			m.setCell(a[0], 0, v)
			return v
		}
		cas := func(m *Machine, in *Ins, a []Val) Val {
			m.needPtr(a[0])
			o := m.cell(a[0], 0)
			var eq bool
			if o.R == nil && a[1].R == nil {
				eq = o.N == a[1].N
			} else if ty == "Pointer" {
				eq = o == a[1]
			} else {
				eq = m.branch(m.tt.Eq(m.term(o, w), m.term(a[1], w)))
			}
			m.hbSync(key(a[0]), true, true)
			if eq {
				m.setCell(a[0], 0, a[2])
			}
			return boolVal(eq)
		}
		swap := func(m *Machine, in *Ins, a []Val) Val {
			m.needPtr(a[0])
			m.hbSync(key(a[0]), true, true)
			o := m.cell(a[0], 0)
			m.setCell(a[0], 0, a[1])
			return o
		}
		syn("sync/atomic.Load"+ty, load)
		syn("sync/atomic.Store"+ty, store)
		syn("sync/atomic.Add"+ty, add)
		syn("sync/atomic.CompareAndSwap"+ty, cas)
		syn("sync/atomic.Swap"+ty, swap)
	}

	// ---- rt and sym natives ----
	rt := "github.com/vearutop/flatjsonl/verifrt."
	sy := "github.com/vearutop/flatjsonl/verifsym."
	syn(rt+"syncPoint", func(m *Machine, in *Ins, a []Val) Val {
		// A model operation on a synchronising object; a[0] is a pointer wrapped in an interface or a pointer.
		v := a[0]
		if i, ok := v.R.(*Iface); ok {
			v = i.v
		}
		m.hbSync(key(v), true, true)
		return Val{}
	})
	touch := func(m *Machine, v Val, write bool) {
		if !m.raceOn {
			return
		}
		if i, ok := v.R.(*Iface); ok {
			v = i.v
		}
		switch x := v.R.(type) {
		case *Slice:
			if x.obj != nil {
				m.raceObj(x.obj, x.off, x.len, write)
			}
		case *Obj:
			m.raceObj(x, int(v.N), 1, write)
		}
	}
	t[rt+"touchR"] = func(m *Machine, in *Ins, a []Val) Val { touch(m, a[0], false); return Val{} }
	t[rt+"touchW"] = func(m *Machine, in *Ins, a []Val) Val { touch(m, a[0], true); return Val{} }
	t[rt+"isConc"] = func(m *Machine, in *Ins, a []Val) Val {
		_, ok := strConc(m.asStr(a[0]))
		return boolVal(ok)
	}
	t[rt+"isConcInt"] = func(m *Machine, in *Ins, a []Val) Val { return boolVal(a[0].R == nil) }
	t[rt+"unsupported"] = func(m *Machine, in *Ins, a []Val) Val { panic(unsup(strDbg(a[0]))) }
	t[rt+"exit"] = func(m *Machine, in *Ins, a []Val) Val {
		if m.misc.exitOK {
			m.finish("done")
			return Val{}
		}
		m.failNow("exit", "the process exits: "+strDbg(m.asStr(a[0])))
		return Val{}
	}
	t[rt+"poolPick"] = func(m *Machine, in *Ins, a []Val) Val {
		n := int(a[0].N)
		if m.misc.mapOrder && n > 1 && m.misc.mapDev != 0 {
			c := m.choose(n)
			if c > 0 && m.misc.mapDev > 0 {
				m.misc.mapDev--
			}
			return intVal(n - 1 - c)
		}
		return intVal(n - 1)
	}
	t["maps.clone"] = func(m *Machine, in *Ins, a []Val) Val {
		i := a[0].R.(*Iface)
		mo, ok := i.v.R.(*MapObj)
		if !ok {
			return a[0]
		}
		if m.raceOn {
			m.raceMap(mo, false)
		}
		n := m.newMap()
		n.keys = append([]Val(nil), mo.keys...)
		n.vals = append([]Val(nil), mo.vals...)
		n.live = append([]bool(nil), mo.live...)
		for k, v := range mo.index {
			n.index[k] = v
		}
		n.nsym, n.n, n.vsz = mo.nsym, mo.n, mo.vsz
		return Val{R: &Iface{i.t, Val{R: n}}}
	}
	// natFmt formats a concrete value.
	t[rt+"natFmt"] = func(m *Machine, in *Ins, a []Val) Val {
		no := Val{R: Tuple{m.str(""), Val{}}}
		spec, ok := strConc(m.asStr(a[0]))
		if !ok {
			return no
		}
		var v any
		if a[1].N == 's' {
			x, ok := strConc(m.asStr(a[2]))
			if !ok {
				return no
			}
			v = x
		} else {
			if a[3].R != nil {
				return no
			}
			switch n := a[3].N; a[1].N {
			case 'i':
				v = int64(n)
			case 'u':
				v = n
			case 'b':
				v = n != 0
			case 'f':
				v = math.Float64frombits(n)
			default:
				return no
			}
		}
		return Val{R: Tuple{m.str(fmt.Sprintf(spec, v)), Val{N: 1}}}
	}
	// storeAs stores err in *target when its type allows it.
	t[rt+"storeAs"] = func(m *Machine, in *Ins, a []Val) Val {
		e := a[0].R.(*Iface)
		i, ok := a[1].R.(*Iface)
		if !ok {
			panic(goPanic{m.runtimeErr("errors: target cannot be nil")})
		}
		pt, ok := i.t.t.Underlying().(*types.Pointer)
		o, ok2 := i.v.R.(*Obj)
		if !ok || !ok2 {
			panic(goPanic{m.runtimeErr("errors: target must be a non-nil pointer")})
		}
		rt := m.L.rtype(pt.Elem())
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if !m.L.implements(e.t, it, rt) {
				return Val{}
			}
			m.store(o, int(i.v.N), a[0], false, 1)
			return Val{N: 1}
		}
		if rt != e.t {
			return Val{}
		}
		m.store(o, int(i.v.N), e.v, rt.agg, rt.size)
		return Val{N: 1}
	}
	t[rt+"fromBits"] = func(m *Machine, in *Ins, a []Val) Val { return a[0] }
	t[rt+"pointedKind"] = func(m *Machine, in *Ins, a []Val) Val {
		k := "?"
		if i, ok := a[0].R.(*Iface); ok {
			if pt, ok := i.t.t.Underlying().(*types.Pointer); ok && i.v.R != nil {
				str := func(t types.Type) bool {
					b, ok := t.Underlying().(*types.Basic)
					return ok && b.Info()&types.IsString != 0
				}
				switch u := pt.Elem().Underlying().(type) {
				case *types.Basic:
					if str(u) {
						k = "s"
					}
				case *types.Pointer:
					if str(u.Elem()) {
						k = "p"
					}
				case *types.Slice:
					if str(u.Elem()) {
						k = "l"
					}
				case *types.Map:
					if str(u.Key()) && str(u.Elem()) {
						k = "m"
					}
				case *types.Struct:
					k = "S"
				}
			}
		}
		return m.str(k)
	}
	t[rt+"structFields"] = func(m *Machine, in *Ins, a []Val) Val {
		i := a[0].R.(*Iface)
		u := i.t.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		tag := m.concStr(a[1])
		var names, ptrs []Val
		off := 0
		for k := 0; k < u.NumFields(); k++ {
			f := u.Field(k)
			o := off
			off += m.L.sizeOf(f.Type())
			if !f.Exported() {
				continue
			}
			name := f.Name()
			if tag == "yaml" {
				name = strings.ToLower(name)
			}
			if p := strings.Split(reflect.StructTag(u.Tag(k)).Get(tag), ","); p[0] == "-" {
				continue
			} else if p[0] != "" {
				name = p[0]
			}
			names = append(names, m.str(name))
			ptrs = append(ptrs, Val{R: &Iface{m.L.rtype(types.NewPointer(f.Type())), Val{R: i.v.R, N: i.v.N + uint64(o)}}})
		}
		mk := func(x []Val) Val {
			if len(x) == 0 {
				return Val{}
			}
			return Val{R: &Slice{&Obj{cells: x, epoch: m.epoch}, 0, len(x), len(x)}}
		}
		return Val{R: Tuple{mk(names), mk(ptrs)}}
	}
	t[rt+"poke"] = func(m *Machine, in *Ins, a []Val) Val {
		i := a[0].R.(*Iface)
		x := a[1].R.(*Iface)
		m.store(i.v.R.(*Obj), int(i.v.N), x.v, x.t.agg, x.t.size)
		return Val{}
	}
	t[rt+"reflectVal"] = func(m *Machine, in *Ins, a []Val) Val { return m.reflectVal(a[0]) }
	syn(rt+"sleep", func(m *Machine, in *Ins, a []Val) Val {
		d := int64(a[0].N)
		if d < 0 {
			d = 0
		}
		// The result is delivered before going to sleep.
		m.fr().pc++
		m.g.status = gSleeping
		m.g.why = "sleep"
		m.g.wakeAt = m.clock + d
		m.g.passed = false
		m.phase = 1
		panic(sleepSig{})
	})
	syn(rt+"yield", func(m *Machine, in *Ins, a []Val) Val { return Val{} })
	t[rt+"clock"] = func(m *Machine, in *Ins, a []Val) Val { return Val{N: uint64(m.clock)} }
	t[rt+"swap"] = func(m *Machine, in *Ins, a []Val) Val {
		i := a[0].R.(*Iface)
		s := i.v.R.(*Slice)
		es := m.L.sizeOf(i.t.t.Underlying().(*types.Slice).Elem())
		x, y := m.concInt(a[1]), m.concInt(a[2])
		if x < 0 || y < 0 || x >= s.len || y >= s.len {
			panic(goPanic{m.runtimeErr("reflect: slice index out of range")})
		}
		m.touch(s.obj)
		for k := 0; k < es; k++ {
			p, q := s.off+x*es+k, s.off+y*es+k
			u, v := s.obj.get(p), s.obj.get(q)
			if s.obj.isB {
				s.obj.setByte(p, v)
				s.obj.setByte(q, u)
			} else {
				s.obj.cells[p], s.obj.cells[q] = v, u
			}
		}
		return Val{}
	}
	t[rt+"sliceLen"] = func(m *Machine, in *Ins, a []Val) Val {
		i, ok := a[0].R.(*Iface)
		if !ok {
			return Val{}
		}
		if s, ok := i.v.R.(*Slice); ok {
			return intVal(s.len)
		}
		return Val{}
	}
	t[rt+"typeName"] = func(m *Machine, in *Ins, a []Val) Val {
		i, ok := a[0].R.(*Iface)
		if !ok {
			return m.str("<nil>")
		}
		return m.str(types.TypeString(i.t.t, func(p *types.Package) string { return p.Name() }))
	}
	// underlying returns the value converted to its underlying basic type: kind, string, int bits.
	t[rt+"basic"] = func(m *Machine, in *Ins, a []Val) Val {
		i, ok := a[0].R.(*Iface)
		if !ok {
			return Val{R: Tuple{Val{}, Val{}, Val{}}}
		}
		w, signed, k := basicInfo(i.t.t)
		switch k {
		case 's':
			return Val{R: Tuple{Val{N: 's'}, m.asStr(i.v), Val{}}}
		case 'i':
			if i.v.R != nil {
				t, ok := i.v.R.(*Term)
				if !ok {
					return Val{R: Tuple{Val{}, Val{}, Val{}}}
				}
				return Val{R: Tuple{Val{N: map[bool]uint64{true: 'i', false: 'u'}[signed]}, Val{}, fromTerm(m.tt.Resize(t, 64, signed))}}
			}
			if signed {
				return Val{R: Tuple{Val{N: 'i'}, Val{}, Val{N: uint64(sx(i.v.N, w))}}}
			}
			return Val{R: Tuple{Val{N: 'u'}, Val{}, Val{N: i.v.N}}}
		case 'b':
			return Val{R: Tuple{Val{N: 'b'}, Val{}, Val{N: uint64(b2u(m.branch(m.term(i.v, 0))))}}}
		case 'f':
			if i.v.R != nil {
				panic(unsup("formatting a symbolic float"))
			}
			return Val{R: Tuple{Val{N: 'f'}, Val{}, Val{N: i.v.N}}}
		}
		return Val{R: Tuple{Val{}, Val{}, Val{}}}
	}
	// lowerASCII maps a string byte-wise when every byte is ASCII.
	caseMap := func(lo, hi byte, delta uint64) intrinsic {
		return func(m *Machine, in *Ins, a []Val) Val {
			s := m.asStr(a[0])
			n := strLen(s)
			if n == 0 {
				return Val{R: Tuple{Val{}, Val{N: 1}}}
			}
			o := s.R.(*Obj)
			off := strOff(s)
			r := &Obj{isB: true, bytes: make([]byte, n), epoch: m.epoch}
			for i := 0; i < n; i++ {
				b := o.byteAt(off + i)
				if t, ok := b.R.(*Term); ok {
					if !m.branch(m.tt.Cmp(OpUlt, t, m.tt.Const(8, 0x80))) {
						return Val{R: Tuple{Val{}, Val{}}}
					}
					c := m.tt.And(m.tt.Cmp(OpUle, m.tt.Const(8, uint64(lo)), t), m.tt.Cmp(OpUle, t, m.tt.Const(8, uint64(hi))))
					// Avoid terms when the domain decides the case.
					d, _ := m.getDom2(t)
					if d != nil {
						any, all := false, true
						tb := m.truthOf2(c)
						if tb != nil {
							for k := range d.bits {
								if d.bits[k]&tb[k] != 0 {
									any = true
								}
								if d.bits[k]&^tb[k] != 0 {
									all = false
								}
							}
							if !any {
								c = m.tt.False
							} else if all {
								c = m.tt.True
							}
						}
					}
					r.setByte(i, fromTerm(m.tt.Ite(c, m.tt.Bin(OpAdd, t, m.tt.Const(8, delta)), t)))
					continue
				}
				if b.N >= 0x80 {
					return Val{R: Tuple{Val{}, Val{}}}
				}
				if byte(b.N) >= lo && byte(b.N) <= hi {
					b.N = (b.N + delta) & 0xff
				}
				r.setByte(i, b)
			}
			return Val{R: Tuple{mkStr(r, 0, n), Val{N: 1}}}
		}
	}
	t[rt+"lowerASCII"] = caseMap('A', 'Z', 32)
	t[rt+"upperASCII"] = caseMap('a', 'z', 256-32)

	// ---- symbolic API ----
	byteVar := func(m *Machine) *Term {
		v := m.tt.Var(fmt.Sprintf("b%d", m.nvars), 8)
		m.nvars++
		m.inputs = append(m.inputs, input{kind: "byte", t: v})
		m.ninputs = len(m.inputs)
		return v
	}
	t[sy+"Byte"] = func(m *Machine, in *Ins, a []Val) Val { return Val{R: byteVar(m)} }
	t[sy+"ByteIn"] = func(m *Machine, in *Ins, a []Val) Val {
		set := m.concStr(a[0])
		if len(set) == 1 {
			m.inputs = append(m.inputs, input{kind: "byte", conc: uint64(set[0])})
			m.ninputs = len(m.inputs)
			return Val{N: uint64(set[0])}
		}
		v := byteVar(m)
		var cs []*Term
		var has [256]bool
		for i := 0; i < len(set); i++ {
			has[set[i]] = true
		}
		for i := 0; i < 256; i++ {
			if !has[i] {
				continue
			}
			j := i
			for j+1 < 256 && has[j+1] {
				j++
			}
			if i == j {
				cs = append(cs, m.tt.Eq(v, m.tt.Const(8, uint64(i))))
			} else {
				cs = append(cs, m.tt.And(m.tt.Cmp(OpUle, m.tt.Const(8, uint64(i)), v), m.tt.Cmp(OpUle, v, m.tt.Const(8, uint64(j)))))
			}
			i = j
		}
		m.addPC(m.tt.Or(cs...))
		return Val{R: v}
	}
	t[sy+"Bool"] = func(m *Machine, in *Ins, a []Val) Val {
		v := m.tt.Var(fmt.Sprintf("p%d", m.nvars), 0)
		m.nvars++
		m.inputs = append(m.inputs, input{kind: "bool", t: v})
		m.ninputs = len(m.inputs)
		return Val{R: v}
	}
	t[sy+"Int"] = func(m *Machine, in *Ins, a []Val) Val {
		v := m.tt.Var(fmt.Sprintf("i%d", m.nvars), 64)
		m.nvars++
		m.inputs = append(m.inputs, input{kind: "int", t: v})
		m.ninputs = len(m.inputs)
		m.addPC(m.tt.And(m.tt.Cmp(OpSle, m.term(a[0], 64), v), m.tt.Cmp(OpSle, v, m.term(a[1], 64))))
		return Val{R: v}
	}
	t[sy+"Uint64"] = func(m *Machine, in *Ins, a []Val) Val {
		v := m.tt.Var(fmt.Sprintf("u%d", m.nvars), 64)
		m.nvars++
		m.inputs = append(m.inputs, input{kind: "uint64", t: v})
		m.ninputs = len(m.inputs)
		return Val{R: v}
	}
	t[sy+"Choose"] = func(m *Machine, in *Ins, a []Val) Val {
		n := int(a[0].N)
		k := m.choose(n)
		v := m.tt.Var(fmt.Sprintf("c%d", m.nvars), 64)
		m.nvars++
		m.inputs = append(m.inputs, input{kind: "choose", t: v})
		m.ninputs = len(m.inputs)
		m.addChoice(v, k, n)
		return intVal(k)
	}
	t[sy+"Assume"] = func(m *Machine, in *Ins, a []Val) Val {
		c := m.term(a[0], 0)
		if c == m.tt.False {
			panic(endSig{"infeasible"})
		}
		if c == m.tt.True {
			return Val{}
		}
		if c.nvars == 1 && (c.supp.w == 8 || c.supp.w == 0) {
			d, _ := m.getDom(c.supp)
			tb := m.truthOf(c)
			ok := false
			for i := range d.bits {
				if d.bits[i]&tb[i] != 0 {
					ok = true
				}
			}
			if !ok {
				panic(endSig{"infeasible"})
			}
		}
		m.addPC(c)
		m.modelOK = m.modelOK && m.tt.Eval(c, m.model) != 0
		if !m.modelOK {
			if m.forcePos >= len(m.forced) {
				m.ensureModel()
			}
		}
		return Val{}
	}
	t[sy+"Assert"] = func(m *Machine, in *Ins, a []Val) Val {
		m.assert(m.term(a[0], 0), a[1])
		return Val{}
	}
	t[sy+"Cover"] = func(m *Machine, in *Ins, a []Val) Val {
		m.covers = append(m.covers, m.concStr(a[0]))
		m.ncover = len(m.covers)
		return Val{}
	}
	t[sy+"Known"] = func(m *Machine, in *Ins, a []Val) Val {
		m.knowns = append(m.knowns, m.concStr(a[0]))
		m.nknown = len(m.knowns)
		return Val{}
	}
	t[sy+"Skip"] = func(m *Machine, in *Ins, a []Val) Val { panic(endSig{"skip"}) }
	t[sy+"Symbolic"] = func(m *Machine, in *Ins, a []Val) Val { return Val{N: 1} }
	t[sy+"Param"] = func(m *Machine, in *Ins, a []Val) Val {
		v, ok := m.params[m.concStr(a[0])]
		if !ok {
			panic(unsup("missing parameter " + m.concStr(a[0])))
		}
		return intVal(v)
	}
	t[sy+"TempDir"] = func(m *Machine, in *Ins, a []Val) Val { return m.str("/tmp/v") }
	t[sy+"AllowExit"] = func(m *Machine, in *Ins, a []Val) Val {
		m.misc.exitOK = true
		return Val{}
	}
	t[sy+"Schedules"] = func(m *Machine, in *Ins, a []Val) Val {
		m.explore = a[0].N != 0
		return Val{}
	}
	t[sy+"Races"] = func(m *Machine, in *Ins, a []Val) Val {
		m.raceOn = a[0].N != 0
		if m.raceOn {
			m.g.vc = m.g.vc.inc(m.g.id)
		}
		return Val{}
	}
	t[sy+"MapOrder"] = func(m *Machine, in *Ins, a []Val) Val {
		m.mapOrder = a[0].N != 0
		m.mapDev = -1
		return Val{}
	}
	t[sy+"MapOrderN"] = func(m *Machine, in *Ins, a []Val) Val {
		m.mapOrder = true
		m.mapDev = m.concInt(a[0])
		return Val{}
	}
	t[sy+"And"] = func(m *Machine, in *Ins, a []Val) Val {
		return fromTerm(m.tt.And(m.term(a[0], 0), m.term(a[1], 0)))
	}
	t[sy+"Or"] = func(m *Machine, in *Ins, a []Val) Val {
		return fromTerm(m.tt.Or(m.term(a[0], 0), m.term(a[1], 0)))
	}
	t[sy+"Log"] = func(m *Machine, in *Ins, a []Val) Val {
		if m.trace {
			fmt.Println("log:", strDbg(m.asStr(a[0])))
		}
		m.logs = append(m.logs, m.asStr(a[0]))
		m.misc.nlog = len(m.logs)
		return Val{}
	}

	// ---- std ----
	ident := func(m *Machine, in *Ins, a []Val) Val { return a[0] }
	nop := func(m *Machine, in *Ins, a []Val) Val { return Val{} }
	t["internal/abi.NoEscape"] = ident
	t["internal/abi.Escape"] = ident
	t["runtime.KeepAlive"] = nop
	t["runtime.GC"] = nop
	t["runtime.Gosched"] = nop
	t["runtime.SetFinalizer"] = nop
	t["time.runtimeNano"] = func(m *Machine, in *Ins, a []Val) Val { return Val{N: 1} }
	t["time/tzdata.registerLoadFromEmbeddedTZData"] = nop
	t["runtime/debug.FreeOSMemory"] = nop
	t["runtime.NumCPU"] = func(m *Machine, in *Ins, a []Val) Val { return Val{N: 2} }
	t["runtime.NumGoroutine"] = func(m *Machine, in *Ins, a []Val) Val { return Val{N: 2} }
	t["runtime.GOMAXPROCS"] = func(m *Machine, in *Ins, a []Val) Val { return Val{N: 2} }
	t["runtime/debug.Stack"] = func(m *Machine, in *Ins, a []Val) Val { return Val{R: &Slice{m.newBytes([]byte("stack")), 0, 5, 5}} }
	t["internal/race.Enabled"] = nop
	for _, n := range []string{"Acquire", "Release", "ReleaseMerge", "Disable", "Enable", "Read", "Write", "ReadRange", "WriteRange", "Errors"} {
		t["internal/race."+n] = nop
	}
	t["(*internal/godebug.Setting).Value"] = nop
	t["(*internal/godebug.Setting).IncNonDefault"] = nop
	t["internal/godebug.New"] = nop
	t["slices.overlaps"] = func(m *Machine, in *Ins, a []Val) Val {
		x, _ := a[0].R.(*Slice)
		y, _ := a[1].R.(*Slice)
		if x == nil || y == nil || x.len == 0 || y.len == 0 || x.obj != y.obj {
			return Val{}
		}
		es := 1
		if in.fn != nil {
			if st, ok := in.fn.ssa.Signature.Params().At(0).Type().Underlying().(*types.Slice); ok {
				es = m.L.sizeOf(st.Elem())
			}
		}
		return boolVal(x.off < y.off+y.len*es && y.off < x.off+x.len*es)
	}
	t["internal/bytealg.MakeNoZero"] = func(m *Machine, in *Ins, a []Val) Val {
		n := m.concInt(a[0])
		return Val{R: &Slice{m.newBytes(make([]byte, n)), 0, n, n}}
	}
	bits64 := func(op Op, w uint8) intrinsic {
		return func(m *Machine, in *Ins, a []Val) Val {
			t, ok := a[0].R.(*Term)
			if !ok {
				return a[0]
			}
			if (t.op == OpFOfBits || t.op == OpFBits) && t.op != op {
				return fromTerm(t.args[0])
			}
			if op == OpFOfBits {
				return Val{N: m.concretize(t)}
			}
			return fromTerm(m.tt.mk(op, w, 0, "", t))
		}
	}
	bits32 := func(m *Machine, in *Ins, a []Val) Val {
		if a[0].R != nil {
			panic(unsup("bits of a symbolic float32"))
		}
		return a[0]
	}
	t["math.Float64bits"] = bits64(OpFBits, 64)
	t["math.Float64frombits"] = bits64(OpFOfBits, fpSort)
	t["math.Float32bits"] = bits32
	t["math.Float32frombits"] = bits32
	t["internal/strconv.float64bits"] = t["math.Float64bits"]
	t["internal/strconv.float64frombits"] = t["math.Float64frombits"]
	t["internal/strconv.float32bits"] = bits32
	t["internal/strconv.float32frombits"] = bits32
	mathf := func(f func(float64) float64) intrinsic {
		return func(m *Machine, in *Ins, a []Val) Val {
			if a[0].R != nil {
				panic(unsup("math function on a symbolic float"))
			}
			return Val{N: math.Float64bits(f(math.Float64frombits(a[0].N)))}
		}
	}
	t["math.Floor"] = mathf(math.Floor)
	t["math.Trunc"] = mathf(math.Trunc)
	t["math.Ceil"] = mathf(math.Ceil)
	t["math.Sqrt"] = mathf(math.Sqrt)
	t["math.Abs"] = func(m *Machine, in *Ins, a []Val) Val {
		return fromTerm(m.tt.FUn(OpFAbs, m.term(a[0], fpSort)))
	}
	bit := func(f func(uint64) int) intrinsic {
		return func(m *Machine, in *Ins, a []Val) Val {
			v := a[0]
			if v.R != nil {
				v = Val{N: m.concretize(v.R.(*Term))}
			}
			return intVal(f(v.N))
		}
	}
	t["math/bits.Len64"] = bit(bits.Len64)
	t["math/bits.Len32"] = bit(bits.Len64)
	t["math/bits.Len"] = bit(bits.Len64)
	t["math/bits.TrailingZeros64"] = bit(bits.TrailingZeros64)
	t["math/bits.TrailingZeros32"] = bit(func(x uint64) int { return bits.TrailingZeros32(uint32(x)) })
	t["math/bits.TrailingZeros"] = bit(bits.TrailingZeros64)
	t["math/bits.LeadingZeros64"] = bit(bits.LeadingZeros64)
	t["math/bits.OnesCount64"] = bit(bits.OnesCount64)
	t["math/bits.Mul64"] = func(m *Machine, in *Ins, a []Val) Val {
		if a[0].R != nil || a[1].R != nil {
			tt := m.tt
			x, y := m.term(a[0], 64), m.term(a[1], 64)
			c32 := tt.Const(64, 32)
			lo := func(t *Term) *Term { return tt.Bin(OpAnd, t, tt.Const(64, 0xffffffff)) }
			hi := func(t *Term) *Term { return tt.Bin(OpLshr, t, c32) }
			mul := func(p, q *Term) *Term { return tt.Bin(OpMul, p, q) }
			add := func(p, q *Term) *Term { return tt.Bin(OpAdd, p, q) }
			w0 := mul(lo(x), lo(y))
			t1 := add(mul(hi(x), lo(y)), hi(w0))
			w1 := add(lo(t1), mul(lo(x), hi(y)))
			h := add(add(mul(hi(x), hi(y)), hi(t1)), hi(w1))
			return Val{R: Tuple{fromTerm(h), fromTerm(mul(x, y))}}
		}
		h, l := bits.Mul64(a[0].N, a[1].N)
		return Val{R: Tuple{Val{N: h}, Val{N: l}}}
	}
	// Byte search: each comparison may fork.
	idx := func(conv func(m *Machine, a Val) Val) intrinsic {
		return func(m *Machine, in *Ins, a []Val) Val {
			s := conv(m, a[0])
			n := strLen(s)
			for i := 0; i < n; i++ {
				b := s.R.(*Obj).byteAt(strOff(s) + i)
				if b.R == nil && a[1].R == nil {
					if b.N == a[1].N {
						return intVal(i)
					}
					continue
				}
				if m.branch(m.tt.Eq(m.term(b, 8), m.term(a[1], 8))) {
					return intVal(i)
				}
			}
			return Val{N: ^uint64(0)}
		}
	}
	view := func(m *Machine, v Val) Val {
		if s, ok := v.R.(*Slice); ok {
			if s.len == 0 {
				return Val{}
			}
			if s.obj.isB {
				return mkStr(s.obj, s.off, s.len)
			}
			return m.bytesToStr(v)
		}
		return v
	}
	t["internal/bytealg.IndexByte"] = idx(view)
	t["internal/bytealg.IndexByteString"] = idx(view)
	t["bytes.IndexByte"] = idx(view)
	t["strings.IndexByte"] = idx(view)
	last := func(m *Machine, in *Ins, a []Val) Val {
		s := view(m, a[0])
		for i := strLen(s) - 1; i >= 0; i-- {
			b := s.R.(*Obj).byteAt(strOff(s) + i)
			if m.branch(m.tt.Eq(m.term(b, 8), m.term(a[1], 8))) {
				return intVal(i)
			}
		}
		return Val{N: ^uint64(0)}
	}
	t["internal/bytealg.LastIndexByte"] = last
	t["internal/bytealg.LastIndexByteString"] = last
	count := func(m *Machine, in *Ins, a []Val) Val {
		s := view(m, a[0])
		c := 0
		for i := 0; i < strLen(s); i++ {
			b := s.R.(*Obj).byteAt(strOff(s) + i)
			if m.branch(m.tt.Eq(m.term(b, 8), m.term(a[1], 8))) {
				c++
			}
		}
		return intVal(c)
	}
	t["internal/bytealg.Count"] = count
	t["internal/bytealg.CountString"] = count
	eqs := func(m *Machine, in *Ins, a []Val) Val {
		return fromTerm(m.strEq(view(m, a[0]), view(m, a[1])))
	}
	t["internal/bytealg.Equal"] = eqs
	t["bytes.Equal"] = eqs
	cmp := func(m *Machine, in *Ins, a []Val) Val {
		x, y := view(m, a[0]), view(m, a[1])
		lt := m.strLess(x, y)
		eq := m.strEq(x, y)
		return fromTerm(m.tt.Ite(lt, m.tt.Const(64, ^uint64(0)), m.tt.Ite(eq, m.tt.Const(64, 0), m.tt.Const(64, 1))))
	}
	t["internal/bytealg.Compare"] = cmp
	t["internal/bytealg.CompareString"] = cmp
	t["bytes.Compare"] = cmp
	t["strings.Compare"] = cmp
	// Handles that initialisers make, of different values each (net/netip).
	t["unique.Make"] = func(m *Machine, in *Ins, a []Val) Val {
		x, ok := a[0].R.(Agg)
		if !ok || !m.initing {
			panic(unsup("unique.Make"))
		}
		return Val{R: Agg{Val{R: &Obj{cells: append([]Val{}, x...), epoch: m.epoch}}}}
	}
	index := func(m *Machine, in *Ins, a []Val) Val {
		x, y := view(m, a[0]), view(m, a[1])
		n, k := strLen(x), strLen(y)
		for i := 0; i+k <= n; i++ {
			var w Val
			if k > 0 {
				w = mkStr(x.R.(*Obj), strOff(x)+i, k)
			}
			if m.branch(m.strEq(w, y)) {
				return intVal(i)
			}
		}
		return Val{N: ^uint64(0)}
	}
	t["strings.Index"] = index
	t["bytes.Index"] = index
	t["internal/bytealg.Index"] = index
	t["internal/bytealg.IndexString"] = index
	lastIndex := func(m *Machine, in *Ins, a []Val) Val {
		x, y := view(m, a[0]), view(m, a[1])
		n, k := strLen(x), strLen(y)
		for i := n - k; i >= 0; i-- {
			var w Val
			if k > 0 {
				w = mkStr(x.R.(*Obj), strOff(x)+i, k)
			}
			if m.branch(m.strEq(w, y)) {
				return intVal(i)
			}
		}
		return Val{N: ^uint64(0)}
	}
	t["strings.LastIndex"] = lastIndex
	t["bytes.LastIndex"] = lastIndex

	t["strings.HasPrefix"] = func(m *Machine, in *Ins, a []Val) Val {
		x, y := view(m, a[0]), view(m, a[1])
		k := strLen(y)
		if strLen(x) < k {
			return Val{}
		}
		if k == 0 {
			return Val{N: 1}
		}
		return fromTerm(m.strEq(mkStr(x.R.(*Obj), strOff(x), k), y))
	}
	t["bytes.HasPrefix"] = t["strings.HasPrefix"]
	t["strings.HasSuffix"] = func(m *Machine, in *Ins, a []Val) Val {
		x, y := view(m, a[0]), view(m, a[1])
		n, k := strLen(x), strLen(y)
		if n < k {
			return Val{}
		}
		if k == 0 {
			return Val{N: 1}
		}
		return fromTerm(m.strEq(mkStr(x.R.(*Obj), strOff(x)+n-k, k), y))
	}
	t["bytes.HasSuffix"] = t["strings.HasSuffix"]
	s2b := func(m *Machine, in *Ins, a []Val) Val {
		v := m.asStr(a[0])
		if v.R == nil {
			return Val{}
		}
		return Val{R: &Slice{v.R.(*Obj), strOff(v), strLen(v), strLen(v)}}
	}
	for _, p := range []string{"valyala", "vearutop"} {
		t["github.com/"+p+"/fastjson.b2s"] = func(m *Machine, in *Ins, a []Val) Val { return view(m, a[0]) }
		t["github.com/"+p+"/fastjson.s2b"] = s2b
	}
	return t
}

func (m *Machine) getDom2(t *Term) (*domain, bool) {
	if t.op != OpVar {
		return nil, false
	}
	d, ok := m.doms[t]
	if !ok {
		return nil, false
	}
	return &d, true
}

func (m *Machine) truthOf2(c *Term) *[4]uint64 {
	if c.nvars != 1 {
		return nil
	}
	return m.truthOf(c)
}

// addChoice constrains a choice variable to its chosen alternative.
func (m *Machine) addChoice(v *Term, k, n int) {
	t := m.tt.Eq(v, m.tt.Const(64, uint64(k)))
	m.pc = append(m.pc, t)
	if m.modelOK {
		mo := make(Model, len(m.model)+1)
		for a, b := range m.model {
			mo[a] = b
		}
		mo[v] = uint64(k)
		m.model = mo
	}
}

type sleepSig struct{}

// assert decides an obligation on the current path.
func (m *Machine) assert(c *Term, msg Val) {
	if m.forcePos < len(m.forced) {
		return // decided by the job that owns this prefix
	}
	m.stats.Obligations++
	switch {
	case c == m.tt.True:
		m.stats.ObSimpl++
		return
	case c == m.tt.False:
		m.failNow("assert", strDbg(m.asStr(msg)))
		if m.endWhy == "violation" {
			panic(violSig{})
		}
		panic(endSig{m.endWhy})
	}
	m.stats.ObSolver++
	r, mo := m.S.Check(m.pc, m.tt.Not(c))
	switch r {
	case Unsat:
		return
	case Sat:
		m.violation("assert", strDbg(m.asStr(msg)), mo)
		panic(violSig{})
	default:
		m.stats.ObUnknown++
		panic(endSig{"solver unknown on an obligation"})
	}
}

// reflectVal decomposes a value for the model of encoding/json.
func (m *Machine) reflectVal(v Val) Val {
	const (
		kNil = iota
		kString
		kInt
		kUint
		kBool
		kFloat
		kStruct
		kMap
		kSlice
		kBytes
		kOther
	)
	ret := func(k int, names []Val, vals []Val) Val {
		mk := func(x []Val) Val {
			if len(x) == 0 {
				return Val{}
			}
			return Val{R: &Slice{&Obj{cells: x, epoch: m.epoch}, 0, len(x), len(x)}}
		}
		return Val{R: Tuple{intVal(k), mk(names), mk(vals)}}
	}
	box := func(x Val, t types.Type) Val {
		if types.IsInterface(t) {
			return x
		}
		return Val{R: &Iface{m.L.rtype(t), x}}
	}
	i, ok := v.R.(*Iface)
	if !ok {
		return ret(kNil, nil, nil)
	}
	switch u := i.t.t.Underlying().(type) {
	case *types.Basic:
		_, signed, k := basicInfo(u)
		switch k {
		case 's':
			return ret(kString, nil, nil)
		case 'i':
			if signed {
				return ret(kInt, nil, nil)
			}
			return ret(kUint, nil, nil)
		case 'b':
			return ret(kBool, nil, nil)
		case 'f':
			return ret(kFloat, nil, nil)
		}
	case *types.Pointer:
		o, ok := i.v.R.(*Obj)
		if !ok {
			return ret(kNil, nil, nil)
		}
		et := u.Elem()
		var x Val
		if isAgg(et) {
			n := m.L.sizeOf(et)
			g := make(Agg, n)
			for k := range g {
				g[k] = o.get(int(i.v.N) + k)
			}
			x = Val{R: g}
		} else {
			x = o.get(int(i.v.N))
		}
		return m.reflectVal(box(x, et))
	case *types.Slice, *types.Array:
		var et types.Type
		var o *Obj
		off, n := 0, 0
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
			if s, ok := i.v.R.(*Slice); ok {
				o, off, n = s.obj, s.off, s.len
			} else {
				return ret(kNil, nil, nil)
			}
		} else {
			return ret(kOther, nil, nil)
		}
		if isByte(et) {
			return ret(kBytes, nil, nil)
		}
		es := m.L.sizeOf(et)
		var vals []Val
		for k := 0; k < n; k++ {
			if isAgg(et) {
				g := make(Agg, es)
				for j := range g {
					g[j] = o.get(off + k*es + j)
				}
				vals = append(vals, box(Val{R: g}, et))
			} else {
				vals = append(vals, box(o.get(off+k), et))
			}
		}
		return ret(kSlice, nil, vals)
	case *types.Map:
		mo, ok := i.v.R.(*MapObj)
		if !ok {
			return ret(kNil, nil, nil)
		}
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			return ret(kOther, nil, nil)
		}
		var names, vals []Val
		for k := range mo.keys {
			if mo.live[k] {
				names = append(names, m.asStr(mo.keys[k]))
				vals = append(vals, box(mo.vals[k], u.Elem()))
			}
		}
		return ret(kMap, names, vals)
	case *types.Struct:
		var names, vals []Val
		g, _ := i.v.R.(Agg)
		off := 0
		for k := 0; k < u.NumFields(); k++ {
			f := u.Field(k)
			n := m.L.sizeOf(f.Type())
			o := off
			off += n
			if !f.Exported() {
				continue
			}
			name, omit := f.Name(), false
			if tag := reflect.StructTag(u.Tag(k)).Get("json"); tag != "" {
				p := strings.Split(tag, ",")
				if p[0] == "-" {
					continue
				}
				if p[0] != "" {
					name = p[0]
				}
				for _, x := range p[1:] {
					if x == "omitempty" {
						omit = true
					}
				}
			}
			var x Val
			if g != nil {
				x = sub(g, o, n, f.Type())
			}
			if omit {
				empty := false
				switch f.Type().Underlying().(type) {
				case *types.Basic:
					empty = x.R == nil && x.N == 0
				case *types.Slice:
					s, ok := x.R.(*Slice)
					empty = !ok || s.len == 0
				case *types.Map:
					mo, ok := x.R.(*MapObj)
					empty = !ok || mo.n == 0
				case *types.Pointer, *types.Interface:
					empty = x.R == nil
				}
				if empty {
					continue
				}
			}
			names = append(names, m.str(name))
			vals = append(vals, box(x, f.Type()))
		}
		return ret(kStruct, names, vals)
	}
	return ret(kOther, nil, nil)
}
