package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
)

// Val is a runtime value; see DESIGN.md for the representation.
type Val struct {
	N uint64
	R any
}

// Agg is a flattened struct or array value.
type Agg []Val

// Tuple is a multi-value result.
type Tuple []Val

// Obj is a heap object: either generic cells or bytes.
type Obj struct {
	cells []Val
	bytes []byte
	sym   []*Term // nil or len(bytes); nil entries are concrete
	isB   bool
	noini bool // a package variable whose initialiser is not run
	konst bool // a string constant of the program, shared by the machines
	epoch uint32
	id    int32
	race  *raceInfo
}

// Slice is a slice header; elements are es cells each.
type Slice struct {
	obj           *Obj
	off, len, cap int // off in cells, len/cap in elements
}

// Iface is a non-nil interface value.
type Iface struct {
	t *RType
	v Val
}

// Closure is a function value.
type Closure struct {
	fn    *Func
	binds []Val
}

// RType is a canonical runtime type.
type RType struct {
	t       types.Type
	id      int
	methods map[string]*Func
	impl    map[*RType]bool
	size    int
	agg     bool
}

// MapObj is a map.
type MapObj struct {
	keys  []Val
	vals  []Val
	live  []bool
	index map[string]int
	nsym  int // number of live symbolic keys
	n     int
	epoch uint32
	id    int32
	vsz   int
	race  *raceInfo
}

// Chan is a channel.
type Chan struct {
	buf    []Val
	cap    int
	closed bool
	epoch  uint32
	id     int32
	// unbuffered hand-off: pending senders are goroutines blocked on send.
	recvWaiting int
	clocks      []vclock
	clk         vclock
}

// MapIter is an iterator state.
type MapIter struct {
	m    *MapObj
	pos  int
	str  Val
	isS  bool
	done []bool // for nondeterministic order
	epo  uint32
}

func isSym(v Val) bool { _, ok := v.R.(*Term); return ok }

func mkStr(o *Obj, off, n int) Val {
	if n == 0 {
		return Val{}
	}
	return Val{N: uint64(off)<<32 | uint64(n), R: o}
}

func strLen(v Val) int { return int(v.N & 0xffffffff) }
func strOff(v Val) int { return int(v.N >> 32) }

func (m *Machine) str(s string) Val {
	if s == "" {
		return Val{}
	}
	return mkStr(m.newBytes([]byte(s)), 0, len(s))
}

func (m *Machine) newBytes(b []byte) *Obj {
	return &Obj{bytes: b, isB: true, epoch: m.epoch}
}

func (m *Machine) newCells(n int) *Obj {
	return &Obj{cells: make([]Val, n), epoch: m.epoch}
}

// strConc returns the Go string if v is fully concrete.
func strConc(v Val) (string, bool) {
	if v.R == nil {
		return "", true
	}
	o, ok := v.R.(*Obj)
	if !ok {
		if s, ok := v.R.(*Slice); ok {
			return sliceConc(s)
		}
		return "", false
	}
	off, n := strOff(v), strLen(v)
	if o.sym != nil {
		for _, t := range o.sym[off : off+n] {
			if t != nil {
				return "", false
			}
		}
	}
	return string(o.bytes[off : off+n]), true
}

func sliceConc(s *Slice) (string, bool) {
	if s.obj.isB {
		return strConc(mkStr(s.obj, s.off, s.len))
	}
	b := make([]byte, s.len)
	for i := range b {
		c := s.obj.cells[s.off+i]
		if c.R != nil {
			return "", false
		}
		b[i] = byte(c.N)
	}
	return string(b), true
}

// strDbg renders a string value with placeholders for symbolic bytes.
func strDbg(v Val) string {
	if s, ok := strConc(v); ok {
		return s
	}
	o := v.R.(*Obj)
	off, n := strOff(v), strLen(v)
	var sb strings.Builder
	for i := off; i < off+n; i++ {
		if o.sym[i] != nil {
			sb.WriteString("<" + o.sym[i].String() + ">")
		} else {
			sb.WriteByte(o.bytes[i])
		}
	}
	return sb.String()
}

// byteAt returns the i-th byte of bytes object o.
func (o *Obj) byteAt(i int) Val {
	if o.sym != nil && o.sym[i] != nil {
		return Val{R: o.sym[i]}
	}
	return Val{N: uint64(o.bytes[i])}
}

func (o *Obj) setByte(i int, v Val) {
	if t, ok := v.R.(*Term); ok {
		if o.sym == nil {
			o.sym = make([]*Term, len(o.bytes))
		}
		o.sym[i] = t
		return
	}
	o.bytes[i] = byte(v.N)
	if o.sym != nil {
		o.sym[i] = nil
	}
}

// get reads cell i of any object.
func (o *Obj) get(i int) Val {
	if o.isB {
		return o.byteAt(i)
	}
	return o.cells[i]
}

func (o *Obj) length() int {
	if o.isB {
		return len(o.bytes)
	}
	return len(o.cells)
}

type trailRec struct {
	fn    func()
	o     *Obj
	m     *MapObj
	c     *Chan
	it    *MapIter
	cells []Val
	bytes []byte
	sym   []*Term
	epoch uint32
	// map
	keys, vals []Val
	live       []bool
	index      map[string]int
	nsym, n    int
	buf        []Val
	closed     bool
	waiting    int
	pos        int
	done       []bool
	clocks     []vclock
	clk        vclock
}

// touch must be called before o is modified.
func (m *Machine) touch(o *Obj) {
	if o.epoch == m.epoch {
		return
	}
	r := trailRec{o: o, epoch: o.epoch}
	if o.isB {
		r.bytes = append([]byte(nil), o.bytes...)
		if o.sym != nil {
			r.sym = append([]*Term(nil), o.sym...)
		}
	} else {
		r.cells = append([]Val(nil), o.cells...)
	}
	m.trail = append(m.trail, r)
	o.epoch = m.epoch
}

func (m *Machine) touchMap(o *MapObj) {
	if o.epoch == m.epoch {
		return
	}
	r := trailRec{m: o, epoch: o.epoch, nsym: o.nsym, n: o.n}
	r.keys = append([]Val(nil), o.keys...)
	r.vals = append([]Val(nil), o.vals...)
	r.live = append([]bool(nil), o.live...)
	r.index = make(map[string]int, len(o.index))
	for k, v := range o.index {
		r.index[k] = v
	}
	m.trail = append(m.trail, r)
	o.epoch = m.epoch
}

func (m *Machine) touchChan(o *Chan) {
	if o.epoch == m.epoch {
		return
	}
	r := trailRec{c: o, epoch: o.epoch, closed: o.closed, waiting: o.recvWaiting}
	r.buf = append([]Val(nil), o.buf...)
	r.clocks = append([]vclock(nil), o.clocks...)
	r.clk = o.clk
	m.trail = append(m.trail, r)
	o.epoch = m.epoch
}

func (m *Machine) touchIter(o *MapIter) {
	if o.epo == m.epoch {
		return
	}
	r := trailRec{it: o, epoch: o.epo, pos: o.pos, done: append([]bool(nil), o.done...)}
	m.trail = append(m.trail, r)
	o.epo = m.epoch
}

func (m *Machine) undo(mark int) {
	for i := len(m.trail) - 1; i >= mark; i-- {
		r := &m.trail[i]
		switch {
		case r.fn != nil:
			r.fn()
		case r.o != nil:
			o := r.o
			if o.isB {
				o.bytes = r.bytes
				o.sym = r.sym
			} else {
				o.cells = r.cells
			}
			o.epoch = r.epoch
		case r.m != nil:
			o := r.m
			o.keys, o.vals, o.live, o.index, o.nsym, o.n = r.keys, r.vals, r.live, r.index, r.nsym, r.n
			o.epoch = r.epoch
		case r.c != nil:
			o := r.c
			o.buf, o.closed, o.recvWaiting = r.buf, r.closed, r.waiting
			o.clocks, o.clk = r.clocks, r.clk
			o.epoch = r.epoch
		case r.it != nil:
			r.it.pos, r.it.done, r.it.epo = r.pos, r.done, r.epoch
		}
		m.trail[i] = trailRec{}
	}
	m.trail = m.trail[:mark]
}

// ---- layout ----

func (l *Loaded) sizeOf(t types.Type) int {
	switch t.(type) {
	case *types.Basic, *types.Pointer, *types.Slice, *types.Map, *types.Signature:
		return 1
	}
	if v, ok := l.sizes.Load(t); ok {
		return v.(int)
	}
	n := l.sizeOf1(t)
	l.sizes.Store(t, n)
	return n
}

func (l *Loaded) sizeOf1(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += l.sizeOf(u.Field(i).Type())
		}
		return n
	case *types.Array:
		return int(u.Len()) * l.sizeOf(u.Elem())
	}
	return 1
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (l *Loaded) fieldOff(s *types.Struct, f int) int {
	n := 0
	for i := 0; i < f; i++ {
		n += l.sizeOf(s.Field(i).Type())
	}
	return n
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func basicInfo(t types.Type) (w uint8, signed bool, kind byte) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, 'o'
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, 'b'
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, 'i'
	case types.Int8:
		return 8, true, 'i'
	case types.Int16:
		return 16, true, 'i'
	case types.Int32, types.UntypedRune:
		return 32, true, 'i'
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, 'i'
	case types.Uint8:
		return 8, false, 'i'
	case types.Uint16:
		return 16, false, 'i'
	case types.Uint32:
		return 32, false, 'i'
	case types.Float64, types.UntypedFloat:
		return fpSort, true, 'f'
	case types.Float32:
		return 32, true, 'g'
	case types.String, types.UntypedString:
		return 0, false, 's'
	case types.UnsafePointer:
		return 0, false, 'p'
	case types.UntypedNil:
		return 0, false, 'n'
	case types.Complex128, types.Complex64:
		return 0, false, 'c'
	}
	return 0, false, '?'
}

func (m *Machine) zero(t types.Type) Val {
	if isAgg(t) {
		return Val{R: Agg(make([]Val, m.L.sizeOf(t)))}
	}
	return Val{}
}

// term converts an integer/bool value to a term.
func (m *Machine) term(v Val, w uint8) *Term {
	if t, ok := v.R.(*Term); ok {
		return t
	}
	if w == 0 {
		return m.tt.Bool(v.N != 0)
	}
	if w == fpSort {
		return m.tt.FConst(v.N)
	}
	return m.tt.Const(w, v.N)
}

// fromTerm converts a term to a value.
func fromTerm(t *Term) Val {
	if t.isConst() {
		return Val{N: t.val}
	}
	return Val{R: t}
}

func boolVal(b bool) Val {
	if b {
		return Val{N: 1}
	}
	return Val{}
}

func intVal(i int) Val { return Val{N: uint64(i)} }

// ---- equality ----

// eqTerm builds a condition that a == b for values of type t.
func (m *Machine) eqTerm(a, b Val, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w, _, k := basicInfo(t)
		switch k {
		case 'i', 'b':
			if a.R == nil && b.R == nil {
				return m.tt.Bool(a.N == b.N)
			}
			return m.tt.Eq(m.term(a, w), m.term(b, w))
		case 'f':
			if a.R == nil && b.R == nil {
				return m.tt.Bool(math.Float64frombits(a.N) == math.Float64frombits(b.N))
			}
			return m.tt.FCmp(OpFEq, m.term(a, w), m.term(b, w))
		case 'g':
			return m.tt.Bool(math.Float32frombits(uint32(a.N)) == math.Float32frombits(uint32(b.N)))
		case 's':
			return m.strEq(a, b)
		case 'p':
			return m.tt.Bool(a.R == b.R && a.N == b.N)
		}
	case *types.Interface:
		return m.ifaceEq(a, b)
	case *types.Struct:
		x, y := a.R.(Agg), b.R.(Agg)
		cs := []*Term{}
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := m.L.sizeOf(ft)
			if u.Field(i).Name() != "_" {
				c := m.eqTerm(sub(x, off, n, ft), sub(y, off, n, ft), ft)
				if c == m.tt.False {
					return c
				}
				cs = append(cs, c)
			}
			off += n
		}
		return m.tt.And(cs...)
	case *types.Array:
		x, y := a.R.(Agg), b.R.(Agg)
		cs := []*Term{}
		n := m.L.sizeOf(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			c := m.eqTerm(sub(x, i*n, n, u.Elem()), sub(y, i*n, n, u.Elem()), u.Elem())
			if c == m.tt.False {
				return c
			}
			cs = append(cs, c)
		}
		return m.tt.And(cs...)
	case *types.Pointer, *types.Chan:
		return m.tt.Bool(a.R == b.R && a.N == b.N)
	case *types.Signature, *types.Map, *types.Slice:
		return m.tt.Bool(a.R == nil && b.R == nil)
	}
	panic(unsup("eq of " + t.String()))
}

func sub(x Agg, off, n int, t types.Type) Val {
	if isAgg(t) {
		return Val{R: Agg(x[off : off+n])}
	}
	return x[off]
}

func (m *Machine) ifaceEq(a, b Val) *Term {
	if a.R == nil || b.R == nil {
		return m.tt.Bool(a.R == nil && b.R == nil)
	}
	x, y := a.R.(*Iface), b.R.(*Iface)
	if x.t != y.t {
		return m.tt.False
	}
	if !types.Comparable(x.t.t) {
		panic(goPanic{m.runtimeErr("comparing uncomparable type " + x.t.t.String())})
	}
	return m.eqTerm(x.v, y.v, x.t.t)
}

func (m *Machine) strEq(a, b Val) *Term {
	a, b = m.asStr(a), m.asStr(b)
	la, lb := strLen(a), strLen(b)
	if la != lb {
		return m.tt.False
	}
	if la == 0 {
		return m.tt.True
	}
	x, y := a.R.(*Obj), b.R.(*Obj)
	xo, yo := strOff(a), strOff(b)
	if x.sym == nil && y.sym == nil {
		return m.tt.Bool(string(x.bytes[xo:xo+la]) == string(y.bytes[yo:yo+la]))
	}
	var cs []*Term
	for i := 0; i < la; i++ {
		p, q := x.byteAt(xo+i), y.byteAt(yo+i)
		if p.R == nil && q.R == nil {
			if p.N != q.N {
				return m.tt.False
			}
			continue
		}
		c := m.tt.Eq(m.term(p, 8), m.term(q, 8))
		if c == m.tt.False {
			return c
		}
		cs = append(cs, c)
	}
	return m.tt.And(cs...)
}

// asStr normalises a value that may be a slice (through unsafe casts) to a string.
func (m *Machine) asStr(v Val) Val {
	if s, ok := v.R.(*Slice); ok {
		if s.obj.isB {
			return mkStr(s.obj, s.off, s.len)
		}
		return m.bytesToStr(v)
	}
	return v
}

// bytesToStr copies a byte slice into a new string.
func (m *Machine) bytesToStr(v Val) Val {
	s, ok := v.R.(*Slice)
	if !ok || s.len == 0 {
		return Val{}
	}
	o := &Obj{isB: true, epoch: m.epoch, bytes: make([]byte, s.len)}
	if s.obj.isB {
		copy(o.bytes, s.obj.bytes[s.off:s.off+s.len])
		if s.obj.sym != nil {
			for i, t := range s.obj.sym[s.off : s.off+s.len] {
				if t != nil {
					o.setByte(i, Val{R: t})
				}
			}
		}
	} else {
		for i := 0; i < s.len; i++ {
			o.setByte(i, s.obj.cells[s.off+i])
		}
	}
	return mkStr(o, 0, s.len)
}

func (m *Machine) strToBytes(v Val) Val {
	v = m.asStr(v)
	n := strLen(v)
	c := roundupSize(n)
	o := &Obj{isB: true, epoch: m.epoch, bytes: make([]byte, c)}
	if n > 0 {
		x := v.R.(*Obj)
		off := strOff(v)
		copy(o.bytes, x.bytes[off:off+n])
		if x.sym != nil {
			for i, t := range x.sym[off : off+n] {
				if t != nil {
					o.setByte(i, Val{R: t})
				}
			}
		}
	}
	return Val{R: &Slice{o, 0, n, c}}
}

// sizeClasses are the sizes of small objects of the allocator.
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// roundupSize is the size of the block that is allocated for a slice.
func roundupSize(n int) int {
	if n > 32768 {
		return (n + 8191) &^ 8191
	}
	i := sort.SearchInts(sizeClasses, n)
	return sizeClasses[i]
}

// elemBytes is the size of a value of the type.
func elemBytes(t types.Type) (n int) {
	defer func() {
		if recover() != nil { // a type parameter
			n = 0
		}
	}()
	return int(types.SizesFor("gc", "amd64").Sizeof(t))
}

// ---- map keys ----

func (m *Machine) keyString(v Val, t types.Type, sb *strings.Builder) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		_, _, k := basicInfo(t)
		switch k {
		case 's':
			s, ok := strConc(v)
			if !ok {
				return false
			}
			fmt.Fprintf(sb, "%d:%s", len(s), s)
			return true
		case 'p':
			fmt.Fprintf(sb, "%p.%d", v.R, v.N)
			return true
		}
		if isSym(v) {
			return false
		}
		var b [8]byte
		for i := range b {
			b[i] = byte(v.N >> (8 * i))
		}
		sb.Write(b[:])
		return true
	case *types.Interface:
		if v.R == nil {
			sb.WriteString("nil")
			return true
		}
		i := v.R.(*Iface)
		if !types.Comparable(i.t.t) {
			panic(goPanic{m.runtimeErr("hash of unhashable type " + i.t.t.String())})
		}
		fmt.Fprintf(sb, "<%d>", i.t.id)
		return m.keyString(i.v, i.t.t, sb)
	case *types.Struct:
		x := v.R.(Agg)
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := m.L.sizeOf(ft)
			if !m.keyString(sub(x, off, n, ft), ft, sb) {
				return false
			}
			off += n
		}
		return true
	case *types.Array:
		x := v.R.(Agg)
		n := m.L.sizeOf(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			if !m.keyString(sub(x, i*n, n, u.Elem()), u.Elem(), sb) {
				return false
			}
		}
		return true
	default:
		fmt.Fprintf(sb, "%p.%d", v.R, v.N)
		return true
	}
}

// mapFind returns the index of key or -1; it may branch on symbolic equality.
func (m *Machine) mapFind(mo *MapObj, key Val, kt types.Type) int {
	var sb strings.Builder
	conc := m.keyString(key, kt, &sb)
	if conc {
		if i, ok := mo.index[sb.String()]; ok {
			return i
		}
		if mo.nsym == 0 {
			return -1
		}
	}
	for i := range mo.keys {
		if !mo.live[i] {
			continue
		}
		c := m.eqTerm(mo.keys[i], key, kt)
		if m.branch(c) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mo *MapObj, key, val Val, kt types.Type) {
	i := m.mapFind(mo, key, kt)
	m.touchMap(mo)
	if i >= 0 {
		mo.vals[i] = val
		return
	}
	var sb strings.Builder
	if m.keyString(key, kt, &sb) {
		mo.index[sb.String()] = len(mo.keys)
	} else {
		mo.nsym++
	}
	mo.keys = append(mo.keys, key)
	mo.vals = append(mo.vals, val)
	mo.live = append(mo.live, true)
	mo.n++
}

func (m *Machine) mapDelete(mo *MapObj, key Val, kt types.Type) {
	i := m.mapFind(mo, key, kt)
	if i < 0 {
		return
	}
	m.touchMap(mo)
	var sb strings.Builder
	if m.keyString(mo.keys[i], kt, &sb) {
		delete(mo.index, sb.String())
	} else {
		mo.nsym--
	}
	mo.live[i] = false
	mo.n--
	// Compact when mostly dead.
	if len(mo.keys) > 64 && mo.n*4 < len(mo.keys) && m.noMapIter(mo) {
		var k, v []Val
		idx := map[string]int{}
		re := map[int]int{}
		for j := range mo.keys {
			if mo.live[j] {
				re[j] = len(k)
				k = append(k, mo.keys[j])
				v = append(v, mo.vals[j])
			}
		}
		for s, j := range mo.index {
			idx[s] = re[j]
		}
		mo.keys, mo.vals, mo.index = k, v, idx
		mo.live = make([]bool, len(k))
		for j := range mo.live {
			mo.live[j] = true
		}
	}
}

// noMapIter is conservative: compaction is only done when no iterator is known to be active.
func (m *Machine) noMapIter(mo *MapObj) bool { return m.activeIters == 0 }

func (m *Machine) newMap() *MapObj {
	return &MapObj{index: map[string]int{}, epoch: m.epoch}
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
