package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Frame is an activation record; it is copied on write across choice points.
type Frame struct {
	fn      *Func
	regs    []Val
	pc      int
	blk     int32 // current block, for phis
	defers  []deferRec
	dst     int32 // register of the caller receiving the result
	epoch   uint32
	isDefer bool // run as a deferred call
	discard bool // result is dropped (deferred or go)
	unwind  bool // this frame is unwinding because of a panic
	recov   bool // a panic was recovered in this frame
}

type deferRec struct {
	fn   *Func
	bi   *Ins
	cl   *Closure
	args []Val
}

type panicRec struct {
	val       Val
	recovered bool
	depth     int // index in stack of the frame whose defers are being run
	where     string
}

const (
	gRunnable = iota
	gBlocked
	gSleeping
	gDone
)

// G is a goroutine.
type G struct {
	id     int
	stack  []*Frame
	status int
	wait   any
	wakeAt int64
	panics []*panicRec
	vc     vclock
	passed bool // the pending sync operation has passed its scheduling point
	regd   any  // channel on which this goroutine is registered as a waiting receiver
	why    string
	name   string

	// A pending operation on unbuffered channels.
	selIn   *Ins
	selCh   []*Chan
	selV    []Val
	selDone *selDone
	sendV   Val
	sent    bool
}

type misc struct {
	clock    int64
	nvars    int
	ninputs  int
	ncover   int
	nknown   int
	nlog     int
	nglobals int
	preempt  int
	steps    int64
	explore  bool
	sched    int
	cur      int
	phase    uint8
	mapOrder bool
	mapDev   int // how often the order may still deviate, -1 for any number of times
	exitOK   bool
	wakeups  int
	last     int
	raceOn   bool
	solo     int
}

type dec struct {
	v       uint16
	implied bool
	x       uint64
}

type choice struct {
	mark    int
	gs      []*G
	misc    misc
	pcLen   int
	domMark int
	decLen  int
	decs    []dec // decisions of the re-executed instruction, the last one being the next to take
	n       int   // number of alternatives of the last decision
	model   Model
	modelOK bool
	pending []uint16
}

type input struct {
	kind string
	t    *Term
	conc uint64
}

type domain struct {
	bits   [4]uint64
	impure bool
}

type domUndo struct {
	v   *Term
	old domain
	had bool
}

// Limits bounds the exploration of one job.
type Limits struct {
	maxSteps    int64 // per path
	maxPaths    int64
	deadline    time.Time
	maxDepth    int
	preemptions int
	delays      int
}

// Violation is a counterexample.
type Violation struct {
	Msg    string     `json:"msg"`
	Entry  string     `json:"entry"`
	Where  string     `json:"where"`
	Inputs []InputVal `json:"inputs"`
	Sched  []uint16   `json:"schedule,omitempty"`
	Known  []string   `json:"known,omitempty"`
	Kind   string     `json:"kind"`
	Trace  []string   `json:"trace,omitempty"`
	Native string     `json:"native,omitempty"`
	// Schedule is set when scheduling decisions are part of the counterexample.
	Schedule bool `json:"schedule_dependent,omitempty"`
	decs     []dec
	model    Model
}

// InputVal is a concrete value of a symbolic input.
type InputVal struct {
	Kind string `json:"kind"`
	V    uint64 `json:"v"`
}

// Sample is a completed path with a model of its path condition.
type Sample struct {
	Inputs []InputVal `json:"inputs"`
	Desc   string     `json:"desc"`
	Log    []string   `json:"log"`
	Sched  bool       `json:"sched"`
}

// Stats are counters of a machine.
type Stats struct {
	Paths, Complete, Infeasible, Skipped int64
	Incomplete                           map[string]int64
	Covers                               map[string]int64
	Obligations, ObSimpl, ObSolver       int64
	ObUnknown                            int64
	Instr                                int64
	Branches, DomDecided, SolverDecided  int64
	Choices                              int64
	Switches                             int64
	Samples                              []Sample
	MaxSteps                             int64
	PathChecks                           int64
	Races                                int64
}

// Machine executes one job at a time.
type Machine struct {
	L      *Loaded
	tt     *TermTable
	S      *Solver
	lim    *Limits
	params map[string]int
	pstr   map[string]string
	stats  *Stats
	misc

	epoch uint32
	trail []trailRec
	gs    []*G
	g     *G
	top   *Frame
	gl    []*Obj

	pc      []*Term
	model   Model
	modelOK bool
	doms    map[*Term]domain
	domTr   []domUndo
	truth   map[*Term]*[4]uint64

	decs      []dec
	forced    []dec
	forcePos  int
	instrDec0 int
	instrPC0  int
	instrDom0 int
	choices   []*choice

	inputs []input
	covers []string
	knowns []string
	logs   []Val

	viol        *Violation
	endPath     bool
	endWhy      string
	activeIters int
	idc         int32

	entry    string
	initing  bool
	trace    bool
	onPath   func()
	onViol   func(v *Violation) bool
	share    func() bool // reports whether a choice should be given away
	give     func(decs []dec)
	schedFn  *Func
	syncVC   map[any]vclock
	races    map[string]bool
	lastDump string
}

type goPanic struct{ v Val }
type blockSig struct {
	on  any
	why string
}
type endSig struct{ why string }
type violSig struct{}

func (m *Machine) fr() *Frame {
	f := m.top
	if f.epoch != m.epoch {
		return m.own()
	}
	return f
}

func (m *Machine) own() *Frame {
	f := m.top
	if f.epoch == m.epoch {
		return f
	}
	n := *f
	n.regs = append([]Val(nil), f.regs...)
	n.defers = append([]deferRec(nil), f.defers...)
	n.epoch = m.epoch
	m.top = &n
	m.g.stack[len(m.g.stack)-1] = &n
	return &n
}

func (m *Machine) set(d int32, v Val) {
	f := m.top
	if f.epoch != m.epoch {
		f = m.own()
	}
	f.regs[d] = v
}

func (m *Machine) val(o *opd) Val {
	switch o.k {
	case 'r':
		return m.top.regs[o.i]
	case 'c':
		return o.v
	case 'g':
		return Val{R: m.global(int(o.i))}
	}
	return Val{}
}

func (m *Machine) global(i int) *Obj {
	for len(m.gl) <= i {
		m.gl = append(m.gl, nil)
	}
	if o := m.gl[i]; o != nil {
		return o
	}
	m.L.mu.Lock()
	t := deref(m.L.gl[i].Type())
	m.L.mu.Unlock()
	o := m.newObj(t)
	o.epoch = 0
	o.noini = m.L.uninit(m.L.gl[i], m.initing)
	if m.L.gl[i].Name() == "Args" && m.L.gl[i].Pkg.Pkg.Path() == "os" {
		o.cells[0] = Val{R: &Slice{&Obj{cells: []Val{m.str("flatjsonl")}}, 0, 1, 1}}
	}
	m.gl[i] = o
	return o
}

// ---- path condition ----

func (m *Machine) addPC(t *Term) {
	if t == m.tt.True {
		return
	}
	if t.op == OpBAnd {
		for _, a := range t.args {
			m.addPC(a)
		}
		return
	}
	m.pc = append(m.pc, t)
	if m.modelOK && m.tt.Eval(t, m.model) == 0 {
		m.modelOK = false
	}
	if t.nvars == 1 && (t.supp.w == 8 || t.supp.w == 0) {
		d, had := m.getDom(t.supp)
		m.domTr = append(m.domTr, domUndo{t.supp, d, had})
		tb := m.truthOf(t)
		for i := range d.bits {
			d.bits[i] &= tb[i]
		}
		m.doms[t.supp] = d
		return
	}
	var vs []*Term
	Vars(t, map[*Term]bool{}, &vs)
	for _, v := range vs {
		d, had := m.getDom(v)
		if d.impure {
			continue
		}
		m.domTr = append(m.domTr, domUndo{v, d, had})
		d.impure = true
		m.doms[v] = d
	}
}

func (m *Machine) getDom(v *Term) (domain, bool) {
	d, ok := m.doms[v]
	if !ok {
		if v.w == 0 {
			d.bits[0] = 3
		} else {
			d.bits = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		}
	}
	return d, ok
}

// narrow replaces a term of a single byte with an equivalent one (for all the
// values that the byte can have on this path) without divisions: a constant, or
// the byte plus a constant.
func (m *Machine) narrow(t *Term) *Term {
	if t.nvars != 1 || t.supp.w != 8 {
		return t
	}
	d, ok := m.doms[t.supp]
	if !ok {
		return t
	}
	mo := Model{}
	n, same, diff := 0, true, true
	var v0, d0 uint64
	for i := uint64(0); i < 256; i++ {
		if d.bits[i/64]>>(i%64)&1 == 0 {
			continue
		}
		mo[t.supp] = i
		v := m.tt.Eval(t, mo)
		dv := (v - i) & mask(t.w)
		if n == 0 {
			v0, d0 = v, dv
		} else {
			same = same && v == v0
			diff = diff && dv == d0
		}
		n++
		if !same && !diff {
			return t
		}
	}
	switch {
	case n == 0:
		return t
	case same:
		return m.tt.Const(t.w, v0)
	case t.w > 8:
		return m.tt.Bin(OpAdd, m.tt.Resize(t.supp, t.w, false), m.tt.Const(t.w, d0))
	}
	return t
}

func (m *Machine) truthOf(t *Term) *[4]uint64 {
	if r, ok := m.truth[t]; ok {
		return r
	}
	r := &[4]uint64{}
	n := 256
	if t.supp.w == 0 {
		n = 2
	}
	mo := Model{}
	for i := 0; i < n; i++ {
		mo[t.supp] = uint64(i)
		if m.tt.Eval(t, mo) != 0 {
			r[i/64] |= 1 << (uint(i) % 64)
		}
	}
	m.truth[t] = r
	return r
}

func (m *Machine) undoDoms(mark int) {
	for i := len(m.domTr) - 1; i >= mark; i-- {
		u := m.domTr[i]
		if u.had {
			m.doms[u.v] = u.old
		} else {
			delete(m.doms, u.v)
		}
	}
	m.domTr = m.domTr[:mark]
}

func (m *Machine) ensureModel() bool {
	if m.modelOK {
		return true
	}
	r, mo := m.S.Check(m.pc, m.tt.True)
	switch r {
	case Sat:
		m.model = mo
		m.modelOK = true
		return true
	case Unsat:
		panic(endSig{"infeasible"})
	}
	return false
}

// feasible decides whether pc && c is satisfiable; a model is returned when it is and the model is known.
func (m *Machine) feasible(c *Term) (bool, Model) {
	r, mo := m.S.Check(m.pc, c)
	switch r {
	case Sat:
		return true, mo
	case Unsat:
		return false, nil
	}
	panic(endSig{"solver unknown"})
}

// branch decides the truth of c on this path, forking if both outcomes are possible.
func (m *Machine) branch(c *Term) bool {
	if c.op == OpConst {
		return c.val != 0
	}
	m.stats.Branches++
	if m.forcePos < len(m.forced) {
		d := m.forced[m.forcePos]
		m.forcePos++
		m.decs = append(m.decs, d)
		if !d.implied {
			if d.v != 0 {
				m.addPC(c)
			} else {
				m.addPC(m.tt.Not(c))
			}
		}
		return d.v != 0
	}
	if m.initing {
		panic(unsup("symbolic branch in init"))
	}
	var tOK, fOK bool
	var other Model
	nc := m.tt.Not(c)
	single := c.nvars == 1 && (c.supp.w == 8 || c.supp.w == 0)
	pure := false
	var dm domain
	var tb *[4]uint64
	if single {
		dm, _ = m.getDom(c.supp)
		tb = m.truthOf(c)
		for i := range dm.bits {
			if dm.bits[i]&tb[i] != 0 {
				tOK = true
			}
			if dm.bits[i]&^tb[i] != 0 {
				fOK = true
			}
		}
		if !tOK && !fOK {
			panic(endSig{"infeasible"})
		}
		if !(tOK && fOK) {
			m.stats.DomDecided++
			m.decs = append(m.decs, dec{v: b16(tOK), implied: true})
			return tOK
		}
		pure = !dm.impure
	}
	if !m.ensureModel() {
		panic(endSig{"solver unknown"})
	}
	side := m.tt.Eval(c, m.model) != 0
	if pure {
		m.stats.DomDecided++
		other = make(Model, len(m.model)+1)
		for k, v := range m.model {
			other[k] = v
		}
		for i := range dm.bits {
			x := dm.bits[i] & tb[i]
			if side {
				x = dm.bits[i] &^ tb[i]
			}
			if x != 0 {
				for j := 0; j < 64; j++ {
					if x&(1<<uint(j)) != 0 {
						other[c.supp] = uint64(i*64 + j)
						break
					}
				}
				break
			}
		}
	} else {
		m.stats.SolverDecided++
		oc := c
		if side {
			oc = nc
		}
		ok, mo := m.feasible(oc)
		if !ok {
			m.decs = append(m.decs, dec{v: b16(side), implied: true})
			return side
		}
		other = mo
	}
	m.pushChoice([]uint16{b16(!side)}, other, other != nil)
	m.decs = append(m.decs, dec{v: b16(side)})
	if side {
		m.addPC(c)
	} else {
		m.addPC(nc)
	}
	return side
}

func b16(b bool) uint16 {
	if b {
		return 1
	}
	return 0
}

// choose forks n ways without constraining anything else.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.forcePos < len(m.forced) {
		d := m.forced[m.forcePos]
		m.forcePos++
		m.decs = append(m.decs, d)
		return int(d.v)
	}
	var alts []uint16
	for i := 1; i < n; i++ {
		alts = append(alts, uint16(i))
	}
	m.pushChoice(alts, m.model, m.modelOK)
	m.decs = append(m.decs, dec{})
	return 0
}

func (m *Machine) pushChoice(alts []uint16, model Model, ok bool) {
	m.stats.Choices++
	if forkProf != nil {
		w := m.where()
		forkMu.Lock()
		forkProf[w]++
		forkMu.Unlock()
	}
	c := &choice{
		mark: len(m.trail), misc: m.misc, pcLen: m.instrPC0, domMark: m.instrDom0,
		decLen: m.instrDec0, model: model, modelOK: ok, pending: alts,
	}
	c.decs = append([]dec(nil), m.decs[m.instrDec0:]...)
	c.gs = m.snapshotGs()
	m.choices = append(m.choices, c)
	m.epoch++
}

func (m *Machine) snapshotGs() []*G {
	r := make([]*G, len(m.gs))
	for i, g := range m.gs {
		if g.status == gDone {
			r[i] = g
			continue
		}
		c := *g
		c.stack = append([]*Frame(nil), g.stack...)
		c.panics = append([]*panicRec(nil), g.panics...)
		r[i] = &c
	}
	return r
}

// backtrack moves to the next unexplored alternative; false when there is none.
func (m *Machine) backtrack() bool {
	for len(m.choices) > 0 {
		c := m.choices[len(m.choices)-1]
		if len(c.pending) == 0 {
			m.choices = m.choices[:len(m.choices)-1]
			continue
		}
		alt := c.pending[0]
		c.pending = c.pending[1:]
		last := len(c.pending) == 0
		m.undo(c.mark)
		m.undoDoms(c.domMark)
		m.misc = c.misc
		m.pc = m.pc[:c.pcLen]
		m.decs = m.decs[:c.decLen]
		m.inputs = m.inputs[:m.ninputs]
		m.covers = m.covers[:m.ncover]
		m.knowns = m.knowns[:m.nknown]
		m.logs = m.logs[:m.nlog]
		m.forced = append(append(m.forced[:0:0], c.decs...), dec{v: alt})
		m.forcePos = 0
		m.model, m.modelOK = c.model, c.modelOK
		if last {
			m.gs = c.gs
			m.choices = m.choices[:len(m.choices)-1]
		} else {
			m.gs = (&Machine{gs: c.gs}).snapshotGs()
		}
		m.epoch++
		m.setCur()
		return true
	}
	return false
}

func (m *Machine) setCur() {
	m.g = m.gs[m.cur]
	if len(m.g.stack) > 0 {
		m.top = m.g.stack[len(m.g.stack)-1]
	} else {
		m.top = nil
	}
}

// ---- running ----

// Run explores the subtree rooted at prefix.
func (m *Machine) Run(entry *Func, prefix []dec) {
	m.forced = prefix
	m.forcePos = 0
	m.decs = m.decs[:0]
	m.pc = m.pc[:0]
	m.choices = nil
	m.inputs, m.covers, m.knowns, m.logs = nil, nil, nil, nil
	m.model, m.modelOK = Model{}, true
	m.doms = map[*Term]domain{}
	m.domTr = nil
	m.syncVC = map[any]vclock{}
	m.misc = misc{raceOn: false}
	m.epoch++
	mark := len(m.trail)
	if m.epoch < 2 {
		m.epoch = 2
	}
	m.gs = nil
	m.newG(entry, nil, nil, "main")
	m.cur = 0
	m.setCur()
	for {
		m.runPath()
		m.stats.Paths++
		if m.steps > m.stats.MaxSteps {
			m.stats.MaxSteps = m.steps
		}
		if m.onPath != nil {
			m.onPath()
		}
		if m.viol != nil {
			if m.onViol == nil || m.onViol(m.viol) {
				break
			}
			m.viol = nil
		}
		if time.Now().After(m.lim.deadline) {
			if m.pendingWork() {
				m.stats.Incomplete["time budget"]++
			}
			break
		}
		for m.share != nil && m.share() {
			if !m.giveAway() {
				break
			}
		}
		if !m.backtrack() {
			break
		}
	}
	m.undo(mark)
	m.epoch++
}

func (m *Machine) pendingWork() bool {
	for _, c := range m.choices {
		if len(c.pending) > 0 {
			return true
		}
	}
	return false
}

// giveAway hands out the shallowest pending alternative.
func (m *Machine) giveAway() bool {
	for _, c := range m.choices {
		if len(c.pending) == 0 {
			continue
		}
		alt := c.pending[len(c.pending)-1]
		c.pending = c.pending[:len(c.pending)-1]
		p := append([]dec(nil), m.decs[:c.decLen]...)
		p = append(p, c.decs...)
		p = append(p, dec{v: alt})
		m.give(p)
		return true
	}
	return false
}

func (m *Machine) newG(f *Func, args []Val, binds []Val, name string) *G {
	g := &G{id: len(m.gs), name: name}
	m.gs = append(m.gs, g)
	fr := m.mkFrame(f, args, binds)
	fr.dst = -1
	fr.discard = true
	g.stack = append(g.stack, fr)
	return g
}

func (m *Machine) mkFrame(f *Func, args, binds []Val) *Frame {
	if f.redir != nil {
		f = m.L.fn(f.redir)
	}
	if f.state.Load() == 0 {
		m.L.compile(f)
	}
	f.execd.Add(1)
	fr := &Frame{fn: f, regs: make([]Val, f.nregs), epoch: m.epoch, dst: -1}
	n := copy(fr.regs, args)
	copy(fr.regs[n:], binds)
	return fr
}

// runPath runs until the current path ends.
func (m *Machine) runPath() {
	m.endPath = false
	m.endWhy = ""
	for !m.endPath {
		m.runLoop()
	}
	switch {
	case m.endWhy == "done":
		m.stats.Complete++
		for _, c := range m.covers {
			m.stats.Covers[c]++
		}
		if n := m.stats.Complete; n&(n-1) == 0 || n == 3 || n == 6 || (n%500 == 0 && len(m.stats.Samples) < 40) {
			if m.safeModel() {
				sm := Sample{Desc: m.describeInputs(m.model), Sched: m.misc.sched > 0}
				for _, in := range m.inputs {
					sm.Inputs = append(sm.Inputs, InputVal{in.kind, m.inVal(in, m.model)})
				}
				for _, x := range m.logs {
					sm.Log = append(sm.Log, m.evalStr(x, m.model))
				}
				m.stats.Samples = append(m.stats.Samples, sm)
			}
		}
	case m.endWhy == "infeasible":
		m.stats.Infeasible++
	case m.endWhy == "skip":
		m.stats.Skipped++
	case m.endWhy == "violation":
	case m.endWhy == "known":
	default:
		m.stats.Incomplete[m.endWhy]++
		if os.Getenv("GOSYM_DEBUG") != "" && m.stats.Incomplete[m.endWhy] == 1 {
			fmt.Fprintf(os.Stderr, "incomplete: %s\n%s\n", m.endWhy, m.lastDump)
		}
	}
}

func (m *Machine) safeModel() (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	return m.ensureModel()
}

// evalStr is the value of a string under a model.
func (m *Machine) evalStr(v Val, mo Model) string {
	if s, ok := strConc(v); ok {
		return s
	}
	o := v.R.(*Obj)
	off, n := strOff(v), strLen(v)
	b := make([]byte, n)
	for i := range b {
		if o.sym[off+i] != nil {
			b[i] = byte(m.tt.Eval(o.sym[off+i], mo))
		} else {
			b[i] = o.bytes[off+i]
		}
	}
	return string(b)
}

func (m *Machine) describeInputs(mo Model) string {
	var sb strings.Builder
	for i := 0; i < len(m.inputs); i++ {
		in := m.inputs[i]
		if in.kind == "byte" {
			// Runs of bytes are rendered as a string.
			var b []byte
			for i < len(m.inputs) && m.inputs[i].kind == "byte" {
				b = append(b, byte(m.inVal(m.inputs[i], mo)))
				i++
			}
			i--
			fmt.Fprintf(&sb, " %q", string(b))
			continue
		}
		fmt.Fprintf(&sb, " %s=%d", in.kind, int64(m.inVal(in, mo)))
	}
	if m.misc.sched > 0 {
		fmt.Fprintf(&sb, " schedule-choices=%d", m.misc.sched)
	}
	if sb.Len() == 0 {
		return "(no symbolic input)"
	}
	return strings.TrimSpace(sb.String())
}

func (m *Machine) inVal(in input, mo Model) uint64 {
	if in.t == nil {
		return in.conc
	}
	return mo[in.t]
}

func (m *Machine) finish(why string) {
	m.endPath = true
	m.endWhy = why
}

// violation records a counterexample; the model must satisfy the path condition and the failure.
func (m *Machine) violation(kind, msg string, mo Model) {
	v := &Violation{Msg: msg, Entry: m.entry, Kind: kind, Where: m.where()}
	for _, in := range m.inputs {
		v.Inputs = append(v.Inputs, InputVal{in.kind, m.inVal(in, mo)})
	}
	v.Known = append([]string(nil), m.knowns...)
	v.Schedule = m.misc.sched > 0
	v.decs = append([]dec(nil), m.decs...)
	v.model = mo
	v.Trace = strings.Split(strings.TrimSpace(m.dump()), "\n")
	m.viol = v
}

func (m *Machine) where() string {
	if m.top == nil {
		return ""
	}
	for i := len(m.g.stack) - 1; i >= 0; i-- {
		f := m.g.stack[i]
		if f.pc < len(f.fn.code) && !f.fn.isRT {
			return f.fn.name + " " + m.L.pos(f.fn.code[f.pc].pos)
		}
	}
	return ""
}

func (m *Machine) dump() string {
	var sb strings.Builder
	for _, g := range m.gs {
		if g.status == gDone {
			continue
		}
		fmt.Fprintf(&sb, "g%d %s status=%d %s\n", g.id, g.name, g.status, g.why)
		for i := len(g.stack) - 1; i >= 0 && i > len(g.stack)-40; i-- {
			f := g.stack[i]
			p := "-"
			if f.pc < len(f.fn.code) {
				for pc := f.pc; pc >= 0; pc-- {
					if f.fn.code[pc].pos.IsValid() {
						p = m.L.pos(f.fn.code[pc].pos)
						break
					}
				}
			}
			fmt.Fprintf(&sb, "  %s %s\n", f.fn.name, p)
		}
	}
	return sb.String()
}

// failNow ends the path with a violation under the current path condition.
func (m *Machine) failNow(kind, msg string) {
	r, mo := m.S.Check(m.pc, m.tt.True)
	m.stats.PathChecks++
	switch r {
	case Sat:
		m.violation(kind, msg, mo)
		m.finish("violation")
	case Unsat:
		m.finish("infeasible")
	default:
		m.finish("solver unknown")
	}
}

// runLoop executes instructions, converting signals raised by intrinsics.
func (m *Machine) runLoop() {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case goPanic:
				m.startPanic(r.v)
			case blockSig:
				m.block(r)
			case endSig:
				if r.why == "step budget" {
					m.failNow("hang", "no end within the step budget")
					return
				}
				m.lastDump = m.dump()
				m.finish(r.why)
			case unsupErr:
				m.lastDump = m.dump()
				m.finish("unsupported: " + r.msg)
			case raceSig:
				m.stats.Races++
				m.failNow("race", r.msg)
			case sleepSig:
			case violSig:
				m.finish("violation")
			default:
				if os.Getenv("GOSYM_DEBUG") != "" && !m.initing {
					fmt.Fprintln(os.Stderr, "engine panic:", r, "\n", m.dump())
					panic(r)
				}
				m.lastDump = m.dump()
				m.finish(fmt.Sprintf("engine: %v", r))
			}
		}
	}()
	for !m.endPath {
		if m.phase != 0 {
			m.schedule()
			continue
		}
		m.loop()
	}
}

// ---- panics ----

func (m *Machine) runtimeErr(msg string) Val {
	return Val{R: &Iface{t: m.L.rtErr, v: m.str("runtime error: " + msg)}}
}

func (m *Machine) panicStr(msg string) Val {
	return Val{R: &Iface{t: m.L.rtStr, v: m.str(msg)}}
}

func (m *Machine) startPanic(v Val) {
	m.g.panics = append(m.g.panics, &panicRec{val: v, depth: len(m.g.stack) - 1, where: m.where()})
	m.unwindStep()
}

// unwindStep continues the innermost panic of the current goroutine.
func (m *Machine) unwindStep() {
	for {
		p := m.g.panics[len(m.g.panics)-1]
		if len(m.g.stack) == 0 {
			m.failNow("panic", "panic: "+m.panicText(p.val)+" at "+p.where)
			return
		}
		m.top = m.g.stack[len(m.g.stack)-1]
		f := m.own()
		f.unwind = true
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			np := *p
			np.depth = len(m.g.stack) - 1
			m.g.panics[len(m.g.panics)-1] = &np
			m.callDefer(d)
			return
		}
		// A frame started by a deferred call of an older panic: that panic is superseded.
		m.g.stack = m.g.stack[:len(m.g.stack)-1]
		for len(m.g.panics) > 1 && m.g.panics[len(m.g.panics)-2].depth >= len(m.g.stack) {
			n := len(m.g.panics)
			m.g.panics[n-2] = m.g.panics[n-1]
			m.g.panics = m.g.panics[:n-1]
		}
	}
}

func (m *Machine) panicText(v Val) string {
	i, ok := v.R.(*Iface)
	if !ok {
		return "nil"
	}
	if s, ok := strConc(m.tryStr(i.v)); ok && (i.t == m.L.rtErr || i.t == m.L.rtStr) {
		return s
	}
	if i.t == m.L.rtStr {
		return strDbg(i.v)
	}
	return i.t.t.String()
}

func (m *Machine) tryStr(v Val) Val {
	if _, ok := v.R.(*Obj); ok {
		return v
	}
	if v.R == nil {
		return Val{}
	}
	return Val{R: 0}
}

func (m *Machine) callDefer(d deferRec) {
	if d.bi != nil {
		m.builtinDefer(d)
		return
	}
	fn := d.fn
	var binds []Val
	if d.cl != nil {
		fn, binds = d.cl.fn, d.cl.binds
	}
	if fn.nat != nil {
		fn.nat(m, nil, d.args)
		// Natives never recover; continue.
		m.afterDefer()
		return
	}
	fr := m.mkFrame(fn, d.args, binds)
	fr.isDefer = true
	fr.discard = true
	m.g.stack = append(m.g.stack, fr)
	m.top = fr
}

// afterDefer is called when a deferred call returned to m.top.
func (m *Machine) afterDefer() {
	m.top = m.g.stack[len(m.g.stack)-1]
	f := m.own()
	if !f.unwind {
		return // RunDefers is re-executed
	}
	p := m.g.panics[len(m.g.panics)-1]
	if !p.recovered {
		m.unwindStep()
		return
	}
	m.g.panics = m.g.panics[:len(m.g.panics)-1]
	f.unwind = false
	f.recov = true
	m.finishRecover()
}

// finishRecover runs the remaining defers of a frame that recovered and then returns from it.
func (m *Machine) finishRecover() {
	f := m.own()
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		m.callDefer(d)
		return
	}
	if f.fn.recover >= 0 {
		f.recov = false
		f.pc = f.fn.recover
		return
	}
	var res []Val
	for i := 0; i < f.fn.results.Len(); i++ {
		res = append(res, m.zero(f.fn.results.At(i).Type()))
	}
	m.ret(res)
}

// ret returns from the top frame.
func (m *Machine) ret(res []Val) {
	f := m.top
	n := len(m.g.stack) - 1
	m.g.stack[n] = nil
	m.g.stack = m.g.stack[:n]
	if n == 0 {
		m.g.status = gDone
		m.top = nil
		if m.g.id == 0 {
			m.finish("done")
			return
		}
		m.raceEnd()
		m.phase = 1
		return
	}
	m.top = m.g.stack[n-1]
	if f.isDefer {
		c := m.own()
		if c.unwind {
			m.afterDefer()
		} else if c.recov {
			m.finishRecover()
		}
		return
	}
	c := m.own()
	if f.dst >= 0 {
		switch len(res) {
		case 0:
		case 1:
			c.regs[f.dst] = res[0]
		default:
			c.regs[f.dst] = Val{R: Tuple(append([]Val(nil), res...))}
		}
	}
	c.pc++
}

// ---- init ----

// InitAll runs package initialisers.
func (m *Machine) InitAll() {
	m.initing = true
	m.epoch = 1
	for _, p := range m.L.initOrder {
		if denyInit(p.Pkg.Path()) {
			continue
		}
		f := p.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		m.gs = nil
		m.misc = misc{}
		m.stats.Incomplete = map[string]int64{}
		t0 := time.Now()
		m.newG(m.L.fn(f), nil, nil, "init")
		m.cur = 0
		m.setCur()
		m.forced = nil
		m.endPath = false
		for !m.endPath {
			m.runLoop()
		}
		if m.viol != nil {
			m.endWhy = m.viol.Msg + " @ " + m.viol.Where
			m.viol = nil
		}
		if os.Getenv("GOSYM_INIT") != "" && (m.endWhy != "done" || time.Since(t0) > 20*time.Millisecond) {
			fmt.Fprintf(os.Stderr, "init %s: %s (%v, %d steps)\n", p.Pkg.Path(), m.endWhy, time.Since(t0), m.steps)
		}
		if m.endWhy != "done" {
			m.failedInit(p)
		}
	}
	// Variables that a model has set.
	for _, o := range m.gl {
		if o != nil && o.noini && o.sym == nil {
			for _, c := range o.cells {
				if c.N != 0 || c.R != nil {
					o.noini = false
				}
			}
		}
	}
	m.trail = m.trail[:0]
	m.initing = false
	m.gs = nil
	m.epoch = 2
}

var deniedInit = map[string]bool{
	"runtime": true, "reflect": true, "os": true, "syscall": true, "fmt": true, "net/http": true, "log": true,
	"internal/godebug": true, "internal/poll": true, "internal/cpu": true, "internal/testlog": true, "internal/syscall/unix": true,
	"net": true, "crypto": true, "testing": true, "encoding/gob": true, "os/signal": true, "internal/reflectlite": true,
	"database/sql": true, "database/sql/driver": true, "io/fs": false, "path/filepath": false, "math/rand": true, "math/rand/v2": true,
	"internal/bisect": true, "sync": true, "sync/atomic": true, "internal/sync": true, "internal/runtime/maps": true,
	"os/exec": true, "os/user": true, "text/template": true, "html/template": true, "runtime/pprof": true, "runtime/trace": true,
	"runtime/debug": true, "log/slog": true, "encoding/json": true, "compress/gzip": true, "compress/flate": true,
	"hash/crc32": true, "encoding/xml": true, "regexp": false, "internal/abi": true, "unique": true, "weak": true, "iter": true,
	"math/big": true, "go/token": true, "go/ast": true, "encoding/asn1": true, "mime": true, "mime/multipart": true, "embed": true,
	"internal/oserror": false, "net/url": false, "net/netip": false, "internal/strconv": false,
}

// failedInit marks the variables that the initialiser of the package did not get to.
func (m *Machine) failedInit(p *ssa.Package) {
	m.L.mu.Lock()
	if m.L.failed == nil {
		m.L.failed = map[*ssa.Package]bool{}
	}
	m.L.failed[p] = true
	m.L.mu.Unlock()
	for i, o := range m.gl {
		if o == nil || o.noini || !m.L.uninit(m.L.gl[i], false) || m.L.gl[i].Pkg != p {
			continue
		}
		zero := o.sym == nil
		for _, c := range o.cells {
			zero = zero && c.N == 0 && c.R == nil
		}
		for _, b := range o.bytes {
			zero = zero && b == 0
		}
		o.noini = zero
	}
}

// uninit reports whether g has an initialiser that is not run.
func (l *Loaded) uninit(g *ssa.Global, initing bool) bool {
	p := g.Pkg
	if p == nil {
		return false
	}
	if !denyInit(p.Pkg.Path()) {
		l.mu.Lock()
		f := l.failed[p]
		l.mu.Unlock()
		if !f || initing {
			return false
		}
	}
	if p.Pkg.Path() == "os" && (strings.HasPrefix(g.Name(), "Std") || g.Name() == "Args") {
		return false // only handed to modelled functions, or set before the initialisers run
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.inits == nil {
		l.inits = map[*ssa.Package]map[*ssa.Global]bool{}
	}
	if l.inits[p] == nil {
		set := map[*ssa.Global]bool{}
		for _, mb := range p.Members {
			f, ok := mb.(*ssa.Function)
			if !ok || (f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#")) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if x, ok := (*op).(*ssa.Global); ok {
							set[x] = true
						}
					}
				}
			}
		}
		l.inits[p] = set
	}
	return l.inits[p][g] && g.Name() != "init$guard"
}

func denyInit(p string) bool {
	if v, ok := deniedInit[p]; ok {
		return v
	}
	for _, pre := range []string{"modernc.org/", "crypto/", "vendor/", "golang.org/x/", "net/", "github.com/klauspost/", "internal/", "github.com/alecthomas", "gopkg.in/", "github.com/stretchr", "github.com/pmezard", "github.com/davecgh", "github.com/mattn", "github.com/dustin", "github.com/google", "github.com/ncruces", "github.com/remyoudompheng", "github.com/yudai", "github.com/swaggest", "github.com/yosuke-furukawa", "github.com/bool64/dev", "runtime/", "go/", "text/", "github.com/puzpuzpuz"} {
		if strings.HasPrefix(p, pre) {
			return true
		}
	}
	return false
}

func sortedCounts(m map[string]int64) []string {
	var r []string
	for k, v := range m {
		r = append(r, fmt.Sprintf("%s: %d", k, v))
	}
	sort.Strings(r)
	return r
}

func (m *Machine) newObj(t types.Type) *Obj {
	if a, ok := t.Underlying().(*types.Array); ok && isByte(a.Elem()) {
		return &Obj{bytes: make([]byte, a.Len()), isB: true, epoch: m.epoch}
	}
	return &Obj{cells: make([]Val, m.L.sizeOf(t)), epoch: m.epoch}
}

// forkProf counts the places where paths split, for development.
var (
	forkProf map[string]int
	forkMu   sync.Mutex
)
