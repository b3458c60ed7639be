package main

import (
	"fmt"
	"go/types"
)

type vclock []uint32

func (a vclock) join(b vclock) vclock {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make(vclock, n)
	copy(r, a)
	for i, x := range b {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}

func (a vclock) at(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a vclock) inc(i int) vclock {
	n := len(a)
	if i >= n {
		n = i + 1
	}
	r := make(vclock, n)
	copy(r, a)
	r[i]++
	return r
}

type access struct {
	g   int32
	clk uint32
	pos string
}

type raceInfo struct {
	w     map[int]access
	r     map[int][]access
	epoch uint32
}

func (m *Machine) syncPoint() bool {
	if !m.explore || m.g.passed || m.solo > 0 {
		return false
	}
	n := 0
	for _, g := range m.gs {
		if g.status == gRunnable {
			n++
		}
	}
	if n <= 1 {
		return false
	}
	m.phase = 2
	return true
}

func (m *Machine) passed() { m.g.passed = false }

func (m *Machine) block(b blockSig) {
	m.g.status = gBlocked
	m.g.wait = b.on
	m.g.why = b.why
	m.phase = 1
}

func (m *Machine) wake(on any) {
	for _, g := range m.gs {
		if g.status == gBlocked && (g.wait == on || g.wait == any(selWait{})) {
			g.status = gRunnable
			g.wait = nil
			g.why = ""
		}
	}
}

const maxVirtual = int64(3600) * 1e9

func (m *Machine) schedule() {
	m.instrDec0 = len(m.decs)
	m.instrPC0 = len(m.pc)
	m.instrDom0 = len(m.domTr)
	ph := m.phase
	for {
		var run []int
		for i := range m.gs {
			id := (m.cur + i) % len(m.gs)
			if ph == 1 && i == 0 && m.gs[id].status != gRunnable {
				continue
			}
			if m.gs[id].status == gRunnable {
				run = append(run, id)
			}
		}
		if ph == 1 && len(run) > 1 && run[0] == m.cur && !m.explore {
			run = append(run[1:], run[0])
		}
		if len(run) == 0 {
			// Advance virtual time.
			best := -1
			for i, g := range m.gs {
				if g.status == gSleeping && (best < 0 || g.wakeAt < m.gs[best].wakeAt) {
					best = i
				}
			}
			if best < 0 {
				m.stats.PathChecks++
				m.failNow("deadlock", "deadlock: all goroutines are blocked")
				return
			}
			if m.gs[best].wakeAt > m.clock {
				m.clock = m.gs[best].wakeAt
			}
			m.wakeups++
			if m.clock > maxVirtual || m.wakeups > 100000 {
				m.failNow("hang", "no progress for an hour of virtual time")
				return
			}
			m.gs[best].status = gRunnable
			m.gs[best].why = ""
			continue
		}
		pick := run[0]
		if m.explore && m.solo == 0 && len(run) > 1 {
			switch {
			case m.lim.delays > 0 && m.preempt >= m.lim.delays:
				// Every deviation from the round robin is spent.
			case m.lim.delays == 0 && ph == 2 && m.preempt >= m.lim.preemptions:
				pick = m.cur
			default:
				k := m.choose(len(run))
				pick = run[k]
				m.misc.sched++
				if k != 0 && (ph == 2 || m.lim.delays > 0) {
					m.preempt++
				}
			}
		}
		if pick != m.cur {
			m.stats.Switches++
		}
		if m.trace {
			fmt.Printf("  schedule: goroutine %d (%s)\n", pick, m.gs[pick].name)
		}
		m.cur = pick
		m.phase = 0
		m.setCur()
		m.g.passed = true
		return
	}
}

func (m *Machine) goStmt(in *Ins) {
	if m.syncPoint() {
		return
	}
	var fn *Func
	var binds, args []Val
	switch in.kind {
	case 'b':
		panic(unsup("go builtin"))
	case 'f':
		fn = in.fn
	case 'm':
		f, recv := m.resolve(in)
		fn = f
		args = append(args, recv)
	default:
		c, ok := m.val(&in.a).R.(*Closure)
		if !ok {
			m.nilPtr(Val{})
		}
		fn, binds = c.fn, c.binds
	}
	for i := range in.args {
		args = append(args, m.val(&in.args[i]))
	}
	m.fr().pc++
	if fn.nat == nil {
		g := m.newG(fn, args, binds, fn.name)
		if m.raceOn {
			g.vc = m.g.vc.inc(g.id)
			m.g.vc = m.g.vc.inc(m.g.id)
		}
	}
	m.passed()
}

// ---- channels ----

func (m *Machine) send(cv, v Val) {
	ch, ok := cv.R.(*Chan)
	if !ok {
		panic(blockSig{nil, "send on nil channel"})
	}
	if m.g.sent {
		m.g.sent = false
		return
	}
	if ch.closed {
		panic(goPanic{m.panicPlain("send on closed channel")})
	}
	if !m.trySend(ch, v) {
		m.g.sendV = v
		panic(blockSig{ch, "chan send"})
	}
}

// A peer is a goroutine that waits at the other end of an unbuffered channel;
// idx is the case of its select, or -1.
type peer struct {
	g   *G
	idx int
}

// peers finds the goroutines that can receive from ch, or send to it.
func (m *Machine) peers(ch *Chan, send, plain bool) []peer {
	var r []peer
	for _, g := range m.gs {
		if g == m.g || g.status != gBlocked {
			continue
		}
		if plain && send && g.wait == any(ch) && g.why == "chan send" {
			r = append(r, peer{g, -1})
		}
		if g.wait != any(selWait{}) {
			continue
		}
		for i, c := range g.selCh {
			if c == ch && g.selIn.sel[i].send == send {
				r = append(r, peer{g, i})
			}
		}
	}
	return r
}

func (m *Machine) pickPeer(ps []peer) peer {
	if m.explore && len(ps) > 1 {
		return ps[m.choose(len(ps))]
	}
	return ps[0]
}

// meet completes the pending operation of a peer.
func (m *Machine) meet(p peer, v Val) {
	g := p.g
	if m.raceOn {
		c := g.vc.join(m.g.vc)
		g.vc = c.inc(g.id)
		m.g.vc = c.inc(m.g.id)
	}
	if p.idx < 0 {
		g.sent = true
	} else {
		g.selDone = &selDone{p.idx, v}
	}
	g.status = gRunnable
	g.wait = nil
	g.why = ""
}

type selDone struct {
	idx int
	v   Val
}

// meetSender receives from a sender that waits.
func (m *Machine) meetSender(p peer) Val {
	v := p.g.sendV
	if p.idx >= 0 {
		v = p.g.selV[p.idx]
	}
	m.meet(p, Val{})
	return v
}

func (m *Machine) panicPlain(s string) Val { return m.runtimeErr(s) }

func (m *Machine) trySend(ch *Chan, v Val) bool {
	if ch.cap == 0 {
		if ch.recvWaiting <= len(ch.buf) {
			if ps := m.peers(ch, false, false); len(ps) > 0 {
				m.meet(m.pickPeer(ps), v)
				return true
			}
			return false
		}
	} else if len(ch.buf) >= ch.cap {
		return false
	}
	m.touchChan(ch)
	ch.buf = append(ch.buf, v)
	if m.raceOn {
		// What follows a release is not ordered by it: the clock advances afterwards.
		ch.clocks = append(ch.clocks, m.g.vc)
		// The k-th receive happens before the (k+cap)-th send completes.
		m.g.vc = m.g.vc.inc(m.g.id).join(ch.clk)
	}
	m.wake(ch)
	return true
}

func (m *Machine) recv(cv Val, et types.Type) (Val, bool) {
	ch, ok := cv.R.(*Chan)
	if !ok {
		panic(blockSig{nil, "receive on nil channel"})
	}
	v, ok, done := m.tryRecv(ch, et)
	if !done {
		if ch.cap == 0 {
			if ps := m.peers(ch, true, false); len(ps) > 0 {
				if m.g.regd == any(ch) {
					m.touchChan(ch)
					ch.recvWaiting--
					m.g.regd = nil
				}
				return m.meetSender(m.pickPeer(ps)), true
			}
		}
		if ch.cap == 0 && m.g.regd != any(ch) {
			m.touchChan(ch)
			ch.recvWaiting++
			m.g.regd = ch
			m.wake(ch)
		}
		panic(blockSig{ch, "chan receive"})
	}
	return v, ok
}

func (m *Machine) tryRecv(ch *Chan, et types.Type) (v Val, ok, done bool) {
	if len(ch.buf) > 0 {
		m.touchChan(ch)
		v = ch.buf[0]
		ch.buf = append([]Val(nil), ch.buf[1:]...)
		if m.raceOn && len(ch.clocks) > 0 {
			m.g.vc = m.g.vc.join(ch.clocks[0])
			ch.clocks = append([]vclock(nil), ch.clocks[1:]...)
			ch.clk = ch.clk.join(m.g.vc)
			m.g.vc = m.g.vc.inc(m.g.id)
		}
		if ch.cap == 0 && m.g.regd == any(ch) {
			ch.recvWaiting--
			m.g.regd = nil
		}
		m.wake(ch)
		return v, true, true
	}
	if ch.closed {
		if m.raceOn {
			m.g.vc = m.g.vc.join(ch.clk)
		}
		return m.zero(et), false, true
	}
	return Val{}, false, false
}

func (m *Machine) closeChan(cv Val) {
	ch, ok := cv.R.(*Chan)
	if !ok {
		panic(goPanic{m.panicPlain("close of nil channel")})
	}
	if ch.closed {
		panic(goPanic{m.panicPlain("close of closed channel")})
	}
	m.touchChan(ch)
	ch.closed = true
	if m.raceOn {
		ch.clk = ch.clk.join(m.g.vc)
		m.g.vc = m.g.vc.inc(m.g.id)
	}
	m.wake(ch)
}

func (m *Machine) selectStmt(in *Ins) {
	var ready []int
	for i, s := range in.sel {
		ch, ok := m.val(&s.ch).R.(*Chan)
		if !ok {
			continue
		}
		if s.send {
			if ch.closed || (ch.cap > 0 && len(ch.buf) < ch.cap) || (ch.cap == 0 && (ch.recvWaiting > len(ch.buf) || len(m.peers(ch, false, false)) > 0)) {
				ready = append(ready, i)
			}
		} else if len(ch.buf) > 0 || ch.closed || ch.cap == 0 && len(m.peers(ch, true, true)) > 0 {
			ready = append(ready, i)
		}
	}
	nrecv := 0
	for _, s := range in.sel {
		if !s.send {
			nrecv++
		}
	}
	res := make(Tuple, 2+nrecv)
	set := func(idx int, ok bool, v Val) {
		res[0] = Val{N: uint64(int64(idx))}
		res[1] = boolVal(ok)
		r := 2
		for i, s := range in.sel {
			if s.send {
				continue
			}
			if i == idx {
				res[r] = v
			} else {
				res[r] = m.zero(s.et)
			}
			r++
		}
		m.set(in.dst, Val{R: res})
		m.top.pc++
	}
	if d := m.g.selDone; d != nil {
		m.g.selDone = nil
		set(d.idx, !in.sel[d.idx].send, d.v)
		return
	}
	if len(ready) == 0 {
		if in.commaOK {
			set(-1, false, Val{})
			return
		}
		m.g.selIn = in
		m.g.selCh, m.g.selV = nil, nil
		for _, s := range in.sel {
			ch, _ := m.val(&s.ch).R.(*Chan)
			v := Val{}
			if s.send {
				v = m.val(&s.v)
			}
			m.g.selCh = append(m.g.selCh, ch)
			m.g.selV = append(m.g.selV, v)
		}
		panic(blockSig{selWait{}, "select"})
	}
	k := ready[0]
	if m.explore && len(ready) > 1 {
		k = ready[m.choose(len(ready))]
	}
	s := in.sel[k]
	ch := m.val(&s.ch).R.(*Chan)
	if s.send {
		if ch.closed {
			panic(goPanic{m.panicPlain("send on closed channel")})
		}
		m.trySend(ch, m.val(&s.v))
		set(k, false, Val{})
		return
	}
	v, ok, done := m.tryRecv(ch, s.et)
	if !done {
		v, ok = m.meetSender(m.pickPeer(m.peers(ch, true, true))), true
	}
	set(k, ok, v)
}

type selWait struct{}

// ---- races ----

func (m *Machine) raceAcc(o *Obj, off, n int, write bool) {
	if m.top.fn.noRace {
		return
	}
	m.raceObj(o, off, n, write)
}

// raceObj is raceAcc for the accesses of models on behalf of the functions they stand for.
func (m *Machine) raceObj(o *Obj, off, n int, write bool) {
	if o.konst || n > 4096 {
		return
	}
	if o.race == nil || o.race.epoch != m.epoch {
		old := o.race
		nr := &raceInfo{w: map[int]access{}, r: map[int][]access{}, epoch: m.epoch}
		if old != nil {
			for k, v := range old.w {
				nr.w[k] = v
			}
			for k, v := range old.r {
				nr.r[k] = append([]access(nil), v...)
			}
		}
		o.race = nr
		m.trail = append(m.trail, trailRec{fn: func() { o.race = old }})
	}
	m.raceRI(o.race, off, n, write)
}

func (m *Machine) raceRI(ri *raceInfo, off, n int, write bool) {
	id := int32(m.g.id)
	me := m.g.vc.at(m.g.id)
	for i := off; i < off+n; i++ {
		if w, ok := ri.w[i]; ok && w.g != id && m.g.vc.at(int(w.g)) < w.clk {
			m.reportRace(write, w, true)
		}
		if write {
			for _, r := range ri.r[i] {
				if r.g != id && m.g.vc.at(int(r.g)) < r.clk {
					m.reportRace(write, r, false)
				}
			}
			delete(ri.r, i)
			ri.w[i] = access{id, me, m.where()}
			continue
		}
		rs := ri.r[i]
		found := false
		for j := range rs {
			if rs[j].g == id {
				rs[j].clk = me
				found = true
			}
		}
		if !found {
			ri.r[i] = append(rs, access{id, me, m.where()})
		}
	}
}

func (m *Machine) raceRead(o *Obj, off, n int)  { m.raceAcc(o, off, n, false) }
func (m *Machine) raceWrite(o *Obj, off, n int) { m.raceAcc(o, off, n, true) }

func (m *Machine) raceMap(mo *MapObj, write bool) {
	if m.top.fn.noRace {
		return
	}
	old := mo.race
	nr := &raceInfo{w: map[int]access{}, r: map[int][]access{}, epoch: m.epoch}
	if old != nil {
		for k, v := range old.w {
			nr.w[k] = v
		}
		for k, v := range old.r {
			nr.r[k] = append([]access(nil), v...)
		}
	}
	mo.race = nr
	m.trail = append(m.trail, trailRec{fn: func() { mo.race = old }})
	m.raceRI(nr, 0, 1, write)
}

func (m *Machine) reportRace(write bool, a access, aw bool) {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	panic(raceSig{fmt.Sprintf("data race: %s at %s is concurrent with %s at %s", k(write), m.where(), k(aw), a.pos)})
}

type raceSig struct{ msg string }

func (m *Machine) raceEnd() {}

// acquire/release edges on a synchronisation object.
func (m *Machine) hbSync(o any, acquire, release bool) {
	if !m.raceOn {
		return
	}
	old, had := m.syncVC[o]
	if acquire && had {
		m.g.vc = m.g.vc.join(old)
	}
	if release {
		m.syncVC[o] = old.join(m.g.vc)
		m.g.vc = m.g.vc.inc(m.g.id)
		m.trail = append(m.trail, trailRec{fn: func() {
			if had {
				m.syncVC[o] = old
			} else {
				delete(m.syncVC, o)
			}
		}})
	}
}

type cellKey struct {
	o *Obj
	n uint64
}
