package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"time"
)

// Task is one harness entry with parameters.
type Task struct {
	Fn     string         `json:"fn"`
	Tier   string         `json:"tier"` // quick, thorough or both ("")
	Params map[string]int `json:"params"`
	// Preemptions bounds context switches away from an enabled goroutine.
	Preemptions int `json:"preemptions"`
	// Delays, when positive, bounds all deviations from the round robin instead.
	Delays   int      `json:"delays"`
	MaxSteps int64    `json:"max_steps"`
	Bounds   string   `json:"bounds"`
	Covers   []string `json:"covers"`
	Budget   float64  `json:"budget"`
}

// TaskResult is the outcome of a task.
type TaskResult struct {
	Task                         Task
	Stats                        Stats
	Viol                         *Violation
	Queries, Sat, Unsat, Unknown int64
	SolverS                      float64
	Wall                         float64
	Funcs                        map[string]int64
	Errors                       []string
	Complete                     bool
	MissingCovers                []string
	ModelFuncs                   []string
	Native                       string // output of the replay of the violation
	Known                        map[string]*Violation
	Mismatch                     []string // counterexamples the real code does not reproduce
}

type explorer struct {
	l    *Loaded
	mu   sync.Mutex
	cond *sync.Cond
	jobs [][]dec
	idle int
	n    int
	done bool
	viol *Violation
	res  *TaskResult
}

// Pool is a set of initialised machines.
type Pool struct {
	l  *Loaded
	ms []*Machine
	// confirm replays a counterexample against the real code.
	confirm func(t *Task, v *Violation) (bool, string)
	// listed reports whether a finding is in the known-findings file.
	listed func(id string) bool
}

func newMachine(l *Loaded, solverBin string, timeoutMs int) *Machine {
	tt := NewTermTable()
	m := &Machine{L: l, tt: tt, truth: map[*Term]*[4]uint64{}, stats: &Stats{Incomplete: map[string]int64{}, Covers: map[string]int64{}}, doms: map[*Term]domain{}}
	m.syncVC = map[any]vclock{}
	m.lim = &Limits{maxDepth: 5000, maxSteps: 1 << 40}
	m.S = NewSolver(tt, solverBin, timeoutMs)
	m.InitAll()
	return m
}

func NewPool(l *Loaded, n int, solverBin string, timeoutMs int) *Pool {
	p := &Pool{l: l, ms: make([]*Machine, n)}
	p.ms[0] = newMachine(l, solverBin, timeoutMs)
	var wg sync.WaitGroup
	for i := 1; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			p.ms[i] = newMachine(l, solverBin, timeoutMs)
		}(i)
	}
	wg.Wait()
	return p
}

func (p *Pool) Close() {
	for _, m := range p.ms {
		m.S.Close()
	}
}

func mergeCounts(d, s map[string]int64) {
	for k, v := range s {
		d[k] += v
	}
}

// Explore runs a task to completion or until the deadline.
func (p *Pool) Explore(t Task, deadline time.Time) *TaskResult {
	t0 := time.Now()
	res := &TaskResult{Task: t}
	fn := p.l.harness.Func(t.Fn)
	if fn == nil {
		res.Errors = append(res.Errors, "no harness function "+t.Fn)
		return res
	}
	entry := p.l.fn(fn)
	before := p.execd()
	e := &explorer{l: p.l, n: len(p.ms), res: res}
	res.Known = map[string]*Violation{}
	var cmu sync.Mutex
	onViol := func(v *Violation) bool {
		cmu.Lock()
		defer cmu.Unlock()
		if e.viol != nil {
			return true
		}
		return p.judge(e, &t, v)
	}
	e.cond = sync.NewCond(&e.mu)
	e.jobs = [][]dec{nil}
	maxSteps := t.MaxSteps
	if maxSteps == 0 {
		maxSteps = 20_000_000
	}
	lim := &Limits{maxSteps: maxSteps, deadline: deadline, maxDepth: 5000, preemptions: t.Preemptions, delays: t.Delays}
	var wg sync.WaitGroup
	for _, m := range p.ms {
		wg.Add(1)
		m.stats = &Stats{Incomplete: map[string]int64{}, Covers: map[string]int64{}}
		m.lim = lim
		m.params = t.Params
		m.entry = t.Fn
		m.viol = nil
		m.onViol = onViol
		q0, s0, u0, k0, tm0 := m.S.Queries, m.S.Sat, m.S.Unsat, m.S.Unknown, m.S.Time
		m.S.Errors = nil
		go func(m *Machine) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					e.mu.Lock()
					res.Errors = append(res.Errors, fmt.Sprintf("engine failure: %v\n%s", r, debug.Stack()))
					e.done = true
					e.cond.Broadcast()
					e.mu.Unlock()
				}
				e.mu.Lock()
				res.Queries += m.S.Queries - q0
				res.Sat += m.S.Sat - s0
				res.Unsat += m.S.Unsat - u0
				res.Unknown += m.S.Unknown - k0
				res.SolverS += (m.S.Time - tm0).Seconds()
				res.Errors = append(res.Errors, m.S.Errors...)
				e.mu.Unlock()
			}()
			e.worker(m, entry)
		}(m)
	}
	wg.Wait()
	res.Stats = Stats{Incomplete: map[string]int64{}, Covers: map[string]int64{}}
	for _, m := range p.ms {
		s := m.stats
		r := &res.Stats
		r.Paths += s.Paths
		r.Complete += s.Complete
		r.Infeasible += s.Infeasible
		r.Skipped += s.Skipped
		r.Obligations += s.Obligations
		r.ObSimpl += s.ObSimpl
		r.ObSolver += s.ObSolver
		r.ObUnknown += s.ObUnknown
		r.Instr += s.Instr
		r.Branches += s.Branches
		r.DomDecided += s.DomDecided
		r.SolverDecided += s.SolverDecided
		r.Choices += s.Choices
		r.Switches += s.Switches
		r.PathChecks += s.PathChecks
		if s.MaxSteps > r.MaxSteps {
			r.MaxSteps = s.MaxSteps
		}
		mergeCounts(r.Incomplete, s.Incomplete)
		mergeCounts(r.Covers, s.Covers)
		r.Samples = append(r.Samples, s.Samples...)
	}
	res.Viol = e.viol
	res.Funcs = map[string]int64{}
	for f, n := range p.execd() {
		if d := n - before[f]; d > 0 && f.isRepo {
			res.Funcs[f.name] += d
		}
	}
	if len(res.Mismatch) > 0 {
		res.Stats.Incomplete["counterexample not reproduced by the real code"] += int64(len(res.Mismatch))
	}
	for _, c := range t.Covers {
		if res.Stats.Covers[c] == 0 {
			res.MissingCovers = append(res.MissingCovers, c)
		}
	}
	res.Complete = len(res.Stats.Incomplete) == 0 && len(res.Errors) == 0
	res.Wall = time.Since(t0).Seconds()
	return res
}

// judge decides what a counterexample of the solver means; it reports
// whether the exploration ends.
func (p *Pool) judge(e *explorer, t *Task, v *Violation) bool {
	known := ""
	if p.listed != nil {
		for _, k := range v.Known {
			if p.listed(k) {
				known = k
			}
		}
	}
	if known != "" && e.res.Known[known] != nil {
		return false
	}
	if p.confirm != nil {
		ok, out := p.confirm(t, v)
		v.Native = out
		if !ok {
			e.mu.Lock()
			e.res.Mismatch = append(e.res.Mismatch, v.Kind+" "+v.Msg+" "+v.describe()+"\n"+out)
			n := len(e.res.Mismatch)
			e.mu.Unlock()
			if n < 20 {
				return false
			}
			e.mu.Lock()
			e.done = true
			e.cond.Broadcast()
			e.mu.Unlock()
			return true
		}
	}
	if known != "" {
		e.res.Known[known] = v
		return false
	}
	e.mu.Lock()
	e.viol = v
	e.done = true
	e.cond.Broadcast()
	e.mu.Unlock()
	return true
}

func (p *Pool) execd() map[*Func]int64 {
	p.l.mu.Lock()
	defer p.l.mu.Unlock()
	r := map[*Func]int64{}
	for _, f := range p.l.funcs {
		if n := f.execd.Load(); n > 0 {
			r[f] = n
		}
	}
	return r
}

func (e *explorer) worker(m *Machine, entry *Func) {
	m.share = func() bool {
		if e.idle == 0 { // racy read is fine: only a hint
			return false
		}
		e.mu.Lock()
		defer e.mu.Unlock()
		return e.idle > len(e.jobs) && !e.done
	}
	m.give = func(d []dec) {
		e.mu.Lock()
		e.jobs = append(e.jobs, d)
		e.cond.Signal()
		e.mu.Unlock()
	}
	m.onPath = func() {
		if e.done && m.viol == nil {
			m.choices = nil
		}
	}
	for {
		e.mu.Lock()
		e.idle++
		for len(e.jobs) == 0 && !e.done {
			if e.idle == e.n {
				e.done = true
				e.cond.Broadcast()
				break
			}
			e.cond.Wait()
		}
		if e.done {
			e.mu.Unlock()
			return
		}
		job := e.jobs[0]
		e.jobs = e.jobs[1:]
		e.idle--
		e.mu.Unlock()
		if time.Now().After(m.lim.deadline) {
			m.stats.Incomplete["time budget"]++
			continue
		}
		m.Run(entry, job)
		if m.viol != nil {
			return
		}
	}
}

var _ = os.Stderr
