package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Prop is the configuration of the check of a property.
type Prop struct {
	Tasks       []Task   `json:"tasks"`
	Assumptions []string `json:"assumptions"`
	Outside     string   `json:"outside"`
}

// Finding is a line of the known-findings file.
type Finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Fixed    string `json:"fixed,omitempty"`
	What     string `json:"what"`
}

// Native is the replay program built from the real code.
type Native struct {
	repo, verif string
	dir         string
	bin         string
	err         error
	done        chan struct{}
	mu          sync.Mutex
	n           int
	runs        int
	buildS      float64
}

func harnessFuncs(dir string) ([]string, error) {
	fs := token.NewFileSet()
	var r []string
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		af, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv == nil && fd.Name.IsExported() && fd.Type.Params.NumFields() == 0 && fd.Type.Results.NumFields() == 0 {
				r = append(r, fd.Name.Name)
			}
		}
	}
	sort.Strings(r)
	return r, nil
}

// StartNative builds the replay program in the background.
func StartNative(repo, verif string) *Native {
	n := &Native{repo: repo, verif: verif, done: make(chan struct{})}
	n.dir, n.err = os.MkdirTemp("", "gosym-replay")
	if n.err != nil {
		close(n.done)
		return n
	}
	go func() {
		defer close(n.done)
		t0 := time.Now()
		n.err = n.build()
		n.buildS = time.Since(t0).Seconds()
	}()
	return n
}

func (n *Native) build() error {
	ov := map[string]string{}
	for v, d := range virtualDirs {
		fs, _ := filepath.Glob(filepath.Join(n.verif, d, "*.go"))
		for _, f := range fs {
			ov[filepath.Join(n.repo, v, filepath.Base(f))] = f
		}
	}
	pf, err := programFiles(n.repo)
	if err != nil {
		return err
	}
	for p, b := range pf {
		f := filepath.Join(n.dir, strings.ReplaceAll(strings.TrimPrefix(p, n.repo+"/"), "/", "_"))
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return err
		}
		ov[p] = f
	}
	fns, err := harnessFuncs(filepath.Join(n.verif, "harness"))
	if err != nil {
		return err
	}
	mod := "github.com/vearutop/flatjsonl"
	gomod, err := os.ReadFile(filepath.Join(n.repo, "go.mod"))
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(gomod), "\n") {
		if strings.HasPrefix(l, "module ") {
			mod = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"os\"\n\n\th %q\n\tsym %q\n)\n\nfunc main() {\n\tswitch sym.Start(os.Args[1], os.Args[2]) {\n", mod+"/verifharness", mod+"/verifsym")
	for _, f := range fns {
		fmt.Fprintf(&sb, "\tcase %q:\n\t\th.%s()\n", f, f)
	}
	sb.WriteString("\tdefault:\n\t\tos.Exit(78)\n\t}\n\tprintln(\"REPLAY-END\")\n}\n")
	mainFile := filepath.Join(n.dir, "main.go")
	if err := os.WriteFile(mainFile, []byte(sb.String()), 0o644); err != nil {
		return err
	}
	ov[filepath.Join(n.repo, "verifreplay", "main.go")] = mainFile
	b, err := json.Marshal(map[string]any{"Replace": ov})
	if err != nil {
		return err
	}
	ovf := filepath.Join(n.dir, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return err
	}
	// A copy of go.mod, so that nothing is written in the repository.
	gosum, err := os.ReadFile(filepath.Join(n.repo, "go.sum"))
	if err != nil {
		return err
	}
	mf := filepath.Join(n.dir, "go.mod")
	if err := os.WriteFile(mf, gomod, 0o644); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(n.dir, "go.sum"), gosum, 0o644); err != nil {
		return err
	}
	bin := filepath.Join(n.dir, "replay")
	c := exec.Command("go", "build", "-modfile="+mf, "-overlay", ovf, "-o", bin, "./verifreplay")
	c.Dir = n.repo
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("building the replay program: %v\n%s", err, out)
	}
	n.bin = bin
	return nil
}

// Close removes the build.
func (n *Native) Close() {
	<-n.done
	if n.dir != "" {
		_ = os.RemoveAll(n.dir)
	}
}

// NativeResult is the outcome of a native run.
type NativeResult struct {
	Exit    int
	Out     string
	Timeout bool
	ExitOK  bool
	Known   []string
	Logs    []string
}

type replayFile struct {
	Property string         `json:"property,omitempty"`
	Fn       string         `json:"fn"`
	Params   map[string]int `json:"params"`
	Inputs   []InputVal     `json:"inputs"`
	Kind     string         `json:"kind,omitempty"`
	Msg      string         `json:"msg,omitempty"`
	Where    string         `json:"where,omitempty"`
	Desc     string         `json:"description,omitempty"`
	Preempt  int            `json:"preemptions,omitempty"`
	Delays   int            `json:"delays,omitempty"`
	Decs     []decJSON      `json:"decisions,omitempty"`
	Trace    []string       `json:"trace,omitempty"`
	Native   string         `json:"native_output,omitempty"`
}

type decJSON struct {
	V uint16 `json:"v"`
	I bool   `json:"i,omitempty"`
	X uint64 `json:"x,omitempty"`
}

// Run executes the harness natively with the given inputs.
func (n *Native) Run(fn string, params map[string]int, in []InputVal, to time.Duration) (*NativeResult, error) {
	<-n.done
	if n.err != nil {
		return nil, n.err
	}
	n.mu.Lock()
	n.n++
	n.runs++
	id := n.n
	n.mu.Unlock()
	d := filepath.Join(n.dir, "r"+strconv.Itoa(id))
	if err := os.MkdirAll(d, 0o755); err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	b, _ := json.Marshal(replayFile{Fn: fn, Params: params, Inputs: in})
	rf := filepath.Join(n.dir, "r"+strconv.Itoa(id)+".json")
	if err := os.WriteFile(rf, b, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(rf)
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	c := exec.CommandContext(ctx, n.bin, rf, d)
	c.Dir = d
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	err := c.Run()
	r := &NativeResult{Out: out.String()}
	if ctx.Err() != nil {
		r.Timeout = true
	}
	if err != nil {
		r.Exit = 1
		if ee, ok := err.(*exec.ExitError); ok {
			r.Exit = ee.ExitCode()
		}
	}
	for _, l := range strings.Split(r.Out, "\n") {
		if strings.HasPrefix(l, "REPLAY-EXIT-OK") {
			r.ExitOK = true
		}
		if strings.HasPrefix(l, "REPLAY-KNOWN: ") {
			r.Known = append(r.Known, strings.TrimPrefix(l, "REPLAY-KNOWN: "))
		}
		if strings.HasPrefix(l, "REPLAY-LOG: ") {
			if s, err := strconv.Unquote(strings.TrimPrefix(l, "REPLAY-LOG: ")); err == nil {
				r.Logs = append(r.Logs, s)
			}
		}
	}
	return r, nil
}

// violated reports whether a native run shows a violation.
func (r *NativeResult) violated() bool {
	switch {
	case r.Timeout:
		return true
	case r.Exit == 0 || r.Exit == 78 || r.Exit == 79:
		return false
	case r.Exit == 77:
		return true
	case r.Exit == 1 && r.ExitOK:
		return false
	}
	return true
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func (n *Native) confirm(t *Task, v *Violation) (bool, string) {
	if v.Kind == "race" {
		return true, "(a data race on the real code's happens-before order; races are not replayed natively)"
	}
	r, err := n.Run(t.Fn, t.Params, v.Inputs, 40*time.Second)
	if err != nil {
		return false, err.Error()
	}
	out := tail(r.Out, 4000)
	if r.Timeout {
		out += "\n(timeout)"
	}
	if r.violated() {
		return true, out
	}
	if v.Schedule {
		return true, out + "\n(depends on the schedule: the native run took another interleaving; the recorded decisions replay it in the executor)"
	}
	return false, fmt.Sprintf("exit %d: %s", r.Exit, out)
}

func readFindings(verif string) (map[string]Finding, error) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.jsonl"))
	if os.IsNotExist(err) {
		return map[string]Finding{}, nil
	}
	if err != nil {
		return nil, err
	}
	r := map[string]Finding{}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var f Finding
		if err := json.Unmarshal([]byte(l), &f); err != nil {
			return nil, fmt.Errorf("known-findings.jsonl: %w", err)
		}
		if f.Fixed == "" {
			r[f.ID] = f
		}
	}
	return r, nil
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

func checkCmd(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "property id")
	tier := fs.String("tier", "", "quick or thorough")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", "", "only this harness function")
	nw := fs.Int("j", workers(), "")
	_ = fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	b, err := os.ReadFile(filepath.Join(*verif, "props.json"))
	if err != nil {
		fatal(err)
	}
	props := map[string]Prop{}
	if err := json.Unmarshal(b, &props); err != nil {
		fatal("props.json:", err)
	}
	pr, ok := props[*id]
	if !ok {
		fatal("no such property", *id)
	}
	findings, err := readFindings(*verif)
	if err != nil {
		fatal(err)
	}
	nat := StartNative(*repo, *verif)
	exitCode := 0
	func() {
		defer nat.Close()
		exitCode = runCheck(*id, *tier, *repo, *verif, *only, seed, *nw, pr, findings, nat, t0)
	}()
	os.Exit(exitCode)
}

func runCheck(id, tier, repo, verif, only string, seed, nw int, pr Prop, findings map[string]Finding, nat *Native, t0 time.Time) int {
	l, err := Load(repo, verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := NewPool(l, nw, solverBin(), 20000)
	defer p.Close()
	p.confirm = nat.confirm
	p.listed = func(k string) bool { f, ok := findings[k]; return ok && f.Property == id }
	initS := time.Since(t0).Seconds()

	var results []*TaskResult
	var viol *Violation
	var vtask *Task
	total := 0.0
	for _, t := range pr.Tasks {
		if t.Tier == "thorough" && tier == "quick" || t.Tier == "quick" && tier == "thorough" {
			continue
		}
		if only != "" && only != t.Fn {
			continue
		}
		if t.Budget == 0 {
			t.Budget = 60
			if tier == "thorough" {
				t.Budget = 600
			}
		}
		if t.Preemptions == 0 {
			t.Preemptions = 2
		}
		total += t.Budget
		tt := t
		r := p.Explore(tt, time.Now().Add(time.Duration(t.Budget*float64(time.Second))))
		results = append(results, r)
		printShort(r)
		if r.Viol != nil {
			viol, vtask = r.Viol, &tt
			break
		}
	}

	// Completed paths are replayed against the real code: the model of the
	// path condition is an ordinary input, and what the harness observed
	// has to be what the real code shows.
	validated, disagreements := 0, []string{}
	if viol == nil {
		validated, disagreements, viol, vtask = validate(nat, results, tier)
	}

	known := map[string]*Violation{}
	for _, r := range results {
		for k, v := range r.Known {
			known[k] = v
		}
	}
	var kids []string
	for k := range known {
		kids = append(kids, k)
	}
	sort.Strings(kids)
	for _, k := range kids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (for example %s)\n", id, k, findings[k].What, known[k].describe())
	}

	nv := 0
	rc := 0
	if viol != nil {
		nv = 1
		rc = 1
	}
	if err := writeEvidence(id, tier, verif, seed, pr, results, nv, validated, disagreements, nat, initS, t0); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if viol != nil {
		rp := filepath.Join(verif, "evidence", id+".replay.json")
		rf := replayFile{
			Property: id, Fn: vtask.Fn, Params: vtask.Params, Inputs: viol.Inputs, Kind: viol.Kind, Msg: viol.Msg,
			Where: viol.Where, Desc: viol.describe(), Preempt: vtask.Preemptions, Delays: vtask.Delays, Trace: viol.Trace, Native: viol.Native,
		}
		for _, d := range viol.decs {
			rf.Decs = append(rf.Decs, decJSON{d.v, d.implied, d.x})
		}
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(rp, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("counterexample: %s %s: %s\n  at %s\n  inputs: %s\n", vtask.Fn, viol.Kind, viol.Msg, viol.Where, viol.describe())
		fmt.Println("native replay:", tail(viol.Native, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	done := int64(0)
	for _, r := range results {
		done += r.Stats.Complete
		if len(r.MissingCovers) > 0 {
			fmt.Printf("INCONCLUSIVE: %s never reached %v\n", r.Task.Fn, r.MissingCovers)
		}
	}
	if done == 0 {
		fmt.Println("no path was completed: nothing was decided")
		return 2
	}
	return rc
}

func printShort(r *TaskResult) {
	s := r.Stats
	st := "complete within the bounds"
	if !r.Complete {
		st = "INCOMPLETE (reduced bound)"
	}
	if r.Viol != nil {
		st = "violated"
	}
	fmt.Printf("%s %v: %s: paths=%d complete=%d skipped=%d obligations=%d (solver %d) queries=%d solver=%.1fs wall=%.1fs\n",
		r.Task.Fn, r.Task.Params, st, s.Paths, s.Complete, s.Skipped, s.Obligations, s.ObSolver, r.Queries, r.SolverS, r.Wall)
	for _, k := range sortedCounts(s.Incomplete) {
		fmt.Println("  incomplete:", k)
	}
	for _, k := range r.Mismatch {
		fmt.Println("  mismatch:", k)
	}
	for _, e := range r.Errors {
		fmt.Println("  error:", e)
	}
	for _, c := range r.MissingCovers {
		fmt.Println("  not covered:", c)
	}
}

// validate compares completed paths with the real code. Where that breaks an
// assertion the executor misjudged the path, the counterexample stands
// nevertheless when the real code shows it each time.
func validate(nat *Native, results []*TaskResult, tier string) (int, []string, *Violation, *Task) {
	type job struct {
		t *Task
		s *Sample
	}
	var jobs []job
	per := 24
	if tier == "thorough" {
		per = 100
	}
	for _, r := range results {
		n := 0
		for i := range r.Stats.Samples {
			if n >= per {
				break
			}
			n++
			jobs = append(jobs, job{&r.Task, &r.Stats.Samples[i]})
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	ok := 0
	bad := []string{}
	var viol *Violation
	var vtask *Task
	ch := make(chan job)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				r, err := nat.Run(j.t.Fn, j.t.Params, j.s.Inputs, 60*time.Second)
				msg := ""
				switch {
				case err != nil:
					msg = err.Error()
				case r.violated() && len(r.Known) == 0:
					msg = fmt.Sprintf("the real code violates it (exit %d): %s", r.Exit, tail(r.Out, 1500))
					again := r.Exit == 77
					for k := 0; k < 3 && again; k++ {
						x, err := nat.Run(j.t.Fn, j.t.Params, j.s.Inputs, 60*time.Second)
						again = err == nil && x.Exit == 77 && len(x.Known) == 0
					}
					if again && !j.s.Sched {
						v := &Violation{Kind: "assert", Entry: j.t.Fn, Inputs: j.s.Inputs, Where: "the compiled real code", Native: r.Out}
						for _, l := range strings.Split(r.Out, "\n") {
							if strings.HasPrefix(l, "REPLAY-VIOLATED: ") {
								v.Msg = strings.TrimPrefix(l, "REPLAY-VIOLATED: ")
							}
						}
						mu.Lock()
						if viol == nil {
							viol, vtask = v, j.t
						}
						mu.Unlock()
					}
				case r.Exit != 0 && !r.ExitOK && len(r.Known) == 0:
					msg = fmt.Sprintf("exit %d: %s", r.Exit, tail(r.Out, 1500))
				case strings.Join(r.Logs, "\x00") != strings.Join(j.s.Log, "\x00"):
					msg = fmt.Sprintf("observed %q, the executor %q", r.Logs, j.s.Log)
				}
				mu.Lock()
				if msg == "" {
					ok++
				} else {
					bad = append(bad, j.t.Fn+" "+j.s.Desc+": "+msg)
				}
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	for _, b := range bad {
		fmt.Println("DISAGREEMENT between executor and real code:", b)
	}
	return ok, bad, viol, vtask
}

func writeEvidence(id, tier, verif string, seed int, pr Prop, rs []*TaskResult, nv, validated int, dis []string, nat *Native, initS float64, t0 time.Time) error {
	if err := os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err != nil {
		return err
	}
	var tasks []map[string]any
	funcs := map[string]int64{}
	samples := []string{}
	var states, trans, obl, obs, obq, q, sat, unsat, unk int64
	var solver float64
	exhaustive := true
	for _, r := range rs {
		s := r.Stats
		states += s.Branches + s.Choices + s.Paths
		trans += s.Instr
		obl += s.Obligations
		obs += s.ObSimpl
		obq += s.ObSolver
		q += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		solver += r.SolverS
		for f, n := range r.Funcs {
			funcs[f] += n
		}
		if !r.Complete {
			exhaustive = false
		}
		verdict := "the assertions hold for every value within the bounds"
		if r.Viol != nil {
			verdict = "violated: " + r.Viol.Msg
		} else if !r.Complete {
			verdict = "reduced bound: not every path within the bounds was decided"
		}
		tasks = append(tasks, map[string]any{
			"harness": r.Task.Fn, "params": r.Task.Params, "bounds": r.Task.Bounds, "verdict": verdict,
			"paths": s.Paths, "complete_paths": s.Complete, "infeasible": s.Infeasible, "skipped": s.Skipped,
			"undecided": s.Incomplete, "covered": s.Covers, "never_covered": r.MissingCovers,
			"obligations": s.Obligations, "obligations_by_simplification": s.ObSimpl, "obligations_by_solver": s.ObSolver,
			"branches_decided_by_byte_domain": s.DomDecided, "branches_decided_by_solver": s.SolverDecided,
			"schedule_and_case_choices": s.Choices, "context_switches": s.Switches, "max_instructions_on_a_path": s.MaxSteps,
			"solver_queries": r.Queries, "solver_s": round(r.SolverS), "wall_s": round(r.Wall), "errors": r.Errors,
			"preemption_bound": r.Task.Preemptions, "schedule_deviation_bound": r.Task.Delays,
		})
		for i, x := range s.Samples {
			if i < 3 && len(samples) < 20 {
				samples = append(samples, r.Task.Fn+": "+x.Desc)
			}
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated,
			"samples": samples, "exhaustive": exhaustive,
			"explanation":                   "states: symbolic branch points, case or schedule choices and path ends; transitions: SSA instructions of the real code (and of the models of its environment) executed symbolically; traces_validated_against_impl: completed paths whose model was run against the natively compiled real code with the same observations.",
			"functions_encoded":             fl,
			"tasks":                         tasks,
			"obligations_total":             obl,
			"obligations_by_simplification": obs, "obligations_by_solver": obq,
			"solver_queries": q, "solver_sat": sat, "solver_unsat": unsat, "solver_unknown": unk, "solver_s": round(solver),
			"solver":                       solverBin() + " (one incremental process per worker)",
			"disagreements_with_real_code": dis,
			"native_runs":                  nat.runs, "native_build_s": round(nat.buildS), "encode_s": round(initS),
			"outside_the_bounds": pr.Outside,
		},
		"assumptions": append(append([]string{}, baseAssumptions...), pr.Assumptions...),
		"wall_s":      round(time.Since(t0).Seconds()),
		"violations":  nv,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0o644)
}

var baseAssumptions = []string{
	"the SSA executor implements the semantics of Go (validated on sampled paths against the compiled program)",
	"xxhash does not collide on the keys of a run",
	"files, database/sql, fmt, encoding/json, time zones, sync.Pool and xsync are models in /verif/rt and /verif/models",
	"a goroutine switch happens at synchronising operations only (data races are detected separately where stated)",
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }

// replayCmd replays a recorded counterexample natively.
func replayCmd(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	_ = fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatal(err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal(err)
	}
	n := StartNative(*repo, *verif)
	r, err := n.Run(rf.Fn, rf.Params, rf.Inputs, 60*time.Second)
	n.Close()
	if err != nil {
		fatal(err)
	}
	fmt.Println(r.Out)
	fmt.Println("exit", r.Exit, "violated", r.violated())
	if !r.violated() && len(rf.Decs) > 0 {
		l, err := Load(*repo, *verif)
		if err != nil {
			fatal(err)
		}
		p := NewPool(l, 1, solverBin(), 20000)
		defer p.Close()
		m := p.ms[0]
		m.params, m.entry = rf.Params, rf.Fn
		m.lim = &Limits{maxSteps: 200_000_000, deadline: time.Now().Add(time.Minute), maxDepth: 5000, preemptions: rf.Preempt, delays: rf.Delays}
		m.trace = true
		m.onViol = func(v *Violation) bool {
			fmt.Println("executor:", v.Kind, v.Msg, "at", v.Where)
			return true
		}
		var ds []dec
		for _, d := range rf.Decs {
			ds = append(ds, dec{d.V, d.I, d.X})
		}
		m.Run(l.fn(l.harness.Func(rf.Fn)), ds)
	}
}
