package main

import (
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

func main() {
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(20 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|run ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		runCmd(os.Args[2:])
	case "replay":
		replayCmd(os.Args[2:])
	case "check":
		checkCmd(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

type paramFlag map[string]int

func (p paramFlag) String() string { return "" }
func (p paramFlag) Set(s string) error {
	var k string
	var v int
	for i := range s {
		if s[i] == '=' {
			k = s[:i]
			_, err := fmt.Sscanf(s[i+1:], "%d", &v)
			p[k] = v
			return err
		}
	}
	return fmt.Errorf("bad param")
}

// runCmd explores a single harness function, for development.
func runCmd(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	fn := fs.String("fn", "", "harness function")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	n := fs.Int("j", workers(), "")
	to := fs.Duration("t", time.Minute, "")
	pre := fs.Int("preempt", 2, "")
	del := fs.Int("delays", 0, "")
	trace := fs.Bool("trace", false, "")
	prof := fs.String("prof", "", "")
	replay := fs.Bool("replay", false, "replay natively")
	params := paramFlag{}
	fs.Var(params, "p", "name=value")
	_ = fs.Parse(args)
	t0 := time.Now()
	l, err := Load(*repo, *verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t0))
	p := NewPool(l, *n, solverBin(), 20000)
	defer p.Close()
	fmt.Println("init", time.Since(t0))
	if *prof != "" {
		f, _ := os.Create(*prof)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, m := range p.ms {
		m.trace = *trace
	}
	var nat *Native
	if *replay {
		nat = StartNative(*repo, *verif)
		defer nat.Close()
		p.confirm = nat.confirm
	}
	if os.Getenv("GOSYM_FORKS") != "" {
		forkProf = map[string]int{}
	}
	r := p.Explore(Task{Fn: *fn, Params: params, Preemptions: *pre, Delays: *del}, time.Now().Add(*to))
	printResult(r)
	if forkProf != nil {
		var ks []string
		for k := range forkProf {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return forkProf[ks[i]] > forkProf[ks[j]] })
		for i, k := range ks {
			if i < 15 {
				fmt.Println("  forks:", forkProf[k], k)
			}
		}
	}
	if nat != nil {
		for _, x := range r.Mismatch {
			fmt.Println("  mismatch:", x)
		}
		if r.Viol != nil {
			fmt.Println("native:", r.Viol.Native)
		} else {
			ok, bad, _, _ := validate(nat, []*TaskResult{r}, "quick")
			fmt.Println("validated", ok, "disagreements", len(bad))
		}
	}
}

func printResult(r *TaskResult) {
	s := r.Stats
	fmt.Printf("%s: paths=%d complete=%d infeasible=%d skipped=%d incomplete=%v\n", r.Task.Fn, s.Paths, s.Complete, s.Infeasible, s.Skipped, sortedCounts(s.Incomplete))
	fmt.Printf("  obligations=%d simplified=%d solver=%d unknown=%d queries=%d (sat %d, unsat %d, unk %d) solver=%.1fs wall=%.1fs instr=%d maxsteps=%d switches=%d\n",
		s.Obligations, s.ObSimpl, s.ObSolver, s.ObUnknown, r.Queries, r.Sat, r.Unsat, r.Unknown, r.SolverS, r.Wall, s.Instr, s.MaxSteps, s.Switches)
	fmt.Printf("  covers=%v missing=%v\n", sortedCounts(s.Covers), r.MissingCovers)
	for i, x := range s.Samples {
		if i < 6 {
			fmt.Println("  sample:", x.Desc)
		}
	}
	for _, e := range r.Errors {
		fmt.Println("  error:", e)
	}
	if v := r.Viol; v != nil {
		fmt.Println("  VIOLATION:", v.Kind, v.Msg)
		fmt.Println("   at", v.Where)
		fmt.Println("   inputs:", v.describe())
		for i, t := range v.Trace {
			if i < 25 {
				fmt.Println("   ", t)
			}
		}
	}
	if os.Getenv("GOSYM_FUNCS") != "" {
		var fs []string
		for f := range r.Funcs {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		fmt.Println(fs)
	}
}

func (v *Violation) describe() string {
	m := &Machine{}
	for _, i := range v.Inputs {
		m.inputs = append(m.inputs, input{kind: i.Kind, conc: i.V})
	}
	return m.describeInputs(nil)
}

// solverBin is the SMT solver to use.
func solverBin() string {
	if s := os.Getenv("GOSYM_SOLVER"); s != "" {
		return s
	}
	if _, err := exec.LookPath("cvc5"); err == nil {
		return "cvc5"
	}
	return "z3"
}
