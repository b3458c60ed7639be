package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives a single z3 process incrementally.
type Solver struct {
	bin      string
	args     []string
	cmd      *exec.Cmd
	in       io.WriteCloser
	w        *bufio.Writer
	r        *bufio.Reader
	asserted []*Term
	tt       *TermTable
	vars     []*Term
	deadline time.Time

	Queries  int64
	Sat      int64
	Unsat    int64
	Unknown  int64
	Restarts int64
	Time     time.Duration
	Errors   []string

	timeoutMs int
}

func NewSolver(tt *TermTable, bin string, timeoutMs int) *Solver {
	s := &Solver{tt: tt, bin: bin, timeoutMs: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	cvc := strings.Contains(s.bin, "cvc5")
	if cvc {
		s.cmd = exec.Command(s.bin, "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeoutMs), "-")
	} else {
		s.cmd = exec.Command(s.bin, "-in")
	}
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	var iw io.Writer = in
	if d := os.Getenv("GOSYM_SMTLOG"); d != "" {
		if f, err := os.CreateTemp(d, "smt"); err == nil {
			iw = io.MultiWriter(in, f)
		}
	}
	s.w = bufio.NewWriterSize(iw, 1<<16)
	s.r = bufio.NewReaderSize(out, 1<<16)
	s.asserted = nil
	s.vars = nil
	for _, t := range s.tt.tab {
		t.def = false
	}
	fmt.Fprintf(s.w, "(set-option :global-declarations true)\n(set-option :print-success false)\n")
	if cvc {
		fmt.Fprintf(s.w, "(set-logic QF_BVFP)\n")
	} else {
		fmt.Fprintf(s.w, "(set-option :timeout %d)\n", s.timeoutMs)
	}
}

func (s *Solver) restart() {
	s.Restarts++
	s.in.Close()
	_ = s.cmd.Process.Kill()
	_ = s.cmd.Wait()
	s.start()
}

func (s *Solver) Close() {
	s.in.Close()
	_ = s.cmd.Process.Kill()
	_ = s.cmd.Wait()
}

func (s *Solver) define(t *Term) {
	if t.def || t.op == OpConst || t.op == OpFConst {
		return
	}
	t.def = true
	if t.op == OpVar {
		fmt.Fprintf(s.w, "(declare-const |%s| %s)\n", t.name, sortOf(t.w))
		s.vars = append(s.vars, t)
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	fmt.Fprintf(s.w, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), body(t))
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.asserted) && pc[n] == s.asserted[n] {
		n++
	}
	if d := len(s.asserted) - n; d > 0 {
		fmt.Fprintf(s.w, "(pop %d)\n", d)
	}
	s.asserted = s.asserted[:n]
	for _, t := range pc[n:] {
		s.define(t)
		fmt.Fprintf(s.w, "(push)\n(assert %s)\n", ref(t))
		s.asserted = append(s.asserted, t)
	}
}

// Result of a query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Check decides pc && extra. On Sat a model is returned.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.tt.next > 400000 {
		// handled by the caller through table resets
		_ = t0
	}
	s.sync(pc)
	s.define(extra)
	fmt.Fprintf(s.w, "(push)\n(assert %s)\n(check-sat)\n", ref(extra))
	if err := s.w.Flush(); err != nil {
		s.restart()
		s.Unknown++
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.Errors = append(s.Errors, "solver died: "+err.Error())
		s.restart()
		s.Unknown++
		return Unknown, nil
	}
	switch line {
	case "unsat":
		s.Unsat++
		s.w.WriteString("(pop)\n")
		return Unsat, nil
	case "sat":
		s.Sat++
		m := Model{}
		var vs []*Term
		seen := map[*Term]bool{}
		for _, t := range pc {
			Vars(t, seen, &vs)
		}
		Vars(extra, seen, &vs)
		if len(vs) > 0 {
			s.w.WriteString("(get-value (")
			for _, v := range vs {
				s.w.WriteString(ref(v))
				s.w.WriteString(" ")
			}
			s.w.WriteString("))\n")
			s.w.Flush()
			txt, err := s.readSexp()
			if err != nil {
				s.restart()
				return Unknown, nil
			}
			parseModel(txt, vs, m)
		}
		s.w.WriteString("(pop)\n")
		return Sat, m
	default:
		if strings.HasPrefix(line, "(error") || line != "unknown" {
			s.Errors = append(s.Errors, line)
			s.restart()
			s.Unknown++
			return Unknown, nil
		}
		s.Unknown++
		s.w.WriteString("(pop)\n")
		return Unknown, nil
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.r.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	bar := false
	for {
		c, err := s.r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseModel(txt string, vs []*Term, m Model) {
	// ((|x| #x00) (|y| true))
	i := 0
	next := func() string {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '(' || txt[i] == ')') {
			i++
		}
		if i >= len(txt) {
			return ""
		}
		j := i
		if txt[i] == '|' {
			j = i + 1
			for j < len(txt) && txt[j] != '|' {
				j++
			}
			j++
		} else {
			for j < len(txt) && txt[j] != ' ' && txt[j] != ')' && txt[j] != '\n' {
				j++
			}
		}
		r := txt[i:j]
		i = j
		return r
	}
	byName := map[string]*Term{}
	for _, v := range vs {
		byName[v.name] = v
	}
	for {
		n := next()
		if n == "" {
			return
		}
		v := next()
		n = strings.Trim(n, "|")
		t := byName[n]
		if t == nil {
			continue
		}
		switch {
		case v == "true":
			m[t] = 1
		case v == "false":
			m[t] = 0
		case strings.HasPrefix(v, "#x"):
			x, _ := strconv.ParseUint(v[2:], 16, 64)
			m[t] = x
		case strings.HasPrefix(v, "#b"):
			x, _ := strconv.ParseUint(v[2:], 2, 64)
			m[t] = x
		}
	}
}
