// Package verifsym is the interface between harnesses and the symbolic
// executor. The bodies here are used when a counterexample is replayed
// natively: inputs are read from the recorded assignment.
package verifsym

import (
	"database/sql"
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"sort"
	"strconv"
	"syscall"
)

// Cell is a value of a database table.
type Cell struct {
	Null bool
	S    string
}

// Table is a database table.
type Table struct {
	Name  string
	Cols  []string
	Types []string
	Rows  [][]Cell
}

type input struct {
	Kind string `json:"kind"`
	V    uint64 `json:"v"`
}

type replay struct {
	Fn      string         `json:"fn"`
	Params  map[string]int `json:"params"`
	Inputs  []input        `json:"inputs"`
	Verdict string         `json:"verdict,omitempty"`
}

var (
	rec  replay
	pos  int
	temp string
)

// Exit codes of a replay.
const (
	ExitHeld     = 0
	ExitViolated = 77
	ExitBad      = 78
	ExitAssume   = 79
)

// Start loads the recorded inputs.
func Start(file, dir string) string {
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &rec)
	}
	if err != nil {
		fmt.Println("REPLAY-BAD:", err)
		os.Exit(ExitBad)
	}
	temp = dir
	return rec.Fn
}

func next(kind string) uint64 {
	if pos >= len(rec.Inputs) {
		// Inputs read beyond the recorded prefix were not constrained.
		return 0
	}
	i := rec.Inputs[pos]
	pos++
	if i.Kind != kind {
		fmt.Println("REPLAY-BAD: input kind", i.Kind, "where", kind, "is read")
		os.Exit(ExitBad)
	}
	return i.V
}

// Byte returns an arbitrary byte.
func Byte() byte { return byte(next("byte")) }

// ByteIn returns an arbitrary byte of the set.
func ByteIn(set string) byte { return byte(next("byte")) }

// Bool returns an arbitrary boolean.
func Bool() bool { return next("bool") != 0 }

// Int returns an arbitrary integer in [lo, hi].
func Int(lo, hi int) int { return int(next("int")) }

// Uint64 returns an arbitrary integer.
func Uint64() uint64 { return next("uint64") }

// Choose returns an arbitrary integer in [0, n), explored case by case.
func Choose(n int) int { return int(next("choose")) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("REPLAY-ASSUME: an assumption does not hold")
		os.Exit(ExitAssume)
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("REPLAY-VIOLATED:", msg)
		os.Exit(ExitViolated)
	}
}

// Cover marks a point that has to be reached on some path.
func Cover(name string) {}

// Known marks the path as an instance of a listed finding.
func Known(id string) { fmt.Println("REPLAY-KNOWN:", id) }

// Skip ends the path without a verdict.
func Skip() { os.Exit(ExitAssume) }

// Symbolic reports whether the executor runs the harness.
func Symbolic() bool { return false }

// Param returns a bound.
func Param(name string) int {
	v, ok := rec.Params[name]
	if !ok {
		fmt.Println("REPLAY-BAD: no parameter", name)
		os.Exit(ExitBad)
	}
	return v
}

// TempDir returns the scratch directory.
func TempDir() string { return temp }

// AllowExit declares that the process may end with an error from here on.
func AllowExit() { fmt.Println("REPLAY-EXIT-OK") }

// Schedules turns the exploration of interleavings on or off.
func Schedules(on bool) {}

// Races turns the detection of data races on or off.
func Races(on bool) {}

// MapOrderN explores the orders of iteration over maps that take an entry out
// of the order of insertion at most n times.
func MapOrderN(n int) {}

// MapOrder turns the exploration of map iteration orders on or off.
func MapOrder(on bool) {}

// And is a conjunction that does not fork.
func And(a, b bool) bool { return a && b }

// Or is a disjunction that does not fork.
func Or(a, b bool) bool { return a || b }

// Log records an observation; replays have to make the same ones.
func Log(s string) { fmt.Println("REPLAY-LOG:", strconv.Quote(s)) }

var ballast []byte

// Heap makes the heap in use at least so many MB.
func Heap(mb int) {
	ballast = nil
	runtime.GC()
	if mb > 0 {
		ballast = make([]byte, mb<<20)
	}
}

// DiskLimit makes writing fail beyond so many bytes of a file, -1 lifts the limit.
func DiskLimit(n int) {
	signal.Ignore(syscall.SIGXFSZ)
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		fmt.Println("REPLAY-BAD:", err)
		os.Exit(ExitBad)
	}
	l.Cur = l.Max
	if n >= 0 {
		l.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		fmt.Println("REPLAY-BAD:", err)
		os.Exit(ExitBad)
	}
}

// SQLite reads all tables of a database.
func SQLite(fn string) []Table {
	db, err := sql.Open("sqlite", fn)
	if err != nil {
		fmt.Println("REPLAY-BAD:", err)
		os.Exit(ExitBad)
	}
	defer db.Close()
	var r []Table
	rows, err := db.Query("SELECT name FROM sqlite_master WHERE type='table' ORDER BY rowid")
	if err != nil {
		fmt.Println("sqlite:", err)
		return nil
	}
	for rows.Next() {
		var n string
		_ = rows.Scan(&n)
		r = append(r, Table{Name: n})
	}
	rows.Close()
	for i := range r {
		t := &r[i]
		q := `"`
		for _, c := range t.Name {
			if c == '"' {
				q += `"`
			}
			q += string(c)
		}
		q += `"`
		rs, err := db.Query("SELECT * FROM " + q + " ORDER BY rowid")
		if err != nil {
			fmt.Println("sqlite:", err)
			continue
		}
		t.Cols, _ = rs.Columns()
		if ct, err := rs.ColumnTypes(); err == nil {
			for _, c := range ct {
				t.Types = append(t.Types, lower(c.DatabaseTypeName()))
			}
		}
		for rs.Next() {
			vals := make([]any, len(t.Cols))
			ptrs := make([]any, len(t.Cols))
			for j := range vals {
				ptrs[j] = &vals[j]
			}
			if err := rs.Scan(ptrs...); err != nil {
				fmt.Println("sqlite:", err)
				break
			}
			row := make([]Cell, len(vals))
			for j, v := range vals {
				switch x := v.(type) {
				case nil:
					row[j].Null = true
				case []byte:
					row[j].S = string(x)
				case string:
					row[j].S = x
				case int64:
					row[j].S = strconv.FormatInt(x, 10)
				case float64:
					row[j].S = strconv.FormatFloat(x, 'g', -1, 64)
				default:
					row[j].S = fmt.Sprint(x)
				}
			}
			t.Rows = append(t.Rows, row)
		}
		rs.Close()
	}
	return r
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

var _ = sort.Strings
