// Package verifharness holds the harnesses: each exported function states a
// property of flatjsonl over symbolic inputs. Only the exported API is used.
package verifharness

import (
	"errors"
	"io"
	"os"
	"strconv"
	"strings"

	"github.com/vearutop/flatjsonl/flatjsonl"
	_ "github.com/vearutop/flatjsonl/verifrt"
	sym "github.com/vearutop/flatjsonl/verifsym"
)

var errRead = errors.New("injected read failure")

// memReader is an in-memory input. chunk limits the size of a read, failAt
// makes reading fail after so many bytes.
type memReader struct {
	data   string
	pos    int
	chunk  int
	failAt int
	reads  int
	resets int
	after  int // passes that do not fail
}

func (r *memReader) Size() int64         { return int64(len(r.data)) }
func (r *memReader) Reset()              { r.pos = 0; r.resets++ }
func (r *memReader) Compression() string { return "" }

func (r *memReader) Read(b []byte) (int, error) {
	r.reads++
	end := len(r.data)
	if r.failAt > 0 && r.failAt <= end && r.resets > r.after {
		end = r.failAt
		if r.pos >= end {
			return 0, errRead
		}
	}
	if r.pos >= end {
		return 0, io.EOF
	}
	s := r.data[r.pos:end]
	if r.chunk > 0 && len(s) > r.chunk {
		s = s[:r.chunk]
	}
	n := copy(b, s)
	r.pos += n
	return n, nil
}

// reader is an input other than a text.
type reader interface {
	io.Reader
	Size() int64
	Reset()
	Compression() string
}

// job is a run of the tool.
type job struct {
	f       flatjsonl.Flags
	cfg     flatjsonl.Config
	in      []string
	readers []*memReader
	files   []string
	extra   []reader
	show    bool
	newErr  error
	err     error
	stdout  *strings.Builder
	quiet   bool // the output depends on the schedule, it is not compared with a native run
}

// newJob has the defaults of the command line, except for a small buffer.
func newJob(in ...string) *job {
	j := &job{in: in}
	j.f.BufSize = 4096
	j.f.Concurrency = 1
	j.f.SQLMaxCols = 500
	j.f.SQLTable = "t"
	j.f.ChildrenLimit = 100
	j.f.Verbosity = 0
	return j
}

func tmp(name string) string { return sym.TempDir() + "/" + name }

func (j *job) csv() *job {
	j.f.CSV = tmp("o.csv")
	return j
}

func (j *job) inputs() []flatjsonl.Input {
	var ins []flatjsonl.Input
	for _, f := range j.files {
		ins = append(ins, flatjsonl.Input{FileName: f})
	}
	if j.readers == nil {
		for _, s := range j.in {
			j.readers = append(j.readers, &memReader{data: s})
		}
	}
	for _, r := range j.readers {
		ins = append(ins, flatjsonl.Input{Reader: r})
	}
	for _, r := range j.extra {
		ins = append(ins, flatjsonl.Input{Reader: r})
	}
	return ins
}

// run processes the inputs; failures are in j.newErr and j.err.
func (j *job) run() *job {
	p, err := flatjsonl.NewProcessor(j.f, j.cfg, j.inputs()...)
	if err != nil {
		j.newErr = err
		j.err = err
		return j
	}
	p.Log = func(args ...any) {}
	j.stdout = &strings.Builder{}
	p.Stdout = j.stdout
	j.err = p.Process()
	return j
}

// ok runs the job and requires success.
func (j *job) ok() *job {
	j.run()
	sym.Assert(j.err == nil, "processing fails on well-formed input")
	return j
}

func (j *job) csvText() string { return readFile(tmp("o.csv")) }

// table reads the CSV output: the header and the rows.
func (j *job) table() *tab {
	s := j.csvText()
	if !j.quiet && j.f.Concurrency == 1 {
		sym.Log(s)
	}
	return parseTab(s)
}

func parseTab(s string) *tab {
	rows, ok := parseCSV(s)
	sym.Assert(ok, "the CSV output is not well-formed")
	sym.Assert(len(rows) > 0, "the CSV output has no header")
	return &tab{head: rows[0], rows: rows[1:]}
}

type tab struct {
	head []string
	rows [][]string
}

// rect asserts that every row has as many fields as the header.
func (t *tab) rect() {
	for i := range t.rows {
		sym.Assert(len(t.rows[i]) == len(t.head), "row "+strconv.Itoa(i)+" does not have as many fields as the header")
	}
}

// col returns the index of the column, or -1.
func (t *tab) col(name string) int {
	for i, h := range t.head {
		if h == name {
			return i
		}
	}
	return -1
}

// get returns the value of the column in the row.
func (t *tab) get(row int, name string) (string, bool) {
	c := t.col(name)
	if c < 0 || row >= len(t.rows) || c >= len(t.rows[row]) {
		return "", false
	}
	return t.rows[row][c], true
}

// want asserts the value of a column.
func (t *tab) want(row int, name, val, msg string) {
	c := t.col(name)
	sym.Assert(c >= 0, msg+": no column "+name)
	sym.Assert(row < len(t.rows), msg+": no row "+strconv.Itoa(row))
	sym.Assert(c < len(t.rows[row]), msg+": no field in row "+strconv.Itoa(row))
	sym.Assert(t.rows[row][c] == val, msg+": wrong value in row "+strconv.Itoa(row))
}

// heads asserts that the columns are exactly the given ones, in any order.
func (t *tab) heads(msg string, names ...string) {
	for _, n := range names {
		sym.Assert(t.col(n) >= 0, msg+": no column "+n)
	}
	sym.Assert(len(t.head) == len(names), msg+": unexpected columns "+strings.Join(t.head, " "))
}

// headsInOrder asserts the columns and their order.
func (t *tab) headsInOrder(msg string, names ...string) {
	sym.Assert(len(t.head) == len(names), msg+": unexpected columns "+strings.Join(t.head, " "))
	for i, n := range names {
		sym.Assert(t.head[i] == n, msg+": column "+strconv.Itoa(i)+" is not "+n)
	}
}

// parseCSV is a strict RFC 4180 reader, with LF line ends.
func parseCSV(s string) ([][]string, bool) {
	var rows [][]string
	i := 0
	for i < len(s) {
		var row []string
		for {
			var f []byte
			if i < len(s) && s[i] == '"' {
				i++
				for {
					if i >= len(s) {
						return rows, false
					}
					c := s[i]
					if c == '"' {
						if i+1 < len(s) && s[i+1] == '"' {
							f = append(f, '"')
							i += 2
							continue
						}
						i++
						break
					}
					f = append(f, c)
					i++
				}
				if i < len(s) && s[i] != ',' && s[i] != '\n' {
					return rows, false
				}
			} else {
				for i < len(s) {
					c := s[i]
					if c == ',' || c == '\n' {
						break
					}
					if c == '"' || c == '\r' {
						return rows, false
					}
					f = append(f, c)
					i++
				}
			}
			row = append(row, string(f))
			if i >= len(s) {
				return rows, false // no end of line
			}
			if s[i] == '\n' {
				i++
				break
			}
			i++
		}
		rows = append(rows, row)
	}
	return rows, true
}

func readFile(fn string) string {
	b, err := os.ReadFile(fn)
	if err != nil {
		return ""
	}
	return string(b)
}

func putFile(fn, s string) {
	if err := os.WriteFile(fn, []byte(s), 0o600); err != nil {
		sym.Assert(false, "scratch file")
	}
}

func exists(fn string) bool {
	_, err := os.ReadFile(fn)
	return err == nil
}

func itoa(i int) string { return strconv.Itoa(i) }

// jsonEsc renders s as a JSON string literal, escaping what needs it.
func jsonEsc(s string) string {
	b := []byte{'"'}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch c {
		case '"', '\\':
			b = append(b, '\\', c)
		case '\n':
			b = append(b, '\\', 'n')
		case '\r':
			b = append(b, '\\', 'r')
		case '\t':
			b = append(b, '\\', 't')
		default:
			b = append(b, c)
		}
	}
	return string(append(b, '"'))
}

// Characters that stand for themselves in a JSON string.
var plainChars = func() string {
	var b []byte
	for c := 0x20; c < 0x7f; c++ {
		if c != '"' && c != '\\' {
			b = append(b, byte(c))
		}
	}
	return string(b)
}()

// The same with the bytes of multi-byte characters.
var plainBytes = func() string {
	b := []byte(plainChars)
	for c := 0x80; c < 0x100; c++ {
		b = append(b, byte(c))
	}
	return string(b)
}()

// strLit makes an arbitrary string of at most n characters: the literal and its value.
func strLit(n int) (lit, val string) {
	l := []byte{'"'}
	var v []byte
	k := sym.Choose(n + 1)
	for i := 0; i < k; i++ {
		switch sym.Choose(5) {
		case 4:
			l = append(l, `\u0000`...)
			v = append(v, 0)
		case 0:
			c := sym.ByteIn(plainBytes)
			l = append(l, c)
			v = append(v, c)
		case 1:
			c := sym.ByteIn(`"\/`)
			l = append(l, '\\', c)
			v = append(v, c)
		case 2:
			l = append(l, '\\', 'n')
			v = append(v, '\n')
		case 3:
			l = append(l, '\\', 'r')
			v = append(v, '\r')
		}
	}
	return string(append(l, '"')), string(v)
}

// word makes a string of n symbolic characters of the set.
func word(n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.ByteIn(set)
	}
	return string(b)
}

const (
	lower   = "abcdefghijklmnopqrstuvwxyz"
	alpha   = lower + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digits  = "0123456789"
	alnum   = alpha + digits
	keyChar = alnum + "_- $:/"
)
