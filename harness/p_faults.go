package verifharness

import (
	"strings"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

// WriteFaults: an output that can not be written completely is reported: the
// run does not succeed with a part of the output. The fault is at any byte.
func WriteFaults() {
	lines := sym.Param("lines")
	big := sym.Param("big") > 0
	var want []string
	s := ""
	for i := 0; i < lines; i++ {
		v := "v" + itoa(i)
		if big {
			// More than the buffers of the writers.
			v += strings.Repeat("x", 3000)
		}
		want = append(want, v)
		s += `{"a":"` + v + `","o":{"x":"` + itoa(i) + `"}}` + "\n"
	}
	j := newJob(s)
	kind := sym.Choose(4)
	file, extra := "", ""
	size := 0
	transposed := sym.Bool()
	if transposed {
		j.cfg.Transpose = map[string]string{".o": "tr"}
	}
	switch kind {
	case 0:
		j.csv()
		file, extra = tmp("o.csv"), tmp("o_tr.csv")
	case 1:
		j.f.Raw = tmp("o.raw")
		file, extra = tmp("o.raw"), tmp("o_tr.raw")
	case 2:
		j.pg()
		file = tmp("o.sql")
	case 3:
		j.csv()
		j.f.Raw = tmp("o.raw")
		file, extra = tmp("o.raw"), tmp("o.csv")
	}
	// The size without faults.
	j.ok()
	full, fullX := readFile(file), ""
	size = len(full)
	if extra != "" {
		fullX = readFile(extra)
	}
	if len(fullX) > size {
		size = len(fullX)
	}
	step := sym.Param("step")
	lim := sym.Choose(size/step+1) * step
	if lim == 0 && step == 1 {
		sym.Cover("nothing can be written")
	}
	sym.AllowExit()
	for _, r := range j.readers {
		r.Reset()
	}
	sym.DiskLimit(lim)
	j.run()
	sym.DiskLimit(-1)
	if j.err != nil {
		return
	}
	sym.Assert(readFile(file) == full, "the run succeeds with an incomplete output")
	if extra != "" {
		sym.Assert(readFile(extra) == fullX, "the run succeeds with an incomplete output")
	}
}

// SQLiteFault: rows that can not be stored are reported.
func SQLiteFault() {
	n := 1 + sym.Choose(3)
	s := strings.Repeat(`{"a":"`+strings.Repeat("x", 3000)+`"}`+"\n", n)
	j := newJob(s).sqlite()
	sym.AllowExit()
	lim := -1
	if sym.Bool() {
		lim = 8192
	}
	sym.DiskLimit(lim)
	j.run()
	sym.DiskLimit(-1)
	if j.err == nil {
		t := sym.SQLite(tmp("o.sqlite"))
		sym.Assert(len(t) == 1 && len(t[0].Rows) == n, "the run succeeds with rows missing")
	}
}

// NoOutput: an output that can not be created is reported.
func NoOutput() {
	j := newJob(`{"a":1}` + "\n")
	bad := sym.TempDir() + "/no/such/dir/o"
	switch sym.Choose(5) {
	case 0:
		j.f.CSV = bad + ".csv"
	case 1:
		j.f.Raw = bad + ".raw"
	case 2:
		j.f.PGDump = bad + ".sql"
	case 3:
		j.f.CSV = bad + ".csv"
		j.f.Raw = tmp("o.raw")
	case 4:
		j.csv()
		j.f.PGDump = bad + ".sql"
	}
	if sym.Bool() {
		j.cfg.IncludeKeys = []string{".a"}
	}
	sym.AllowExit()
	j.run()
	sym.Assert(j.err != nil, "an output that can not be created is not reported")
}

// ReadFaults: a failure to read an input is reported, in either pass; the
// lines that were read before are not changed by it.
func ReadFaults() {
	s := `{"a":"` + word(1, alnum) + `"}` + "\n" + `{"a":2,"b":3}` + "\n" + `{"a":4}` + "\n"
	files := 1 + sym.Choose(2)
	at := sym.Choose(files)
	j := newJob()
	for i := 0; i < files; i++ {
		r := &memReader{data: s}
		if i == at {
			r.failAt = 1 + sym.Choose(len(s))
			r.after = sym.Choose(2) // the pass that fails
		}
		j.readers = append(j.readers, r)
	}
	j.csv()
	listed := sym.Bool()
	if listed {
		j.cfg.IncludeKeys = []string{".a"}
		sym.Assume(j.readers[at].after == 0)
	}
	j.f.Concurrency = 1 + sym.Choose(2)
	if sym.Bool() {
		j.readers[at].chunk = 7
	}
	sym.AllowExit()
	j.run()
	sym.Assert(j.err != nil, "a failure to read is not reported")
}

// LongLine: a line that does not fit in the buffer is reported, others are not affected.
func LongLine() {
	buf := sym.Param("buf")
	n := buf - 6 + sym.Choose(10)
	long := `{"a":"` + strings.Repeat("x", n-8) + `"}`
	in := [][]string{{long}, {`{"a":1}`, long}, {long, `{"a":1}`}}[sym.Choose(3)]
	j := newJob(strings.Join(in, "\n") + "\n").csv()
	j.f.BufSize = buf
	if sym.Bool() {
		j.cfg.IncludeKeys = []string{".a"}
	}
	sym.AllowExit()
	j.run()
	if len(long) >= buf {
		// The line and its end have to fit.
		sym.Assert(j.err != nil, "a line that is too long is not reported")
	}
	if len(long) < buf {
		sym.Assert(j.err == nil, "a line within the buffer is not read")
		t := j.table()
		sym.Assert(len(t.rows) == len(in), "rows")
		for i, l := range in {
			want := "1"
			if l == long {
				want = long[6 : len(long)-2]
			}
			t.want(i, ".a", want, "value")
		}
	}
}

// Chunks: it does not matter in what pieces an input arrives.
func Chunks() {
	var s string
	v := word(1, plainChars)
	for i := 0; i < 3; i++ {
		s += []string{`{"a":"` + v + `"}`, ``, `{"a":"` + strings.Repeat("y", 20) + `"}`, `{"b":`}[sym.Choose(4)] + []string{"\n", "\r\n"}[sym.Choose(2)]
	}
	s += `{"a":"end"}`
	eol := sym.Bool()
	if eol {
		s += "\n"
	}
	one := newJob(s).csv()
	one.f.BufSize = 40
	one.cfg.IncludeKeys = []string{".b", ".a"}
	a := one.ok().csvText()
	j := newJob()
	j.readers = []*memReader{{data: s, chunk: 1 + sym.Choose(sym.Param("chunk"))}}
	j.csv()
	j.f.BufSize = 40
	j.cfg.IncludeKeys = []string{".b", ".a"}
	b := j.ok().csvText()
	sym.Assert(a == b, "the output depends on the size of reads")
	sym.Assert(len(parseTab(b).rows) == 4, "rows")
}

// Files: inputs that are files are read as they are, in order; a file that does
// not exist or is empty is reported.
func Files() {
	a, b := tmp("a.jsonl"), tmp("b.jsonl")
	v := word(1, alnum)
	putFile(a, `{"a":"`+v+`"}`+"\n"+`{"a":2}`+"\n")
	bad := sym.Choose(4)
	switch bad {
	case 0, 3:
		putFile(b, `{"a":3,"b":4}`+"\n")
	case 1:
		putFile(b, "")
	}
	j := newJob().csv()
	j.files = []string{a, b}
	if bad == 3 {
		j.files = []string{a}
	}
	if sym.Bool() {
		j.cfg.IncludeKeys = []string{".a"}
	}
	sym.AllowExit()
	j.run()
	switch bad {
	case 0:
		sym.Assert(j.err == nil, "reading files")
		t := j.table()
		sym.Assert(len(t.rows) == 3, "rows")
		t.want(0, ".a", v, "first")
		t.want(1, ".a", "2", "second")
		t.want(2, ".a", "3", "third")
	case 3:
		sym.Assert(j.err == nil, "reading files")
		sym.Assert(len(j.table().rows) == 2, "rows")
	case 1:
		sym.Assert(j.err != nil, "an empty file is not reported")
	case 2:
		sym.Assert(j.err != nil, "a file that does not exist is not reported")
	}
}
