package verifharness

import (
	"flag"
	"os"

	csvequals "github.com/vearutop/flatjsonl/verifcsvequals"
	sym "github.com/vearutop/flatjsonl/verifsym"
)

// csvTable is a file of named columns.
type csvTable struct {
	names []string
	rows  [][]string
}

func csvQuote(s string) string {
	r := `"`
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			r += `"`
		}
		r += s[i : i+1]
	}
	return r + `"`
}

func (t csvTable) content(crlf bool) string {
	var r string
	for _, row := range append([][]string{t.names}, t.rows...) {
		for i, v := range row {
			if i > 0 {
				r += ","
			}
			r += csvQuote(v)
		}
		if crlf {
			r += "\r"
		}
		r += "\n"
	}
	return r
}

// same tells whether rows have the same values under the same names.
func (t csvTable) same(o csvTable) bool {
	if len(t.names) != len(o.names) || len(t.rows) != len(o.rows) {
		return false
	}
	r := true
	for i, n := range t.names {
		found := false
		for j, m := range o.names {
			eq := len(n) == len(m) && n == m
			found = sym.Or(found, eq)
			for k := range t.rows {
				r = sym.And(r, sym.Or(!eq, t.rows[k][i] == o.rows[k][j]))
			}
		}
		r = sym.And(r, found)
	}
	return r
}

// csvByte is any byte that has no meaning between quotes.
func csvByte() string {
	c := sym.Byte()
	sym.Assume(sym.And(c != '"', c != '\r'))
	return string([]byte{c})
}

// CSVEquals: csvequals says that files are equal, and ends with success, when they have the
// same values under the same names in each row, and only then.
func CSVEquals() {
	cols, rows := sym.Param("cols"), sym.Param("rows")
	var t [2]csvTable
	for f := range t {
		for c := 0; c < cols; c++ {
			t[f].names = append(t[f].names, "n"+string(rune('a'+c)))
		}
		n := sym.Choose(rows + 1)
		for r := 0; r < n; r++ {
			var row []string
			for c := 0; c < cols; c++ {
				row = append(row, csvByte())
			}
			t[f].rows = append(t[f].rows, row)
		}
	}
	// the last value of the second file, and of the first, have other forms too
	if n := sym.Choose(5); n > 0 {
		for f := range t {
			if len(t[f].rows) == 0 || (f == 1 && n == 4) {
				continue
			}
			v := &t[f].rows[len(t[f].rows)-1][cols-1]
			switch n {
			case 1:
				*v = ""
			case 2:
				*v = `"` + *v
			default:
				*v += csvByte()
			}
		}
	}
	ragged := false
	switch sym.Choose(6) {
	case 1: // another name
		t[1].names[sym.Choose(cols)] = "n" + csvByte()
		for i, n := range t[1].names {
			for _, m := range t[1].names[:i] {
				sym.Assume(n != m)
			}
		}
	case 2: // a column more
		f := sym.Choose(2)
		t[f].names = append(t[f].names, "more")
		for r := range t[f].rows {
			t[f].rows[r] = append(t[f].rows[r], []string{"", "x"}[sym.Choose(2)])
		}
	case 3: // a value too many or too few
		f := sym.Choose(2)
		if n := len(t[f].rows); n > 0 {
			row := &t[f].rows[n-1]
			if sym.Bool() {
				*row = append(*row, "")
			} else {
				*row = (*row)[:cols-1]
			}
			ragged = true
		}
	case 4: // an empty file
		t[sym.Choose(2)] = csvTable{}
	}
	// the order of columns is of no importance
	p := sym.Choose(cols)
	if k := len(t[1].names); k > 0 && p > 0 {
		rot := func(v []string) {
			if len(v) == k {
				copy(v, append(append([]string{}, v[p:]...), v[:p]...))
			}
		}
		rot(t[1].names)
		for _, row := range t[1].rows {
			rot(row)
		}
	}
	a, b := tmp("1.csv"), tmp("2.csv")
	for f, fn := range []string{a, b} {
		s := ""
		if t[f].names != nil {
			s = t[f].content(f == 1 && p == 0)
		}
		putFile(fn, s)
	}
	eq := false
	if !ragged {
		eq = t[0].same(t[1])
	}
	if eq {
		sym.Cover("files are equal")
	} else {
		sym.AllowExit()
	}
	flag.CommandLine = flag.NewFlagSet("csvequals", flag.ExitOnError)
	os.Args = []string{"csvequals", a, b}
	csvequals.Main()
	sym.Assert(eq, "files that differ are said to be equal")
}

// CSVEqualsRows: a difference is seen in whichever row and column it is.
func CSVEqualsRows() {
	lines := sym.Param("lines")
	var t [2]csvTable
	at, col := sym.Choose(min(lines, 8)), sym.Choose(2)
	if at >= 4 { // the last rows
		at = lines - 8 + at
	}
	swap := sym.Bool()
	for f := range t {
		t[f].names = []string{"na", "nb"}
		for r := 0; r < lines; r++ {
			v := csvNumber(r) + "-a long value to fill the buffers that are used for reading"
			row := []string{v, csvNumber(r % 3)}
			if r == at {
				row[col] += csvByte()
			}
			t[f].rows = append(t[f].rows, row)
		}
	}
	eq := t[0].rows[at][col] == t[1].rows[at][col]
	if swap {
		for _, row := range append([][]string{t[1].names}, t[1].rows...) {
			row[0], row[1] = row[1], row[0]
		}
	}
	a, b := tmp("1.csv"), tmp("2.csv")
	putFile(a, t[0].content(false))
	putFile(b, t[1].content(false))
	if !eq {
		sym.AllowExit()
	}
	flag.CommandLine = flag.NewFlagSet("csvequals", flag.ExitOnError)
	os.Args = []string{"csvequals", a, b}
	csvequals.Main()
	sym.Assert(eq, "files that differ are said to be equal")
}

func csvNumber(n int) string {
	r := ""
	for ; n > 9; n /= 10 {
		r = string(rune('0'+n%10)) + r
	}
	return string(rune('0'+n)) + r
}

// CSVEqualsErrors: files that can not be read are not said to be equal.
func CSVEqualsErrors() {
	n := sym.Choose(5)
	c := csvByte()
	var fn [2]string
	for f := range fn {
		fn[f] = tmp(string(rune('1'+f)) + ".csv")
		putFile(fn[f], "\"a\"\n\""+c+"\"\n")
	}
	bad := sym.Choose(3) // the first, the second, both
	for f := range fn {
		if bad != 2 && bad != f {
			continue
		}
		switch n {
		case 0:
			fn[f] = tmp("none.csv")
		case 1: // a quote that is not closed
			putFile(fn[f], "\"a\"\n\""+c+"\n")
		case 2: // a quote inside of a value
			putFile(fn[f], "\"a\"\nx\""+"\n")
		case 3:
			putFile(fn[f], "\"a\"\n\""+c+"\"\n\""+c+"\",x\n")
		case 4:
			putFile(fn[f], "\"a\"\n\""+c+"\"y\n")
		}
	}
	sym.AllowExit()
	flag.CommandLine = flag.NewFlagSet("csvequals", flag.ExitOnError)
	os.Args = []string{"csvequals", fn[0], fn[1]}
	csvequals.Main()
	sym.Assert(false, "files that can not be read are said to be equal")
}
