package verifharness

import (
	"sort"
	"strconv"
	"strings"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

// ---- SQLite ----

func (j *job) sqlite() *job {
	j.f.SQLite = tmp("o.sqlite")
	return j
}

func (j *job) pg() *job {
	j.f.PGDump = tmp("o.sql")
	return j
}

func (j *job) tables() []sym.Table {
	ts := sym.SQLite(j.f.SQLite)
	sort.SliceStable(ts, func(a, b int) bool { return ts[a].Name < ts[b].Name })
	for _, t := range ts {
		var s strings.Builder
		s.WriteString(t.Name)
		for _, c := range t.Cols {
			s.WriteString("|" + c)
		}
		for _, r := range t.Rows {
			s.WriteString("\n")
			for _, c := range r {
				if c.Null {
					s.WriteString("|NULL")
				} else {
					s.WriteString("|" + c.S)
				}
			}
		}
		sym.Log(s.String())
	}
	return ts
}

func findTable(ts []sym.Table, name string) *sym.Table {
	for i := range ts {
		if ts[i].Name == name {
			return &ts[i]
		}
	}
	sym.Assert(false, "no table "+name)
	return nil
}

func colOf(t *sym.Table, name string) int {
	for i, c := range t.Cols {
		if c == name {
			return i
		}
	}
	sym.Assert(false, "table "+t.Name+" has no column "+name)
	return -1
}

// wantCell asserts a cell; nil is NULL.
func wantCell(t *sym.Table, row int, col string, val *string, msg string) {
	c := colOf(t, col)
	sym.Assert(row < len(t.Rows), msg+": table "+t.Name+" has no row "+itoa(row))
	x := t.Rows[row][c]
	if val == nil {
		sym.Assert(x.Null, msg+": not NULL in row "+itoa(row))
		return
	}
	sym.Assert(!x.Null, msg+": NULL in row "+itoa(row))
	sym.Assert(x.S == *val, msg+": wrong value in row "+itoa(row))
}

func sp(s string) *string { return &s }

// SQLiteContent: the table has a row per line, with its number, the values
// of the line in the columns of their keys and NULL where there is none.
func SQLiteContent() {
	lit, val := strLit(sym.Param("len"))
	n := sym.Param("lines")
	s := ""
	type row struct{ a, b *string }
	var rows []row
	for i := 0; i < n; i++ {
		switch sym.Choose(7) {
		case 0:
			s += `{"a":` + lit + `,"b":12}` + "\n"
			rows = append(rows, row{&val, sp("12")})
		case 1:
			s += `{"a":null,"b":34}` + "\n"
			rows = append(rows, row{nil, sp("34")})
		case 2:
			s += `{"a":""}` + "\n"
			rows = append(rows, row{sp(""), nil})
		case 3:
			s += `{"b":` + "\n"
			rows = append(rows, row{})
		case 4:
			s += `{"a":true,"b":-5}` + "\n"
			rows = append(rows, row{sp("true"), sp("-5")})
		case 5:
			s += "\n"
			rows = append(rows, row{})
		case 6:
			s += `{"a":[],"b":{"c":1}}` + "\n"
			rows = append(rows, row{})
		}
	}
	s += `{"a":"last","b":0}` + "\n"
	rows = append(rows, row{sp("last"), sp("0")})
	j := newJob(s).sqlite()
	j.ok()
	ts := j.tables()
	sym.Assert(len(ts) == 1, "one table")
	t := findTable(ts, "t")
	sym.Assert(t.Cols[0] == "_seq_id", "the first column is the number of the row")
	sym.Assert(len(t.Rows) == len(rows), "the number of rows is not the number of lines")
	for i, r := range rows {
		wantCell(t, i, "_seq_id", sp(itoa(i+1)), "number")
		wantCell(t, i, ".a", r.a, "a")
		wantCell(t, i, ".b", r.b, "b")
	}
}

// SQLNames: the names of columns and tables in SQL are the keys, whatever characters they have.
func SQLNames() {
	key := ""
	for i := 0; i < sym.Param("len"); i++ {
		key += string([]byte{sym.ByteIn(plainChars + "\"\\")})
	}
	for i := 0; i < len(key); i++ {
		sym.Assume(key[i] != '.')
	}
	j := newJob(`{` + jsonEsc(key) + `:"v","z":1}` + "\n").sqlite().pg()
	sym.Assume(strings.ToLower(key) != "z")
	j.f.SQLTable = []string{"t", `t"x`, "T 1"}[sym.Choose(3)]
	j.ok()
	t := findTable(j.tables(), j.f.SQLTable)
	sym.Assert(len(t.Cols) == 3, "three columns")
	wantCell(t, 0, "."+key, sp("v"), "v")
	wantCell(t, 0, ".z", sp("1"), "z")
	d := j.dump()
	sym.Assert(len(d) == 1, "one table")
	sym.Assert(d[0].name == j.f.SQLTable, "name of the table")
	d[0].want(0, "."+key, "v")
	d[0].want(0, ".z", "1")
}

// SQLiteTypes: values survive the type of the column.
func SQLiteTypes() {
	vals := []string{`1`, `2.5`, `true`, `"x"`, `null`, `"7"`, `-3`, `0.25`, `1.0`, `false`, `"007"`, `1e400`, `1e-400`, `-0`, `1e3`, `" 5"`, `9223372036854775807`}
	show := []*string{sp("1"), sp("2.5"), sp("true"), sp("x"), nil, sp("7"), sp("-3"), sp("0.25"), sp("1.0"), sp("false"), sp("007"), sp("1e400"), sp("1e-400"), sp("-0"), sp("1e3"), sp(" 5"), sp("9223372036854775807")}
	num := []*string{sp("1"), sp("2.5"), sp("true"), sp("x"), nil, sp("7"), sp("-3"), sp("0.25"), sp("1"), sp("false"), sp("007"), sp("1e400"), sp("1e-400"), sp("0"), sp("1000"), sp(" 5"), sp("9.223372036854776e+18")}
	a, b := sym.Choose(len(vals)), sym.Choose(len(vals))
	j := newJob(`{"a":` + vals[a] + "}\n" + `{"a":` + vals[b] + "}\n").sqlite()
	j.ok()
	t := findTable(sym.SQLite(tmp("o.sqlite")), "t")
	sym.Assert(len(t.Rows) == 2, "two rows")
	c := colOf(t, ".a")
	for i, k := range []int{a, b} {
		x := t.Rows[i][c]
		if show[k] == nil {
			sym.Assert(x.Null, "null")
		} else {
			sym.Assert(!x.Null && (x.S == *show[k] || x.S == *num[k]), "value of row "+itoa(i))
		}
	}
}

// ---- PostgreSQL dump ----

type pgTable struct {
	name  string
	cols  []string
	types []string
	rows  [][]string
}

func (t *pgTable) col(name string) int {
	for i, c := range t.cols {
		if c == name {
			return i
		}
	}
	sym.Assert(false, "the table "+t.name+" of the dump has no column "+name)
	return -1
}

func (t *pgTable) want(row int, col, val string) {
	c := t.col(col)
	sym.Assert(row < len(t.rows), "the table "+t.name+" of the dump has no row "+itoa(row))
	sym.Assert(t.rows[row][c] == val, "wrong value in the dump, row "+itoa(row))
}

// quoted reads a quoted identifier.
func quoted(s string) (name, rest string, ok bool) {
	if len(s) == 0 || s[0] != '"' {
		return "", s, false
	}
	var b []byte
	for i := 1; i < len(s); i++ {
		if s[i] == '"' {
			if i+1 < len(s) && s[i+1] == '"' {
				b = append(b, '"')
				i++
				continue
			}
			return string(b), s[i+1:], true
		}
		b = append(b, s[i])
	}
	return "", s, false
}

func space(s string) string {
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\t' || s[0] == '\n') {
		s = s[1:]
	}
	return s
}

func eat(s *string, w string) bool {
	t := space(*s)
	if strings.HasPrefix(t, w) {
		*s = t[len(w):]
		return true
	}
	return false
}

func must(ok bool, what string) { sym.Assert(ok, "the dump is not well-formed: "+what) }

// dump reads the dump, as psql would.
func (j *job) dump() []*pgTable {
	s := readFile(j.f.PGDump)
	sym.Log(s)
	var ts []*pgTable
	find := func(n string) *pgTable {
		for _, t := range ts {
			if t.name == n {
				return t
			}
		}
		return nil
	}
	for {
		s = space(s)
		if s == "" {
			return ts
		}
		switch {
		case eat(&s, "CREATE TABLE"):
			t := &pgTable{}
			var ok bool
			t.name, s, ok = quoted(space(s))
			must(ok, "name of a table")
			must(find(t.name) == nil, "table is created twice")
			must(eat(&s, "("), "(")
			for {
				var c string
				c, s, ok = quoted(space(s))
				must(ok, "name of a column")
				for _, o := range t.cols {
					must(o != c, "two columns of a name")
				}
				typ := ""
				for len(s) > 0 && s[0] != ',' && s[0] != ')' {
					typ += s[:1]
					s = s[1:]
				}
				typ = strings.TrimSpace(typ)
				must(typ != "", "a column without a type")
				t.cols = append(t.cols, c)
				t.types = append(t.types, typ)
				if eat(&s, ",") {
					continue
				}
				must(eat(&s, ")"), "end of columns")
				break
			}
			must(eat(&s, ";"), "end of a statement")
			ts = append(ts, t)
		case eat(&s, "COPY"):
			n, r, ok := quoted(space(s))
			s = r
			must(ok, "name of a table to copy to")
			t := find(n)
			must(t != nil, "copy to a table that does not exist")
			must(eat(&s, "("), "(")
			for i := 0; ; i++ {
				c, r, ok := quoted(space(s))
				s = r
				must(ok, "name of a column")
				must(i < len(t.cols) && t.cols[i] == c, "columns to copy are not those of the table")
				if eat(&s, ",") {
					continue
				}
				must(i+1 == len(t.cols), "columns to copy are not those of the table")
				must(eat(&s, ")"), "end of columns")
				break
			}
			must(eat(&s, "FROM stdin"), "source of the copy")
			must(eat(&s, "WITH (FORMAT csv)"), "format of the copy")
			must(strings.HasPrefix(s, ";\n"), "end of a statement")
			s = s[2:]
			for !strings.HasPrefix(s, "\\.\n") {
				must(s != "", "end of data")
				row, r, ok := csvRecord(s)
				must(ok, "CSV")
				must(len(row) == len(t.cols), "fields of a row are not those of the table")
				for i := range row {
					must(fits(row[i], t.types[i]), "value does not fit the type of the column "+t.cols[i])
					if strings.HasSuffix(strings.ToUpper(t.types[i]), "PRIMARY KEY") {
						for _, o := range t.rows[max(0, len(t.rows)-50):] {
							must(o[i] != row[i], "rows of the same primary key")
						}
					}
				}
				t.rows = append(t.rows, row)
				s = r
			}
			s = s[3:]
		case eat(&s, "SELECT"):
			i := strings.Index(s, ";\n")
			must(i >= 0, "end of a statement")
			s = s[i+2:]
		default:
			must(false, "unknown statement")
		}
	}
}

// csvRecord reads a record.
func csvRecord(s string) ([]string, string, bool) {
	i := 0
	for q := false; i < len(s); i++ {
		if s[i] == '"' {
			q = !q
		}
		if s[i] == '\n' && !q {
			break
		}
	}
	if i == len(s) {
		return nil, s, false
	}
	rows, ok := parseCSV(s[:i+1])
	if !ok || len(rows) != 1 {
		return nil, s, false
	}
	return rows[0], s[i+1:], true
}

// fits reports whether PostgreSQL reads the field as the type; empty is NULL.
func fits(v, typ string) bool {
	typ = strings.ToUpper(typ)
	if v == "" {
		return typ != "INT8 PRIMARY KEY"
	}
	switch typ {
	case "INT8", "INT8 PRIMARY KEY", "BIGINT", "BIGINT PRIMARY KEY":
		if v[0] == '-' || v[0] == '+' {
			v = v[1:]
		}
		if len(v) == 0 || len(v) > 18 {
			return v == "9223372036854775807"
		}
		for i := 0; i < len(v); i++ {
			if v[i] < '0' || v[i] > '9' {
				return false
			}
		}
		return true
	case "BOOL", "BOOLEAN":
		return v == "true" || v == "false"
	case "FLOAT8", "DOUBLE PRECISION":
		for i := 0; i < len(v); i++ {
			if !strings.Contains("0123456789.eE+-", v[i:i+1]) {
				return false
			}
		}
		if strings.ContainsAny(v, "eE") {
			f, err := strconv.ParseFloat(v, 64)
			m, _, _ := strings.Cut(strings.ToLower(v), "e")
			return err == nil && (f != 0 || !strings.ContainsAny(m, "123456789"))
		}
		return true
	}
	return true
}

// PGContent: the dump loads into tables with a row per line.
func PGContent() {
	lit, val := strLit(sym.Param("len"))
	n := sym.Param("lines")
	s := ""
	var rows [][2]string
	for i := 0; i < n; i++ {
		switch sym.Choose(6) {
		case 0:
			s += `{"a":` + lit + `,"b":12}` + "\n"
			rows = append(rows, [2]string{val, "12"})
		case 1:
			s += `{"a":null,"b":34}` + "\n"
			rows = append(rows, [2]string{"", "34"})
		case 2:
			s += `{"b":` + "\n"
			rows = append(rows, [2]string{})
		case 3:
			s += `{"a":true,"b":-5}` + "\n"
			rows = append(rows, [2]string{"true", "-5"})
		case 4:
			s += "\n"
			rows = append(rows, [2]string{})
		case 5:
			s += `{"a":[],"b":{}}` + "\n"
			rows = append(rows, [2]string{})
		}
	}
	s += `{"a":"last","b":0}` + "\n"
	rows = append(rows, [2]string{"last", "0"})
	j := newJob(s).pg()
	j.ok()
	if strings.Contains(readFile(j.f.PGDump), "\x00") {
		sym.Known("pg-zero-byte")
		sym.Assert(false, "a zero byte in the dump, which PostgreSQL does not load")
	}
	ts := j.dump()
	sym.Assert(len(ts) == 1 && ts[0].name == "t", "one table")
	t := ts[0]
	sym.Assert(len(t.cols) == 3 && t.cols[0] == "_seq_id", "the first column is the number of the row")
	sym.Assert(len(t.rows) == len(rows), "the number of rows is not the number of lines")
	for i, r := range rows {
		t.want(i, "_seq_id", itoa(i+1))
		t.want(i, ".a", r[0])
		t.want(i, ".b", r[1])
	}
}

// PGTypes: the type of a column admits all its values, in whatever order they
// come, and is not wider than needed.
func PGTypes() {
	d := string([]byte{sym.ByteIn("123456789")})
	vals := []struct{ lit, val, typ string }{
		{d, d, "INT8"}, {"-" + d + "0", "-" + d + "0", "INT8"}, {"0", "0", "INT8"}, {"9007199254740993", "9007199254740993", "INT8"},
		{"2." + d, "2." + d, "FLOAT8"}, {"1.0", "1.0", "FLOAT8"}, {d + "e2", d + "e2", "FLOAT8"}, {"1e300", "1e300", "FLOAT8"}, {"0.0", "0.0", "FLOAT8"}, {"0e999", "0e999", "FLOAT8"},
		{"1e400", "1e400", "VARCHAR"}, {"-" + d + "e-400", "-" + d + "e-400", "VARCHAR"},
		{"-9223372036854775809", "-9223372036854775809", "FLOAT8"}, {"123456789012345678901", "123456789012345678901", "FLOAT8"},
		{"true", "true", "BOOL"}, {"false", "false", "BOOL"}, {`"x"`, "x", "VARCHAR"}, {`"` + d + `"`, d, "VARCHAR"}, {"null", "", ""}, {"[]", "", ""}, {"{}", "", ""},
	}
	n := sym.Param("lines")
	s := ""
	typ := ""
	var want []string
	for i := 0; i < n; i++ {
		v := vals[sym.Choose(len(vals))]
		s += `{"a":` + v.lit + `,"b":0}` + "\n"
		want = append(want, v.val)
		switch {
		case v.typ == "" || v.typ == typ:
		case typ == "":
			typ = v.typ
		case (typ == "INT8" || typ == "FLOAT8") && (v.typ == "INT8" || v.typ == "FLOAT8"):
			typ = "FLOAT8"
		default:
			typ = "VARCHAR"
		}
	}
	j := newJob(s).pg()
	j.ok()
	t := j.dump()[0]
	if len(t.cols) == 2 {
		sym.Assert(typ == "", "a column is missing")
		return
	}
	if typ == "" {
		typ = "VARCHAR"
	}
	sym.Assert(t.types[t.col(".a")] == typ, "type of the column is not "+typ)
	sym.Assert(t.types[t.col(".b")] == "INT8", "type of the column is not INT8")
	for i := range want {
		t.want(i, ".a", want[i])
	}
}

// SQLSplit: with more columns than a table may have, the columns are split
// over tables, none has too many, and no value is lost or moved.
func SQLSplit() {
	m := 2 + sym.Choose(sym.Param("max")-1)
	n := 1 + sym.Choose(sym.Param("cols"))
	c := string([]byte{sym.ByteIn(alnum)})
	kind := sym.Choose(4)
	l1, l2 := "{", "{"
	var v1, v2 []*string
	for i := 0; i < n; i++ {
		if i > 0 {
			l1 += ","
			l2 += ","
		}
		l1 += `"k` + itoa(i) + `":`
		l2 += `"k` + itoa(i) + `":`
		a, b := sp(c+itoa(i)), sp(itoa(i))
		switch kind {
		case 0: // strings
			l1 += `"` + *a + `"`
			l2 += `"` + *b + `"`
		case 1: // booleans, true and false by turns
			a, b = sp([]string{"true", "false"}[i%2]), sp([]string{"false", "true"}[i%2])
			l1 += *a
			l2 += *b
		case 2: // numbers
			b = sp("0")
			a = sp([]string{"0", "7", "-1.5"}[i%3])
			l1 += *a
			l2 += *b
		case 3: // values of one of the lines only
			l2 += "null"
			b = nil
			if i%2 == 0 {
				l1 += `"` + *a + `"`
			} else {
				l1 += "null"
				a = nil
			}
		}
		v1, v2 = append(v1, a), append(v2, b)
	}
	j := newJob(l1 + "}\n" + l2 + "}\n").pg().sqlite()
	j.f.SQLMaxCols = m
	j.ok()
	parts := (n + m - 2) / (m - 1)
	name := func(i int) string {
		if i == 0 {
			return "t"
		}
		return "t_part" + itoa(i+1)
	}
	ts := j.tables()
	sym.Assert(len(ts) == parts, "the number of tables")
	d := j.dump()
	sym.Assert(len(d) == parts, "the number of tables of the dump")
	for p := 0; p < parts; p++ {
		t := findTable(ts, name(p))
		sym.Assert(len(t.Cols) <= m, "too many columns")
		sym.Assert(len(t.Rows) == 2, "two rows")
		wantCell(t, 0, "_seq_id", sp("1"), "number")
		wantCell(t, 1, "_seq_id", sp("2"), "number")
		var g *pgTable
		for _, x := range d {
			if x.name == name(p) {
				g = x
			}
		}
		sym.Assert(g != nil, "no table "+name(p)+" in the dump")
		sym.Assert(len(g.cols) <= m, "too many columns in the dump")
		sym.Assert(len(g.rows) == 2, "two rows in the dump")
		g.want(0, "_seq_id", "1")
		g.want(1, "_seq_id", "2")
		k := 0
		for i := p * (m - 1); i < (p+1)*(m-1) && i < n; i++ {
			for r, v := range []*string{v1[i], v2[i]} {
				wantCell(t, r, ".k"+itoa(i), v, "value")
				if v == nil {
					v = sp("")
				}
				g.want(r, ".k"+itoa(i), *v)
			}
			k++
		}
		sym.Assert(len(t.Cols) == k+1 && len(g.cols) == k+1, "number of columns")
	}
}

// SQLSplitTransposed: the tables of transposed keys are split like the main
// one, whichever of them has more columns.
func SQLSplitTransposed() {
	m := 3 + sym.Choose(sym.Param("max")-2)
	n := 1 + sym.Choose(sym.Param("cols"))
	e := sym.Choose(sym.Param("cols")) // fields of an element
	c := word(1, alnum)
	l1, l2 := `{"m":[`, `{"m":[`
	for k := 0; k < 2; k++ {
		l1 += `{`
		for i := 0; i < e; i++ {
			if i > 0 {
				l1 += ","
			}
			l1 += `"f` + itoa(i) + `":"` + c + itoa(k) + itoa(i) + `"`
		}
		if e == 0 {
			l1 = l1[:len(l1)-1] + `"` + c + itoa(k) + `"`
		} else {
			l1 += `}`
		}
		if k == 0 {
			l1 += ","
		}
	}
	l1 += "]"
	l2 += "]"
	for i := 0; i < n; i++ {
		l1 += `,"k` + itoa(i) + `":"` + c + itoa(i) + `"`
		l2 += `,"k` + itoa(i) + `":"` + itoa(i) + `"`
	}
	j := newJob(l1 + "}\n" + l2 + "}\n").pg().sqlite()
	j.cfg.Transpose = map[string]string{".m": "mm"}
	j.f.SQLMaxCols = m
	j.ok()
	// The tables as they are in either output.
	type tbl struct {
		name string
		cols []string
		rows [][]string
	}
	var dump, lite []tbl
	for _, t := range j.dump() {
		dump = append(dump, tbl{t.name, t.cols, t.rows})
	}
	for _, t := range j.tables() {
		x := tbl{name: t.Name, cols: t.Cols}
		for _, r := range t.Rows {
			var row []string
			for _, v := range r {
				row = append(row, v.S)
			}
			x.rows = append(x.rows, row)
		}
		lite = append(lite, x)
	}
	check := func(ts []tbl, msg string) {
		next := [2]int{}
		for _, t := range ts {
			sym.Assert(len(t.cols) <= m, msg+": too many columns in "+t.name)
			sym.Assert(t.cols[0] == "_seq_id", msg+": number of the row")
			sub := strings.HasPrefix(t.name, "t_mm")
			sym.Assert(sub || strings.HasPrefix(t.name, "t"), msg+": name of a table")
			sym.Assert(len(t.rows) == 2, msg+": rows of "+t.name)
			for r := range t.rows {
				sym.Assert(t.rows[r][0] == itoa(r+1) || sub && t.rows[r][0] == "1", msg+": number of the row")
			}
			for k := 1; k < len(t.cols); k++ {
				if !sub {
					i := itoa(next[0])
					sym.Assert(t.cols[k] == ".k"+i, msg+": column "+t.cols[k]+" in "+t.name)
					sym.Assert(t.rows[0][k] == c+i && t.rows[1][k] == i, msg+": value of "+t.cols[k])
					next[0]++
					continue
				}
				i := next[1] - 2
				for r := range t.rows {
					name, v := ".f"+itoa(i), c+itoa(r)+itoa(i)
					switch {
					case i == -2:
						name, v = "._sequence", "1"
					case i == -1:
						name, v = "._index", itoa(r)
					case e == 0:
						name, v = "._value", c+itoa(r)
					}
					sym.Assert(t.cols[k] == name, msg+": column "+t.cols[k]+" in "+t.name)
					sym.Assert(t.rows[r][k] == v, msg+": value of "+name)
				}
				next[1]++
			}
		}
		k := e
		if k == 0 {
			k = 1
		}
		sym.Assert(next == [2]int{n, k + 2}, msg+": a column is missing")
		for i := range ts {
			for k := 0; k < i; k++ {
				sym.Assert(ts[i].name != ts[k].name, msg+": two tables of a name")
			}
		}
	}
	check(dump, "dump")
	// Order of the tables of the file: those of a destination by number of the part.
	var main, sub []tbl
	for i := 0; len(main)+len(sub) < len(lite) && i <= len(lite); i++ {
		for _, t := range lite {
			part := "_part" + itoa(i+1)
			if i == 0 {
				part = ""
			}
			if t.name == "t"+part {
				main = append(main, t)
			}
			if t.name == "t_mm"+part {
				sub = append(sub, t)
			}
		}
	}
	sym.Assert(len(main)+len(sub) == len(lite), "names of tables")
	check(append(main, sub...), "SQLite")
}

// ManyRows: more rows than are written at once, with and without transposed ones,
// whose number shifts where a batch ends.
func ManyRows() {
	n := sym.Param("lines")
	c := word(1, alnum)
	tr := sym.Bool()
	first, last := 1, 0
	if tr {
		first, last = sym.Choose(3), sym.Choose(2)
	} else if sym.Param("out") == 0 {
		n *= 2
	}
	var sb strings.Builder
	type trow struct{ seq, idx, val string }
	var ids []string
	var want []trow
	for i := 0; i < n; i++ {
		v, els := itoa(i), 1
		if !tr {
			els = 0
		}
		switch {
		case i == n-1:
			v = c
			els += last
		case i == 0 && tr:
			els = first
		}
		sb.WriteString(`{"id":"` + v + `","t":[`)
		for e := 0; e < els; e++ {
			if e > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(`"` + v + `"`)
			want = append(want, trow{itoa(i + 1), itoa(e), v})
		}
		sb.WriteString("]}\n")
		ids = append(ids, v)
	}
	j := newJob(sb.String())
	j.cfg.IncludeKeys = []string{".id"}
	tables := 1
	if tr {
		j.cfg.IncludeKeys = []string{".id", ".t.[0]", ".t.[1]"}
		j.cfg.Transpose = map[string]string{".t": "tt"}
		tables = 2
	}
	if sym.Param("out") == 0 {
		j.sqlite().ok()
		ts := j.tables()
		sym.Assert(len(ts) == tables, "tables")
		a := findTable(ts, "t")
		sym.Assert(len(a.Rows) == n, "rows of the table")
		id := colOf(a, ".id")
		for i, w := range ids {
			sym.Assert(a.Rows[i][0].S == itoa(i+1) && a.Rows[i][id].S == w, "row of the table")
		}
		if !tr {
			return
		}
		b := findTable(ts, "t_tt")
		sym.Assert(len(b.Rows) == len(want), "rows of the transposed table")
		seq, idx, val := colOf(b, "_seq_id"), colOf(b, "._index"), colOf(b, "._value")
		for i, w := range want {
			r := b.Rows[i]
			sym.Assert(r[seq].S == w.seq && r[idx].S == w.idx && r[val].S == w.val, "row of the transposed table")
		}
		return
	}
	j.pg().ok()
	ts := j.dump()
	sym.Assert(len(ts) == tables && ts[0].name == "t", "tables")
	sym.Assert(len(ts[0].rows) == n, "rows of the table")
	for i, w := range ids {
		r := ts[0].rows[i]
		sym.Assert(len(r) == 2 && r[0] == itoa(i+1) && r[1] == w, "row of the table")
	}
	if !tr {
		return
	}
	sym.Assert(ts[1].name == "t_tt" && len(ts[1].rows) == len(want), "rows of the transposed table")
	for i, w := range want {
		r := ts[1].rows[i]
		sym.Assert(len(r) == 4 && r[0] == w.seq && r[1] == w.seq && r[2] == w.idx && r[3] == w.val, "row of the transposed table")
	}
}
