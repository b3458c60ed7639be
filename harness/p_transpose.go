package verifharness

import (
	"strings"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

// item is an element of a transposed value: its index and its fields.
type item struct {
	idx    string
	fields [][2]string
}

// element makes an element of a transposed value.
func element() (string, [][2]string) {
	c := string([]byte{sym.ByteIn(alnum)})
	switch sym.Choose(sym.Param("kinds")) {
	case 6:
		return `null`, [][2]string{{"._value", ""}}
	case 7:
		return `{"x":null,"y":""}`, [][2]string{{".x", ""}, {".y", ""}}
	case 8:
		return `false`, [][2]string{{"._value", "false"}}
	case 0:
		return `"` + c + `"`, [][2]string{{"._value", c}}
	case 1:
		return `12`, [][2]string{{"._value", "12"}}
	case 2:
		return `{"x":"` + c + `"}`, [][2]string{{".x", c}}
	case 3:
		return `{"y":true,"x":3}`, [][2]string{{".y", "true"}, {".x", "3"}}
	case 4:
		return `[7]`, [][2]string{{".[0]", "7"}}
	default:
		return `{}`, nil
	}
}

// transposedValue makes a value at a transposed key.
func transposedValue() (string, []item) {
	switch sym.Choose(9) {
	case 8: // indexes that differ by zeros only
		e, f := element()
		return `{"07":` + e + `,"7":{"x":5},"007":"q","0":1,"[01]":"r","[1]":"s"}`, []item{{"07", f}, {"7", [][2]string{{".x", "5"}}}, {"007", [][2]string{{"._value", "q"}}}, {"0", [][2]string{{"._value", "1"}}}, {"[01]", [][2]string{{"._value", "r"}}}, {"1", [][2]string{{"._value", "s"}}}}
	case 7:
		e, f := element()
		return `["",` + e + `,"q"]`, []item{{"0", [][2]string{{"._value", ""}}}, {"1", f}, {"2", [][2]string{{"._value", "q"}}}}
	case 0:
		e, f := element()
		return `[` + e + `]`, []item{{"0", f}}
	case 1:
		e, f := element()
		return `["q",` + e + `]`, []item{{"0", [][2]string{{"._value", "q"}}}, {"1", f}}
	case 2:
		e, f := element()
		return `{"k":` + e + `}`, []item{{"k", f}}
	case 3:
		e, f := element()
		return `{"l":` + e + `,"k":{"x":5}}`, []item{{"l", f}, {"k", [][2]string{{".x", "5"}}}}
	case 4:
		return `[]`, nil
	case 5:
		return `{}`, nil
	default:
		return ``, nil
	}
}

// trow is a row of a transposed table.
type trow struct {
	seq, idx string
	vals     map[string]string
}

// container tells if some line has an object or an array at the index.
func container(lines [][]item, idx string) bool {
	for _, l := range lines {
		for _, it := range l {
			if it.idx == idx && (len(it.fields) == 0 || it.fields[0][0] != "._value") {
				return true
			}
		}
	}
	return false
}

// optional tells if the element may have no row.
func optional(lines [][]item, it item) bool {
	return len(it.fields) > 0 && it.fields[0] == [2]string{"._value", ""} && container(lines, it.idx)
}

// wantTransposed asserts that the rows are exactly the items of the lines.
func wantTransposed(rows []trow, lines [][]item, msg string) {
	n := 0
	for i, l := range lines {
		for _, it := range l {
			if len(it.fields) == 0 {
				continue
			}
			if optional(lines, it) {
				// A path with nothing but nulls and containers may have no column.
				for _, r := range rows {
					if r.seq == itoa(i+1) && r.idx == it.idx {
						n++
					}
				}
				continue
			}
			n++
			found := 0
			for _, r := range rows {
				if r.seq != itoa(i+1) || r.idx != it.idx {
					continue
				}
				found++
				for _, f := range it.fields {
					sym.Assert(r.vals[f[0]] == f[1], msg+": value of line "+itoa(i+1)+", "+it.idx+f[0])
				}
				k := 0
				for _, v := range r.vals {
					if v != "" {
						k++
					}
				}
				for _, f := range it.fields {
					if f[1] == "" {
						k++
					}
				}
				sym.Assert(k == len(it.fields), msg+": values that are not of line "+itoa(i+1))
			}
			sym.Assert(found == 1, msg+": the element "+it.idx+" of line "+itoa(i+1)+" has not exactly one row")
		}
	}
	sym.Assert(len(rows) == n, msg+": rows without an element")
	for i := 1; i < len(rows); i++ {
		sym.Assert(atoi(rows[i-1].seq) <= atoi(rows[i].seq), msg+": rows are not in the order of lines")
	}
}

func atoi(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func transposedCSV(s, msg string) []trow {
	rows, ok := parseCSV(s)
	sym.Assert(ok && len(rows) > 0, msg+": not well-formed")
	h := rows[0]
	sym.Assert(len(h) >= 2 && h[0] == "._sequence" && h[1] == "._index", msg+": the first columns are the line and the index")
	var r []trow
	for _, x := range rows[1:] {
		sym.Assert(len(x) == len(h), msg+": number of fields")
		t := trow{x[0], x[1], map[string]string{}}
		for i := 2; i < len(h); i++ {
			_, dup := t.vals[h[i]]
			sym.Assert(!dup, msg+": two columns of a name")
			t.vals[h[i]] = x[i]
		}
		r = append(r, t)
	}
	return r
}

// Transpose: values under a transposed prefix are rows of the table of the
// prefix, with the number of the line and the index or the key of the element;
// nothing of them is left in the main table, and nothing else is affected.
func Transpose() {
	n := sym.Param("lines")
	s := ""
	var lines [][]item
	nested := sym.Bool()
	key := ".m"
	if nested {
		key = ".o.m"
	}
	for i := 0; i < n; i++ {
		v, items := transposedValue()
		lines = append(lines, items)
		s += `{"id":` + itoa(i)
		if v != "" {
			if nested {
				s += `,"o":{"m":` + v + `,"z":"z"}`
			} else {
				s += `,"m":` + v
			}
		}
		s += `,"end":9}` + "\n"
	}
	any, may := false, false
	for _, l := range lines {
		for _, it := range l {
			any = any || len(it.fields) > 0 && !optional(lines, it)
			may = may || len(it.fields) > 0
		}
	}
	j := newJob(s)
	j.cfg.Transpose = map[string]string{key: "mm"}
	out := sym.Param("out")
	if out == 0 {
		j.csv()
	} else {
		j.sqlite().pg()
	}
	j.ok()
	switch out {
	case 0:
		t := j.table()
		if !any && may {
			any = exists(tmp("o_mm.csv"))
		}
		t.rect()
		for i, h := range t.head {
			sym.Assert(h == ".id" || h == ".end" || h == ".o.z", "column "+h+" in the main table")
			for k := 0; k < i; k++ {
				sym.Assert(t.head[k] != h, "two columns of a name")
			}
		}
		sym.Assert(len(t.rows) == n, "the number of rows is not the number of lines")
		for i := range lines {
			t.want(i, ".id", itoa(i), "id")
			t.want(i, ".end", "9", "end")
		}
		sym.Assert(exists(tmp("o_mm.csv")) == any, "file of the transposed table")
		if any {
			x := readFile(tmp("o_mm.csv"))
			sym.Log(x)
			wantTransposed(transposedCSV(x, "CSV"), lines, "CSV")
		}
	case 1:
		ts := j.tables()
		d := j.dump()
		if !any && may {
			any = len(ts) > 1
		}
		k := 1
		if any {
			k = 2
		}
		sym.Assert(len(ts) == k && len(d) == k, "number of tables")
		t := findTable(ts, "t")
		sym.Assert(len(t.Rows) == n && len(d[0].rows) == n && d[0].name == "t", "the number of rows is not the number of lines")
		for i := range lines {
			wantCell(t, i, "_seq_id", sp(itoa(i+1)), "number")
			wantCell(t, i, ".id", sp(itoa(i)), "id")
			d[0].want(i, ".id", itoa(i))
		}
		for _, c := range t.Cols {
			sym.Assert(c == "_seq_id" || c == ".id" || c == ".end" || c == ".o.z", "column "+c+" in the main table")
		}
		if !any {
			return
		}
		m := findTable(ts, "t_mm")
		var rows []trow
		for i := range m.Rows {
			r := trow{m.Rows[i][colOf(m, "._sequence")].S, m.Rows[i][colOf(m, "._index")].S, map[string]string{}}
			sym.Assert(m.Rows[i][colOf(m, "_seq_id")].S == r.seq, "numbers of a line differ")
			for k, c := range m.Cols {
				if c != "_seq_id" && c != "._sequence" && c != "._index" {
					r.vals[c] = m.Rows[i][k].S
				}
			}
			rows = append(rows, r)
		}
		wantTransposed(rows, lines, "SQLite")
		g := d[1]
		sym.Assert(g.name == "t_mm", "name of the transposed table")
		rows = nil
		for i := range g.rows {
			r := trow{g.rows[i][g.col("._sequence")], g.rows[i][g.col("._index")], map[string]string{}}
			sym.Assert(g.rows[i][g.col("_seq_id")] == r.seq, "numbers of a line differ")
			for k, c := range g.cols {
				if c != "_seq_id" && c != "._sequence" && c != "._index" {
					r.vals[c] = g.rows[i][k]
				}
			}
			rows = append(rows, r)
		}
		wantTransposed(rows, lines, "dump")
	}
}

// TransposeKeys: any key of an object is the index of its row, and keys of
// elements that differ by case are one column.
func TransposeKeys() {
	lit, key := strLit(sym.Param("len"))
	for i := 0; i < len(key); i++ {
		sym.Assume(key[i] != '.')
	}
	sym.Assume(key != "[0]" && key != "kk" && key != "KK")
	transposeKey(lit, key)
}

// TransposeBrackets: a key of an object that looks like indexes of arrays is the index of its row.
func TransposeBrackets() {
	key := word(1+sym.Choose(sym.Param("len")), "[]1x")
	idx := key
	if n := len(key); n > 2 && key[0] == '[' && key[n-1] == ']' && strings.Trim(key[1:n-1], "1") == "" {
		idx = key[1 : n-1] // the same as an element of an array
	}
	transposeKey(`"`+key+`"`, idx)
}

func transposeKey(lit, key string) {
	c := string([]byte{sym.ByteIn(alnum)})
	s, items := "", []item(nil)
	switch sym.Choose(3) {
	case 0:
		s, items = `{"m":{`+lit+`:"`+c+`"},"z":1}`, []item{{key, [][2]string{{"._value", c}}}}
	case 1:
		s, items = `{"m":{`+lit+`:{"x":"`+c+`"},"kk":3},"z":1}`, []item{{key, [][2]string{{".x", c}}}, {"kk", [][2]string{{"._value", "3"}}}}
	case 2:
		s, items = `{"m":{`+lit+`:{"x":"`+c+`"},"kk":{"X":3}},"z":1}`, []item{{key, [][2]string{{".x", c}}}, {"kk", [][2]string{{".x", "3"}}}}
	}
	j := newJob(s + "\n").csv().sqlite()
	j.cfg.Transpose = map[string]string{".m": "mm"}
	t := j.ok().table()
	t.headsInOrder("columns", ".z")
	t.want(0, ".z", "1", "z")
	x := readFile(tmp("o_mm.csv"))
	sym.Log(x)
	wantTransposed(transposedCSV(x, "CSV"), [][]item{items}, "CSV")
	sym.Assert(len(j.tables()) == 2, "number of tables")
}

// TransposeTwo: with several prefixes each key goes to the table of its
// longest prefix, whatever order they are in.
func TransposeTwo() {
	c := string([]byte{sym.ByteIn(alnum)})
	order := sym.Choose(2)
	l := []string{
		`{"a":{"p":{"b":["` + c + `"],"x":1}},"id":1}`,
		`{"a":{"p":{"x":1,"b":["` + c + `"]}},"id":1}`,
	}[order]
	j := newJob(l + "\n").csv()
	j.cfg.Transpose = map[string]string{".a": "ta", ".a.p.b": "tb", ".id2": "ti"}
	sym.MapOrderN(sym.Param("dev"))
	t := j.ok().table()
	t.headsInOrder("columns", ".id")
	wantTransposed(transposedCSV(readFile(tmp("o_ta.csv")), "ta"), [][]item{{{"p", [][2]string{{".x", "1"}}}}}, "ta")
	wantTransposed(transposedCSV(readFile(tmp("o_tb.csv")), "tb"), [][]item{{{"0", [][2]string{{"._value", c}}}}}, "tb")
	sym.Assert(!exists(tmp("o_ti.csv")), "a table without values")
}

// TransposeIncluded: transposition does not depend on the keys being listed.
func TransposeIncluded() {
	c := string([]byte{sym.ByteIn(alnum)})
	s := `{"id":"` + c + `","m":["` + c + `","x"]}` + "\n" + `{"id":2,"m":[3]}` + "\n"
	j := newJob(s).csv()
	j.cfg.Transpose = map[string]string{".m": "mm"}
	j.cfg.IncludeKeys = []string{".id", ".m.[0]"}
	t := j.ok().table()
	t.headsInOrder("columns", ".id")
	t.want(0, ".id", c, "id")
	t.want(1, ".id", "2", "id")
	x := readFile(tmp("o_mm.csv"))
	sym.Log(x)
	wantTransposed(transposedCSV(x, "CSV"), [][]item{{{"0", [][2]string{{"._value", c}}}}, {{"0", [][2]string{{"._value", "3"}}}}}, "CSV")
}

// wider merges types of the values of a column.
func wider(a, b string) string {
	switch {
	case b == "" || a == b:
		return a
	case a == "":
		return b
	case (a == "INT8" || a == "FLOAT8") && (b == "INT8" || b == "FLOAT8"):
		return "FLOAT8"
	}
	return "VARCHAR"
}

// PGTransposed: the types of the columns of a transposed table admit all values
// and are not wider than needed, its index included.
func PGTransposed() {
	n := sym.Param("lines")
	d, c := "4", word(1, alnum)
	types := map[string]string{}
	index := ""
	s := ""
	rows := 0
	for i := 0; i < n; i++ {
		k := 1 + sym.Choose(sym.Param("kids"))
		array := sym.Bool()
		v := ""
		for e := 0; e < k; e++ {
			lit, col, typ := "", "._value", ""
			switch sym.Choose(6) {
			case 0:
				lit, typ = d, "INT8"
			case 1:
				lit, typ = d+".5", "FLOAT8"
			case 2:
				lit, typ = `"`+c+`"`, "VARCHAR"
			case 3:
				lit, typ = `true`, "BOOL"
			case 4:
				lit, col, typ = `{"x":-`+d+`}`, ".x", "INT8"
			case 5:
				lit, col, typ = `{"x":"`+c+`"}`, ".x", "VARCHAR"
			}
			types[col] = wider(types[col], typ)
			if e > 0 {
				v += ","
			}
			if array {
				index = wider(index, "INT8")
				v += lit
			} else {
				index = wider(index, "VARCHAR")
				v += `"` + itoa(e+i) + `":` + lit // keys that look like numbers
			}
			rows++
		}
		if array {
			v = "[" + v + "]"
		} else {
			v = "{" + v + "}"
		}
		s += `{"id":1,"m":` + v + "}\n"
	}
	types["._sequence"], types["._index"], types["_seq_id"] = "INT8", index, "INT8"
	j := newJob(s).pg()
	j.cfg.Transpose = map[string]string{".m": "mm"}
	if dev := sym.Param("dev"); dev > 0 {
		sym.MapOrderN(dev)
	}
	ts := j.ok().dump()
	sym.Assert(len(ts) == 2 && ts[1].name == "t_mm", "tables")
	m := ts[1]
	sym.Assert(len(m.cols) == len(types), "number of columns")
	sym.Assert(len(m.rows) == rows, "number of rows")
	for i, c := range m.cols {
		sym.Assert(m.types[i] == types[c], "type of "+c+" is not "+types[c])
	}
}

// LongArrays: elements are found by their index, whatever number of digits it has.
func LongArrays() {
	n := []int{1, 2, 10, 11, 100, 101, 102}[sym.Choose(sym.Param("sizes"))]
	c := word(1, alnum)
	objects := sym.Bool()
	doc := `{"id":7,"m":[`
	var items []item
	for i := 0; i < n; i++ {
		if i > 0 {
			doc += ","
		}
		v, f := itoa(i), "._value"
		if i+1 == n {
			v = c
		}
		if objects {
			f = ".x"
			doc += `{"x":"` + v + `"}`
		} else {
			doc += `"` + v + `"`
		}
		items = append(items, item{itoa(i), [][2]string{{f, v}}})
	}
	doc += "]}"
	j := newJob(doc + "\n").csv()
	j.f.ChildrenLimit = 0
	name := func(i int) string {
		s := ".m.[" + itoa(i) + "]"
		if objects {
			s += ".x"
		}
		return s
	}
	switch sym.Choose(4) {
	case 0:
		t := j.ok().table()
		want := []string{".id"}
		for i := range items {
			want = append(want, name(i))
		}
		t.headsInOrder("columns", want...)
		for i, it := range items {
			t.want(0, name(i), it.fields[0][1], "element")
		}
	case 1: // listed
		j.cfg.IncludeKeys = []string{name(n - 1)}
		if sym.Bool() {
			j.cfg.IncludeKeys = append(j.cfg.IncludeKeys, ".id")
		}
		t := j.ok().table()
		t.headsInOrder("columns", j.cfg.IncludeKeys...)
		t.want(0, name(n-1), c, "element")
	case 2:
		j.cfg.Transpose = map[string]string{".m": "mm"}
		j.ok()
		wantTransposed(transposedCSV(readFile(tmp("o_mm.csv")), "CSV"), [][]item{items}, "CSV")
	case 3:
		j.pg().sqlite()
		j.cfg.Transpose = map[string]string{".m": "mm"}
		ts := j.ok().dump()
		sym.Assert(len(ts) == 2, "tables of the dump")
		g := ts[1]
		sym.Assert(g.types[g.col("._index")] == "INT8", "type of the index")
		m := findTable(j.tables(), "t_mm")
		sym.Assert(len(g.rows) == n && len(m.Rows) == n, "a row per element")
		for i, it := range items {
			g.want(i, "._index", it.idx)
			g.want(i, it.fields[0][0], it.fields[0][1])
			wantCell(m, i, "._index", &it.idx, "index")
			wantCell(m, i, it.fields[0][0], &it.fields[0][1], "element")
		}
	}
}
