package verifharness

import (
	"sort"
	"strings"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

// leaf is a scalar of a document.
type leaf struct {
	path string
	val  string
	kind byte // 'n' for null, 'c' for a container
}

// tree makes a value: its JSON text and its leaves in document order.
func tree(path string, depth int) (string, []leaf) {
	k := 4
	if depth < 0 {
		k = 2
	}
	switch sym.Choose(k) {
	case 0:
		c := string([]byte{sym.ByteIn(alnum)})
		return `"` + c + `"`, []leaf{{path, c, 0}}
	case 1:
		lit := []string{"1", "null", "true", "1.5"}[sym.Choose(sym.Param("kinds"))]
		if lit == "null" {
			return lit, []leaf{{path, "", 'n'}}
		}
		return lit, []leaf{{path, lit, 0}}
	case 2:
		return object(path, depth-1)
	default:
		n := sym.Choose(3)
		s := "["
		ls := []leaf{{path, "", 'c'}}
		deep := 0
		if n > 1 && depth > 0 && sym.Param("wide") == 0 {
			deep = sym.Choose(n)
		}
		for i := 0; i < n; i++ {
			d := depth - 1
			if i != deep && sym.Param("wide") == 0 {
				d = -1
			}
			t, l := tree(path+".["+itoa(i)+"]", d)
			if i > 0 {
				s += ","
			}
			s += t
			ls = append(ls, l...)
		}
		return s + "]", ls
	}
}

// object makes an object with some of the keys a and b.
func object(path string, depth int) (string, []leaf) {
	order := [][]string{{}, {"a"}, {"b"}, {"a", "b"}, {"b", "a"}}[sym.Choose(5)]
	s := "{"
	ls := []leaf{{path, "", 'c'}}
	deep := 0
	if len(order) > 1 && depth >= 0 && sym.Param("wide") == 0 {
		deep = sym.Choose(len(order))
	}
	for i, k := range order {
		d := depth
		if i != deep && sym.Param("wide") == 0 {
			d = -1
		}
		t, l := tree(path+"."+k, d)
		if i > 0 {
			s += ","
		}
		s += `"` + k + `":` + t
		ls = append(ls, l...)
	}
	return s + "}", ls
}

// checkTable asserts that the table has the leaves of the lines and nothing else.
func checkTable(t *tab, lines [][]leaf, inOrder bool) {
	t.rect()
	var heads []string
	state := map[string]int{} // 1: a scalar, 2: null, 4: a container
	for _, ls := range lines {
		for _, l := range ls {
			switch l.kind {
			case 0:
				state[l.path] |= 1
			case 'n':
				state[l.path] |= 2
			default:
				state[l.path] |= 4
			}
		}
	}
	seen := map[string]bool{}
	for _, ls := range lines {
		for _, l := range ls {
			st := state[l.path]
			// A path with nothing but nulls and containers may have no column.
			if !seen[l.path] && (st&1 != 0 || st == 2 || st == 6 && t.col(l.path) >= 0) {
				seen[l.path] = true
				heads = append(heads, l.path)
			}
		}
	}
	if len(heads) == 0 {
		sym.Assert(len(t.head) == 1 && t.head[0] == "", "columns without values")
		return
	}
	if inOrder {
		t.headsInOrder("columns", heads...)
	} else {
		t.heads("columns", heads...)
	}
	sym.Assert(len(t.rows) == len(lines), "the number of rows is not the number of lines")
	for i, ls := range lines {
		vals := map[string]string{}
		for _, l := range ls {
			if l.kind == 0 {
				vals[l.path] = l.val
			}
		}
		for _, h := range heads {
			t.want(i, h, vals[h], "value")
		}
	}
}

// Columns: the columns are the paths of the leaves of all the lines, in order
// of appearance; each leaf is in the row of its line, and nothing else is.
func Columns() {
	n := sym.Param("lines")
	depth := sym.Param("depth")
	s := ""
	var lines [][]leaf
	for i := 0; i < n; i++ {
		t, ls := object("", depth)
		s += t + "\n"
		lines = append(lines, ls)
	}
	t := newJob(s).csv().ok().table()
	checkTable(t, lines, sym.Param("lines") == 1)
}

// ColumnsShapes: the same for lines that disagree on the shape of a value.
func ColumnsShapes() {
	shape := func(rest string) (string, []leaf) {
		tail := leaf{"." + rest, "7", 0}
		lit, ls := "", []leaf(nil)
		switch sym.Choose(9) {
		case 0:
			lit, ls = `1`, []leaf{{".a", "1", 0}}
		case 1:
			lit, ls = `"s"`, []leaf{{".a", "s", 0}}
		case 2:
			lit, ls = `{"x":2}`, []leaf{{".a", "", 'c'}, {".a.x", "2", 0}}
		case 3:
			lit, ls = `[3]`, []leaf{{".a", "", 'c'}, {".a.[0]", "3", 0}}
		case 4:
			lit, ls = `null`, []leaf{{".a", "", 'n'}}
		case 5:
			lit, ls = `true`, []leaf{{".a", "true", 0}}
		case 6:
			lit, ls = `1.5`, []leaf{{".a", "1.5", 0}}
		case 7:
			lit, ls = `{}`, []leaf{{".a", "", 'c'}}
		default:
			lit, ls = `[]`, []leaf{{".a", "", 'c'}}
		}
		return `{"a":` + lit + `,"` + rest + `":7}`, append(ls, tail)
	}
	s := ""
	var lines [][]leaf
	for i := 0; i < sym.Param("lines"); i++ {
		t, ls := shape(string([]byte{byte('p' + i)}))
		s += t + "\n"
		lines = append(lines, ls)
	}
	j := newJob(s).csv()
	if sym.Param("opts") > 0 {
		neutral(j)
	}
	checkTable(j.ok().table(), lines, false)
}

// ColumnNames: the name of a column is the path of its values, with the keys
// as they are (whatever their bytes), and the CSV is well-formed.
func ColumnNames() {
	n := sym.Param("len")
	lit, key := strLit(n)
	vlit, val := strLit(1)
	// Dots join the segments of a path.
	for i := 0; i < len(key); i++ {
		sym.Assume(key[i] != '.')
	}
	sym.Assume(strings.ToLower(key) != "zz")
	var line, name string
	switch sym.Choose(3) {
	case 0:
		line, name = `{"zz":1,`+lit+`:`+vlit+`}`, "."+key
	case 1:
		line, name = `{"zz":1,"o":{`+lit+`:`+vlit+`}}`, ".o."+key
	case 2:
		line, name = `{"zz":1,`+lit+`:{"p":[`+vlit+`]}}`, "."+key+".p.[0]"
	}
	j := newJob(line + "\n").csv()
	j.f.CaseSensitiveKeys = sym.Bool()
	t := j.ok().table()
	t.rect()
	t.headsInOrder("columns", ".zz", name)
	sym.Assert(len(t.rows) == 1, "one line is one row")
	t.want(0, name, val, "value")
	t.want(0, ".zz", "1", "value")
}

// KeyCase: keys that differ only by case are one column, unless keys are case sensitive.
func KeyCase() {
	k1, k2 := "", ""
	other := sym.Choose(3) // the first is that of ASCII
	switch other {
	case 0:
		k1, k2 = word(2, "aA"), word(2, "aA")
	case 1:
		two := []string{"é", "É"}
		k1, k2 = two[sym.Choose(2)], two[sym.Choose(2)]
	case 2:
		two := []string{"Жя", "жЯ", "ЖЯ"}
		k1, k2 = two[sym.Choose(3)], two[sym.Choose(3)]
	}
	line1 := `{"` + k1 + `":1,"z":0}`
	line2 := `{"z":5,"` + k2 + `":2}`
	j := newJob(line1 + "\n" + line2 + "\n").csv()
	sens := sym.Bool()
	j.f.CaseSensitiveKeys = sens
	if other == 0 {
		sym.MapOrder(true)
	} else {
		sym.MapOrderN(1)
	}
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == 2, "two lines are two rows")
	if sens && k1 != k2 {
		t.headsInOrder("columns", "."+k1, ".z", "."+k2)
		t.want(0, "."+k1, "1", "v")
		t.want(1, "."+k1, "", "v")
		t.want(0, "."+k2, "", "v")
		t.want(1, "."+k2, "2", "v")
	} else {
		t.headsInOrder("columns", "."+k1, ".z")
		t.want(0, "."+k1, "1", "v")
		t.want(1, "."+k1, "2", "v")
	}
	t.want(0, ".z", "0", "z")
	t.want(1, ".z", "5", "z")
}

// KeyCaseShapes: the same when some of the keys have objects or arrays.
func KeyCaseShapes() {
	var s string
	var vals, subs []string
	n := sym.Param("lines")
	for i := 0; i < n; i++ {
		k := word(1, "aA")
		v, sub := "", ""
		switch sym.Choose(5) {
		case 0:
			v = "1"
			s += `{"z":0,"` + k + `":1}`
		case 1:
			v = "s"
			s += `{"z":0,"` + k + `":"s"}`
		case 2:
			sub = "2"
			s += `{"z":0,"` + k + `":{"` + word(1, "xX") + `":2}}`
		case 3:
			s += `{"z":0,"` + k + `":[]}`
		case 4:
			s += `{"z":0,"` + k + `":null}`
		}
		s += "\n"
		vals, subs = append(vals, v), append(subs, sub)
	}
	t := newJob(s).csv().ok().table()
	t.rect()
	sym.Assert(len(t.rows) == n, "rows")
	cv, cs := -1, -1
	for c, h := range t.head {
		switch strings.ToLower(h) {
		case ".a":
			sym.Assert(cv < 0, "two columns of keys that differ by case")
			cv = c
		case ".a.x":
			sym.Assert(cs < 0, "two columns of keys that differ by case")
			cs = c
		default:
			sym.Assert(h == ".z", "column "+h)
		}
	}
	for i := range vals {
		sym.Assert(cv >= 0 || vals[i] == "", "a value has no column")
		sym.Assert(cv < 0 || t.rows[i][cv] == vals[i], "value")
		sym.Assert(cs >= 0 || subs[i] == "", "a nested value has no column")
		sym.Assert(cs < 0 || t.rows[i][cs] == subs[i], "nested value")
	}
}

// sortRows sorts rows of a transposed table, those of a line are in no particular order.
func sortRows(rows [][]string, seq, idx int) {
	if seq < 0 || idx < 0 {
		return
	}
	sort.SliceStable(rows, func(i, j int) bool {
		return rows[i][seq]+"/"+rows[i][idx] < rows[j][seq]+"/"+rows[j][idx]
	})
}

// CaseSettings: what is set for a key holds for the keys that differ by case from it: the
// outputs are those of documents and settings that have one spelling.
func CaseSettings() {
	k1, k2, k3 := word(1, "mM"), word(1, "mM"), word(1, "mM")
	set := sym.Choose(12)
	nested := sym.Bool()
	pre := ""
	if nested {
		pre = ".O"
	}
	c := word(1, alnum)
	vals := [][2]string{
		{`"` + c + `"`, `2`}, {`"2001-02-03"`, `"2011-12-13"`}, {`["` + c + `",{"x":1}]`, `[{"x":true},"y"]`},
		{`{"p":1,"q":"` + c + `"}`, `{"q":2}`}, {`0`, `"` + c + `"`}, {`null`, `""`},
	}[sym.Choose(6)]
	run := func(stem, a, b, m string) map[string]string {
		in := ""
		for i, k := range []string{a, b} {
			d := `"` + k + `":` + vals[i] + `,"z":` + itoa(i)
			if nested {
				d = `"O":{` + d + `}`
			}
			in += `{` + d + `,"e":9}` + "\n"
		}
		key := pre + "." + m
		j := newJob(in)
		j.f.CSV, j.f.PGDump = tmp(stem+".csv"), tmp(stem+".sql")
		switch set {
		case 0:
			j.cfg.ExcludeKeys = []string{key}
		case 1:
			j.cfg.ReplaceKeys = map[string]string{key: "new name", key + ".[0]": "zero", key + ".q": "queue"}
		case 2:
			j.cfg.ParseTime = map[string]string{key: "2006-01-02"}
			j.cfg.OutputTimeFormat = "02/01/06"
		case 3:
			j.cfg.Transpose = map[string]string{key: "tt"}
		case 4:
			d := "+"
			j.cfg.ConcatDelimiter = &d
			j.cfg.ReplaceKeys = map[string]string{key: "w", pre + ".z": "w"}
		case 5:
			j.f.SkipZeroCols = true
		case 6:
			j.f.ReplaceKeys = true
		case 7:
			j.cfg.AllowCardinality = []string{".none"}
		case 8:
			j.cfg.Transpose = map[string]string{key: "tt"}
			j.cfg.ExcludeKeys = []string{key + ".[1].x"}
			j.cfg.ReplaceKeys = map[string]string{key + ".q": "queue"}
		case 9:
			j.cfg.Transpose = map[string]string{key: "tt", key + ".[0]": "uu"}
		case 10:
			j.cfg.ParseTime = map[string]string{key: "2006-01-02"}
			j.cfg.ReplaceKeys = map[string]string{key: "time"}
		case 11:
			j.f.FieldLimit = 1
			j.f.AddSequence = true
		}
		j.ok()
		// Columns by names in lower case.
		res := map[string]string{}
		add := func(t, name, v string) {
			n := t + " " + strings.ToLower(name)
			_, dup := res[n]
			sym.Assert(!dup, "two columns of keys that differ by case")
			res[n] = v
		}
		for _, n := range []string{".csv", "_tt.csv", "_uu.csv"} {
			if !exists(tmp(stem + n)) {
				continue
			}
			t := parseTab(readFile(tmp(stem + n)))
			t.rect()
			sortRows(t.rows, t.col("._sequence"), t.col("._index"))
			for c, h := range t.head {
				v := itoa(len(t.rows))
				for _, r := range t.rows {
					v += "," + r[c]
				}
				add(n, h, v)
			}
		}
		for _, t := range j.dump() {
			if strings.HasPrefix(t.name, "t_") {
				sortRows(t.rows, t.col("._sequence"), t.col("._index"))
			}
			for c, h := range t.cols {
				v := t.types[c]
				for _, r := range t.rows {
					v += "," + r[c]
				}
				add(t.name, h, v)
			}
		}
		return res
	}
	one, two := run("p", k1, k1, k1), run("q", k1, k2, k3)
	sym.Assert(len(one) == len(two), "the columns depend on the case of keys")
	for n, v := range one {
		w, ok := two[n]
		sym.Assert(ok, "the columns depend on the case of keys: "+n)
		sym.Assert(v == w, "the values depend on the case of keys: "+n)
	}
}

// Determinism: the output does not depend on the order in which maps are iterated.
func Determinism() {
	lines := []string{
		`{"a":1,"b":"x"}` + "\n" + `{"b":2,"a":{"c":1}}`,
		`{"b":{"p":1,"q":"x"}}` + "\n" + `{"B":{"P":2.5}}`,
		`{"A":3,"c":[true,1]}` + "\n" + `{"a":"x"}`,
		`{"a":{"x":1},"b":{"x":2}}` + "\n" + `{"c":{"x":1.5},"b":[]}`,
	}[sym.Choose(4)] + "\n"
	sh := sym.Choose(4)
	mk := func() *job {
		j := newJob(lines)
		j.f.CSV = tmp("o.csv")
		j.f.PGDump = tmp("o.sql")
		switch sh {
		case 1:
			j.f.ReplaceKeys = true
		case 2:
			j.cfg.ReplaceKeys = map[string]string{".a": "x", ".b": "y", ".c": "z"}
		case 3:
			j.f.ShowKeysHier = true
			j.f.ShowKeysInfo = true
			j.f.ShowJSONSchema = true
		}
		return j
	}
	j := mk().ok()
	c1, p1, o1 := readFile(tmp("o.csv")), readFile(tmp("o.sql")), j.stdout.String()
	sym.MapOrderN(sym.Param("dev"))
	j = mk().ok()
	c2, p2, o2 := readFile(tmp("o.csv")), readFile(tmp("o.sql")), j.stdout.String()
	sym.Assert(c1 == c2, "the CSV depends on the order of maps")
	sym.Assert(p1 == p2, "the dump depends on the order of maps")
	sym.Assert(o1 == o2, "the output depends on the order of maps")
}

// ConfigOrder: settings that apply to the same key have one result, whatever the order of maps is.
func ConfigOrder() {
	lines := []string{
		`{"a":1,"b":{"c":"x","d":[1,2]},"A":3}` + "\n" + `{"b":{"C":2,"c":"y"},"a":5}`,
		`{"u":"http://h/p?q=1","v":"{\"w\":1,\"x\":2}"}` + "\n" + `{"v":"[1,2]","u":"{}"}`,
		`{"t":{"a":[{"k":1},{"k":2}],"b":"2001-02-03"},"T":"2001-02-03"}`,
	}[sym.Choose(3)] + "\n"
	sh := sym.Choose(11)
	mk := func() *job {
		j := newJob(lines)
		j.f.CSV = tmp("o.csv")
		j.f.PGDump = tmp("o.sql")
		c := &j.cfg
		switch sh {
		case 0:
			c.ReplaceKeysRegex = map[string]string{".b.*": "one_${1}", `^\.b\.(c)$`: "two_${1}", `^\.([a-z])`: "three_${1}"}
		case 1:
			extractAs(&c.ExtractValuesRegex, ".u", "URL")
			extractAs(&c.ExtractValuesRegex, ".*", "JSON")
		case 2:
			c.ReplaceKeys = map[string]string{".a": "x", ".A": "y", ".v": "n", ".V": "m", ".t.b": "k", ".T.b": "l"}
		case 3:
			c.IncludeKeys = []string{".A", ".a", ".b.C", ".B.c", ".v", ".T.b", ".t.b"}
		case 4:
			c.IncludeKeys = []string{".A", ".a", ".V", ".v", ".T", ".t"}
			c.IncludeKeysRegex = []string{".b.*", ".u.*", ".t.*"}
		case 5:
			c.ReplaceKeys = map[string]string{".a": "c", ".b.d.[0]": "c", ".u": "x", ".t.a.[0].k": "x"}
			j.f.ReplaceKeys = true
		case 6:
			c.Transpose = map[string]string{".b": "p", ".b.d": "q", ".t": "p", ".t.a": "q", ".v": "r"}
			c.ReplaceKeysRegex = map[string]string{"c": "one", "^c": "two", `k$`: "three", `_value`: "v", `^\._val`: "w"}
		case 7:
			c.ParseTime = map[string]string{".t.b": "2006-01-02", ".T.b": "2006-02-01", ".T": "2006-02-01", ".t": "RAW"}
			c.OutputTimeFormat = "02.01.2006"
		case 8:
			c.KeepJSON = []string{".b", ".b.d", ".t.a", ".T.a"}
			j.f.KeyLimit = 3
		case 9:
			j.f.ChildrenLimit = 1
			c.AllowCardinality = []string{".b", ".v"}
			j.f.ExtractStrings = true
			c.ReplaceKeys = map[string]string{".b.c": "x", ".b.d": "x"}
		case 10:
			c.ExcludeKeysRegex = []string{".b.*", ".u.*"}
			c.IncludeKeys = []string{"const:1", ".a", "const:2", ".A"}
			c.IncludeKeysRegex = []string{".*"}
			j.f.CaseSensitiveKeys = true
			j.f.SkipZeroCols = true
		}
		j.f.ShowKeysInfo = true
		j.f.ShowKeysFlat = true
		return j
	}
	j := mk().ok()
	c1, p1, o1 := readFile(tmp("o.csv")), readFile(tmp("o.sql")), j.stdout.String()
	sym.MapOrderN(sym.Param("dev"))
	j = mk().ok()
	c2, p2, o2 := readFile(tmp("o.csv")), readFile(tmp("o.sql")), j.stdout.String()
	sym.Assert(c1 == c2, "the CSV depends on the order of maps")
	sym.Assert(p1 == p2, "the dump depends on the order of maps")
	sym.Assert(o1 == o2, "the output depends on the order of maps")
}

// CaseSensitive: with case sensitive keys a setting applies to its key, and
// not to the key that differs by case.
func CaseSensitive() {
	k, o := word(1, "mM"), "m"
	if k == "m" {
		o = "M"
	}
	set := sym.Choose(9)
	c := word(1, alnum)
	a, b := c, "q"
	va, vb := `"`+c+`"`, `"q"`
	switch set {
	case 4:
		a, b, va, vb = "02/01/03", "2001-01-02", `"2003-01-02"`, `"2001-01-02"`
	case 5:
		va, vb = `[`+va+`]`, `[`+vb+`]`
	case 8:
		a, va, vb = `{"x":`+va+`}`, `{"x":`+va+`}`, `{"x":`+vb+`}`
	}
	in := `{"` + k + `":` + va
	switch sym.Choose(3) {
	case 0:
		in += `,"` + o + `":` + vb + `,"z":3}`
	case 1:
		in = `{"z":3,"` + o + `":` + vb + `,"` + k + `":` + va + `}`
	case 2:
		in += "}\n" + `{"` + o + `":` + vb + `,"z":3}`
	}
	j := newJob(in + "\n").csv()
	j.f.CaseSensitiveKeys = true
	want := map[string]string{"." + k: a, "." + o: b, ".z": "3"}
	switch set {
	case 0:
		j.cfg.ExcludeKeys = []string{"." + k}
		delete(want, "."+k)
	case 1:
		j.cfg.IncludeKeys = []string{"." + k}
		want = map[string]string{"." + k: a}
	case 2:
		j.cfg.IncludeKeysRegex = []string{"." + k}
		want = map[string]string{"." + k: a}
	case 3:
		j.cfg.ReplaceKeys = map[string]string{"." + k: "n"}
		delete(want, "."+k)
		want["n"] = a
	case 4:
		j.cfg.ParseTime = map[string]string{"." + k: "2006-01-02"}
		j.cfg.OutputTimeFormat = "02/01/06"
	case 5:
		j.cfg.Transpose = map[string]string{"." + k: "tt"}
		want = map[string]string{"." + o + ".[0]": b, ".z": "3"}
	case 6:
		j.cfg.ExcludeKeysRegex = []string{"." + k}
		delete(want, "."+k)
	case 7:
		j.cfg.ReplaceKeysRegex = map[string]string{"." + o: "n"}
		delete(want, "."+o)
		want["n"] = b
	case 8:
		j.cfg.KeepJSON = []string{"." + k}
		delete(want, "."+o)
		want["."+o+".x"] = b
	}
	if set == 4 {
		a = want["."+k]
		want["."+k] = "02/01/03"
	}
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.head) == len(want), "number of columns")
	for _, h := range t.head {
		w, ok := want[h]
		sym.Assert(ok, "column of another key")
		v := ""
		for i := range t.rows {
			v += t.rows[i][t.col(h)]
		}
		sym.Assert(v == w, "value of "+h)
	}
	if set == 5 {
		wantTransposed(transposedCSV(readFile(tmp("o_tt.csv")), "tt"), [][]item{{{"0", [][2]string{{"._value", a}}}}}, "tt")
	}
}

// SkipZeroTransposed: columns of transposed elements are skipped if and only if all their values are zero.
func SkipZeroTransposed() {
	lits := []string{"0", `""`, "false", "null", "7", `"` + word(1, alnum) + `"`, "true", ""}
	used := map[string]bool{}
	var vals [2][2]string
	s := ""
	arr := sym.Bool()
	for i := range vals {
		e := `"id":1`
		for k, n := range []string{"x", "y"} {
			v := sym.Choose(len(lits))
			if lits[v] == "" {
				continue
			}
			e += `,"` + n + `":` + lits[v]
			if v > 3 {
				used[n] = true
				vals[i][k] = strings.Trim(lits[v], `"`)
			}
		}
		if i > 0 {
			s += ","
		}
		if !arr {
			s += `"k` + itoa(i) + `":`
		}
		s += "{" + e + "}"
	}
	if arr {
		s = "[" + s + "]"
	} else {
		s = "{" + s + "}"
	}
	j := newJob(`{"a":1,"b":0,"t":` + s + "}\n").csv()
	j.f.SkipZeroCols = true
	j.cfg.Transpose = map[string]string{".t": "tt"}
	j.ok().table().headsInOrder("columns", ".a")
	t := parseTab(readFile(tmp("o_tt.csv")))
	t.rect()
	heads := []string{"._sequence", "._index", ".id"}
	for _, n := range []string{"x", "y"} {
		if used[n] {
			heads = append(heads, "."+n)
		}
	}
	t.heads("columns of elements", heads...)
	sym.Assert(len(t.rows) == 2, "rows of elements")
	for i := range vals {
		for k, n := range []string{".x", ".y"} {
			if vals[i][k] != "" {
				t.want(i, n, vals[i][k], "value of an element")
			}
		}
	}
}

// ExtractTransposed: values in strings of transposed elements are extracted.
func ExtractTransposed() {
	c := word(1, digits)
	str, n, v := `{\"q\":`+c+`}`, ".JSON.q", c
	raw := `{"q":` + c + `}`
	url := sym.Bool()
	if url {
		str, n, v = `http://h/p?q=`+c, ".URL.query.q.[0]", c
		raw = str
	}
	k := []string{"", ".x", ".x.y"}[sym.Choose(3)]
	e := `"` + str + `"`
	for _, p := range []string{"y", "x"} {
		if strings.Contains(k, p) {
			e = `{"` + p + `":` + e + `}`
		}
	}
	at := "0"
	if sym.Bool() {
		e = `{"p":` + e + `}`
		at = "p"
	} else {
		e = `[` + e + `]`
	}
	j := newJob(`{"a":1,"t":` + e + "}\n").csv()
	j.cfg.Transpose = map[string]string{".t": "tt"}
	switch sym.Choose(3) {
	case 0:
		j.f.ExtractStrings = true
	case 1:
		extractAs(&j.cfg.ExtractValuesRegex, "^[.]t", map[bool]string{false: "JSON", true: "URL"}[url])
	case 2:
		n = ""
	}
	t := j.ok().table()
	t.headsInOrder("columns", ".a")
	x := parseTab(readFile(tmp("o_tt.csv")))
	x.rect()
	sym.Assert(len(x.rows) == 1, "rows of elements")
	x.want(0, "._index", at, "index")
	own := k
	if own == "" {
		own = "._value"
	}
	x.want(0, own, raw, "string")
	if n == "" {
		sym.Assert(len(x.head) == 3, "columns of elements")
		return
	}
	x.want(0, k+n, v, "extracted value")
}

// KeyLimitMany: names that are cut do not become names of other columns, however many there are.
func KeyLimitMany() {
	n := sym.Param("from") + sym.Choose(sym.Param("more"))
	s := "{"
	for i := 0; i < n; i++ {
		s += `"` + string([]byte{byte('a' + i)}) + `":` + itoa(i) + `,`
	}
	own := "ab" + word(2, digits)
	if n < 9 {
		own = "abc" + word(1, digits)
	}
	long := []string{`"abcdef":100`, `"abcdeg":101`, `"` + own + `":102`}
	o := [][]int{{0, 1, 2}, {2, 0, 1}, {0, 2, 1}}[sym.Choose(3)]
	s += long[o[0]] + "," + long[o[1]] + "," + long[o[2]] + "}\n"
	j := newJob(s).csv()
	j.f.KeyLimit = 5
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.head) == n+3, "a column is lost")
	for i, h := range t.head {
		sym.Assert(len(h) <= 5, "name above the limit")
		for p := 0; p < i; p++ {
			sym.Assert(t.head[p] != h, "two columns have the same name")
		}
		w := itoa(i)
		if i >= n {
			w = itoa(100 + o[i-n])
		}
		sym.Assert(t.rows[0][i] == w, "value")
	}
}
