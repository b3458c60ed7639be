package verifharness

import (
	"strings"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

// ReplaceNames: replaceKeys and replaceKeysRegex rename columns, and change nothing else.
func ReplaceNames() {
	s, vals := selectDoc()
	cols := append([]string{}, selKeys...)
	names := append([]string{}, selKeys...)
	j := newJob(s).csv()
	rename := func(k, n string) {
		for i := range cols {
			if cols[i] == k {
				names[i] = n
			}
		}
	}
	w := word(1, alnum)
	switch sym.Choose(5) {
	case 1:
		j.cfg.ReplaceKeys = map[string]string{".a": "x" + w, ".b.d": "t VARCHAR(2)"}
		rename(".a", "x"+w)
		rename(".b.d", "t VARCHAR(2)")
	case 2: // keys are not case sensitive
		j.cfg.ReplaceKeys = map[string]string{".B.C": w, ".nope": "n"}
		rename(".b.c", w)
	case 3: // names of other keys
		j.cfg.ReplaceKeys = map[string]string{".a": ".c", ".c": ".a"}
		rename(".a", ".c")
		rename(".c", ".a")
	case 4:
		j.cfg.ReplaceKeys = map[string]string{".e.[1]": "second", ".e.[0]": "first"}
		rename(".e.[1]", "second")
		rename(".e.[0]", "first")
	}
	regexRename := func(match func(string) bool, f func(k string) string) {
		for i := range cols {
			if names[i] == cols[i] && match(cols[i]) {
				if _, ok := j.cfg.ReplaceKeys[cols[i]]; !ok {
					names[i] = f(cols[i])
				}
			}
		}
	}
	switch sym.Choose(5) {
	case 1:
		j.cfg.ReplaceKeysRegex = map[string]string{`^\.b\.([^.]+)$`: "bb_${1}"}
		regexRename(pre(".b."), func(k string) string { return "bb_" + k[3:] })
	case 2:
		j.cfg.ReplaceKeysRegex = map[string]string{`.b.*`: "${1} INT"}
		regexRename(pre(".b."), func(k string) string { return k[3:] + " INT" })
	case 3:
		j.cfg.ReplaceKeysRegex = map[string]string{`^\.([a-z])\.\[(\d)\]$`: "${2}${1}${2}", `^\.a$`: "ONLY"}
		regexRename(pre(".e."), func(k string) string { return k[4:5] + "e" + k[4:5] })
		regexRename(func(k string) bool { return k == ".a" }, func(k string) string { return "ONLY" })
	case 4:
		j.cfg.ReplaceKeysRegex = map[string]string{`.nope.*`: "n"}
	}
	inc := sym.Bool()
	if inc {
		j.cfg.IncludeKeys = []string{".c", ".b.c", ".a"}
		names = []string{names[3], names[1], names[0]}
		cols = []string{cols[3], cols[1], cols[0]}
	}
	t := j.ok().table()
	t.rect()
	t.headsInOrder("replaced names", names...)
	sym.Assert(len(t.rows) == len(vals), "the number of rows is not the number of lines")
	for i := range vals {
		for k := range cols {
			sym.Assert(t.rows[i][k] == vals[i][keyIndex(cols[k])], "value of a renamed column "+cols[k])
		}
	}
}

// SnakeNames: -replace-keys gives every column a name of its own, in snake
// case, and changes nothing else.
func SnakeNames() {
	n := sym.Param("len")
	// Three keys over an alphabet that makes names collide.
	set := "aA_"
	k1, k2 := word(n, set), word(n, set)
	var s string
	var paths, vals []string
	switch sym.Choose(4) {
	case 0:
		s = `{"` + k1 + `":1,"o":{"` + k2 + `":2}}`
		paths, vals = []string{"." + k1, ".o." + k2}, []string{"1", "2"}
	case 1:
		s = `{"o":{"` + k1 + `":1},"p":{"` + k2 + `":2},"a":3}`
		paths, vals = []string{".o." + k1, ".p." + k2, ".a"}, []string{"1", "2", "3"}
	case 2:
		s = `{"o":{"q":{"` + k1 + `":1}},"p":{"q":{"` + k2 + `":2}},"q":[4]}`
		paths, vals = []string{".o.q." + k1, ".p.q." + k2, ".q.[0]"}, []string{"1", "2", "4"}
	case 3:
		s = `{"` + k1 + `":[1,[2]],"` + k2 + `x":3}`
		paths, vals = []string{"." + k1 + ".[0]", "." + k1 + ".[1].[0]", "." + k2 + "x"}, []string{"1", "2", "3"}
	}
	taken := sym.Choose(3)
	if taken > 0 {
		s = s[:len(s)-1] + `,"zz":9}`
	}
	j := newJob(s + "\n").csv()
	j.f.ReplaceKeys = true
	switch taken {
	case 1:
		j.cfg.ReplaceKeys = map[string]string{".zz": "a"}
	case 2:
		j.cfg.ReplaceKeysRegex = map[string]string{"z(z)$": "a"}
	}
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == 1, "one row")
	if taken > 0 {
		n := len(t.head) - 1
		sym.Assert(n > 0 && t.head[n] == "a" && t.rows[0][n] == "9", "a name that is given")
		t.head, t.rows[0] = t.head[:n], t.rows[0][:n]
		for _, h := range t.head {
			sym.Assert(h != "a", "a name that is given to another column")
		}
	}
	// Keys that differ by case share a column.
	seen := map[string]bool{}
	at := 0
	for i, p := range paths {
		lp := strings.ToLower(p)
		if seen[lp] {
			continue
		}
		seen[lp] = true
		sym.Assert(at < len(t.head), "a column is missing")
		sym.Assert(t.rows[0][at] == vals[i], "value of "+p)
		if t.head[at] != p {
			checkSnake(t.head[at], p)
		}
		at++
	}
	sym.Assert(len(t.head) == at, "number of columns")
	for i := range t.head {
		for k := 0; k < i; k++ {
			sym.Assert(t.head[i] != t.head[k], "two columns of a name")
		}
	}
}

// checkSnake asserts that the name is a tail of the path in snake case.
func checkSnake(name, path string) {
	sym.Assert(name != "", "empty name")
	for i := 0; i < len(name); i++ {
		c := name[i]
		sym.Assert(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_', "the name is not in snake case")
	}
	squeeze := func(s string) string {
		var b []byte
		s = strings.ToLower(s)
		for i := 0; i < len(s); i++ {
			if c := s[i]; c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
				b = append(b, c)
			}
		}
		return string(b)
	}
	sym.Assert(strings.HasSuffix(squeeze(path), squeeze(name)), "the name is not the tail of the key")
}

// SnakeWords: words of a key that begin with a capital, or after one, or with
// another character in between, are separated with underscores.
func SnakeWords() {
	key := word(1+sym.Choose(sym.Param("len")), "xY1-")
	up := func(i int) bool { return i < len(key) && key[i] == 'Y' }
	want := ""
	for i := 0; i < len(key); i++ {
		switch {
		case key[i] == '-':
			want += "_"
			continue
		case up(i) && i > 0 && (!up(i-1) || i+1 < len(key) && key[i+1] == 'x'):
			want += "_"
		}
		want += strings.ToLower(key[i : i+1])
	}
	for strings.Contains(want, "__") {
		want = strings.ReplaceAll(want, "__", "_")
	}
	want = strings.Trim(want, "_")
	j := newJob(`{"` + key + `":"v"}` + "\n").csv()
	j.f.ReplaceKeys = true
	if want != "" && sym.Bool() {
		j.f.ReplaceKeys = false
		j.cfg.ReplaceKeysRegex = map[string]string{`^\.(.*)$`: "${1}|to_snake_case"}
	} else if want == "" || want[0] == '1' {
		want = "." + key
	}
	t := j.ok().table()
	sym.Assert(len(t.head) == 1 && t.head[0] == want, "name in snake case is not "+want)
	t.want(0, want, "v", "value")
}

// SnakeAny: -replace-keys works for keys of any characters.
func SnakeAny() {
	lit, key := strLit(sym.Param("len"))
	for i := 0; i < len(key); i++ {
		sym.Assume(key[i] != '.')
	}
	sym.Assume(strings.ToLower(key) != "zz")
	s := `{"zz":1,` + lit + `:2}`
	if sym.Bool() {
		s = `{"zz":1,"o":{` + lit + `:2}}`
	}
	j := newJob(s + "\n").csv()
	j.f.ReplaceKeys = true
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == 1 && len(t.head) == 2, "columns")
	sym.Assert(t.head[0] == "zz" && t.rows[0][0] == "1", "the other column")
	sym.Assert(t.rows[0][1] == "2", "value")
	sym.Assert(t.head[1] != "" && t.head[1] != "zz", "name of the column")
}

// Merge: keys replaced with the same name are one column, which has the first
// value of the line that is not null, or all of them with a delimiter.
func Merge() {
	n := sym.Param("keys")
	delim := sym.Choose(3)
	lits := []string{`"` + word(1, alnum) + `"`, "1.0", "false", `""`, `"` + word(1, ":; ") + `"`, "null", "", "{}"}
	vals := []string{lits[0][1:2], "1.0", "false", "", lits[4][1:2]}
	names := []string{"a", "b", "c"}[:n]
	order := [][]int{{0, 1, 2}, {2, 0, 1}}[sym.Choose(2)]
	s := `{"z":1`
	var got []string
	for _, k := range order {
		if k >= n {
			continue
		}
		v := sym.Choose(len(lits))
		if lits[v] == "" {
			continue
		}
		s += `,"` + names[k] + `":` + lits[v]
		if v < len(vals) {
			got = append(got, vals[v])
		}
	}
	s += "}\n"
	// Another line shows that lines do not affect each other.
	s += `{"b":"second","z":2}` + "\n"
	j := newJob(s).csv()
	j.cfg.ReplaceKeys = map[string]string{}
	for _, k := range names {
		j.cfg.ReplaceKeys["."+k] = "m"
	}
	if sym.Bool() {
		j.cfg.IncludeKeys = []string{".a", ".z", ".b", ".c"}[:n+1]
	}
	want := ""
	if delim == 0 {
		if len(got) > 0 {
			want = got[0]
		}
	} else {
		d := []string{"", "::", ""}[delim]
		j.cfg.ConcatDelimiter = &d
		want = strings.Join(got, d)
	}
	t := j.ok().table()
	t.rect()
	t.heads("columns", "m", ".z")
	t.want(0, "m", want, "merged value")
	t.want(0, ".z", "1", "z")
	t.want(1, "m", "second", "merged value")
	t.want(1, ".z", "2", "z")
}

// MergeTypes: the type of a merged column admits the values of all its keys.
func MergeTypes() {
	lits := []string{`"x"`, "7", "1.5", "true", "null"}
	typs := []string{"VARCHAR", "INT8", "FLOAT8", "BOOL", ""}
	a, b := sym.Choose(len(lits)), sym.Choose(len(lits))
	kind := sym.Choose(4)
	y := "b"
	if kind == 2 {
		y = "A"
	}
	s, col := "", "m"
	for i, e := range []string{`{"a":` + lits[a] + `,"z":1}`, `{"` + y + `":` + lits[b] + `,"z":1}`} {
		if kind == 3 {
			e = `{"id":` + itoa(i) + `,"t":[` + e + `]}`
		}
		s += e + "\n"
	}
	j := newJob(s).pg()
	switch kind {
	case 0:
		j.cfg.ReplaceKeys = map[string]string{".a": "m", ".b": "m"}
	case 1:
		j.cfg.ReplaceKeysRegex = map[string]string{"^[.][ab]$": "m"}
	case 2:
		col = ".a"
	case 3:
		j.cfg.ReplaceKeys = map[string]string{".a": "m", ".b": "m"}
		j.cfg.Transpose = map[string]string{".t": "tt"}
	}
	d := j.ok().dump()
	t := d[len(d)-1]
	want := typs[a]
	switch {
	case want == "" || typs[b] == "":
		want += typs[b]
	case want == typs[b]:
	case (a == 1 || a == 2) && (b == 1 || b == 2):
		want = "FLOAT8"
	default:
		want = "VARCHAR"
	}
	if want != "" {
		sym.Assert(t.types[t.col(col)] == want, "type of the merged column is not "+want)
		t.want(0, col, strings.Trim(strings.ReplaceAll(lits[a], "null", ""), `"`))
		t.want(1, col, strings.Trim(strings.ReplaceAll(lits[b], "null", ""), `"`))
	}
}

// MergeConcatTypes: the type of a column admits values that are concatenated, whether
// its keys are replaced with the same name or differ by case, also in transposed elements.
func MergeConcatTypes() {
	c := word(1, "17")
	lits := []string{`"x"`, c, c + ".5", "null", ""}
	names := []string{"a", "b"}
	j := newJob().csv().pg().sqlite()
	if sym.Bool() {
		names[1] = "A"
	} else {
		j.cfg.ReplaceKeys = map[string]string{".a": "m", ".b": "m"}
	}
	s := ""
	var rows []string
	d := []string{"-", ""}[sym.Choose(2)]
	tr := sym.Bool()
	for i := 0; i < 2; i++ {
		e := `"z":1`
		var got []string
		for _, n := range names {
			l := lits[sym.Choose(len(lits))]
			if l == "" {
				continue
			}
			e += `,"` + n + `":` + l
			if l != "null" {
				got = append(got, strings.Trim(l, `"`))
			}
		}
		rows = append(rows, strings.Join(got, d))
		if tr {
			s += `{"id":1,"t":[{` + e + `}]}` + "\n"
		} else {
			s += `{` + e + "}\n"
		}
	}
	j.in = append(j.in, s)
	if tr {
		j.cfg.Transpose = map[string]string{".t": "tt"}
	}
	j.cfg.ConcatDelimiter = &d
	j.ok()
	g, m := j.dump(), j.tables()
	p, q := g[len(g)-1], findTable(m, g[len(g)-1].name)
	for _, n := range []string{"m", ".a", ".A"} {
		for i := range p.cols {
			if p.cols[i] != n {
				continue
			}
			for r, v := range rows {
				p.want(r, n, v)
				x := q.Rows[r][colOf(q, n)]
				sym.Assert(x.S == v || x.Null && v == "", "value in SQLite")
			}
			return
		}
	}
	sym.Assert(rows[0] == "" && rows[1] == "", "no column")
}

// MergeTransposed: values of an element are one value if their keys differ by
// case, or are replaced with the same name, the first of them or all of them with a delimiter.
func MergeTransposed() {
	lits := []string{`"` + word(1, alnum) + `"`, "1.0", "true", "null", `""`, ""}
	vals := []string{lits[0][1:2], "1.0", "true", "", "", ""}
	var got []string
	s := `{"id":0,"t":[{"z":7`
	names := []string{"a", "A"}
	replaced := sym.Bool()
	if replaced {
		names[1] = "b"
	}
	for _, k := range names {
		v := sym.Choose(len(lits))
		if v == 5 {
			continue
		}
		s += `,"` + k + `":` + lits[v]
		if v != 3 {
			got = append(got, vals[v])
		}
	}
	s += `},{"` + names[1] + `":"second"}]}` + "\n" + `{"id":1,"t":[{"a":"other","z":8}]}` + "\n"
	delim := sym.Choose(3)
	want := ""
	j := newJob(s).csv().sqlite().pg()
	if delim == 0 {
		if len(got) > 0 {
			want = got[0]
		}
	} else {
		d := []string{"", "::", ""}[delim]
		j.cfg.ConcatDelimiter = &d
		want = strings.Join(got, d)
	}
	j.cfg.Transpose = map[string]string{".t": "tt"}
	if replaced {
		j.cfg.ReplaceKeys = map[string]string{".a": "m", ".b": "m"}
		if sym.Bool() {
			j.cfg.IncludeKeys = []string{".id", ".t.[0].a", ".t.[0].b", ".t.[0].z", ".t.[1].b"}
		}
	}
	j.ok()
	rows := transposedCSV(readFile(tmp("o_tt.csv")), "CSV")
	g, m := j.dump()[1], findTable(j.tables(), "t_tt")
	a := ".a"
	if replaced {
		a = "m"
	} else if g.cols[len(g.cols)-1] == ".A" || g.cols[len(g.cols)-2] == ".A" {
		a = ".A"
	}
	exp := [][4]string{{"1", "0", want, "7"}, {"1", "1", "second", ""}, {"2", "0", "other", "8"}}
	sym.Assert(len(rows) == 3 && len(g.rows) == 3 && len(m.Rows) == 3, "rows")
	for i, e := range exp {
		sym.Assert(rows[i].seq == e[0] && rows[i].idx == e[1] && rows[i].vals[a] == e[2] && rows[i].vals[".z"] == e[3], "row of the CSV")
		g.want(i, "._sequence", e[0])
		g.want(i, "._index", e[1])
		g.want(i, a, e[2])
		g.want(i, ".z", e[3])
		x := m.Rows[i][colOf(m, a)]
		sym.Assert(x.S == e[2] || x.Null && e[2] == "", "value in SQLite")
	}
}
