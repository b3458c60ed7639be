package verifharness

import (
	"strings"

	"github.com/vearutop/flatjsonl/flatjsonl"
	sym "github.com/vearutop/flatjsonl/verifsym"
)

// Raw: the raw output has a line per input line, which is the values as they
// are, with the delimiter between them and nothing else.
func Raw() {
	n := sym.Param("lines")
	delim := []string{"", ",", "::"}[sym.Choose(3)]
	s, want := "", ""
	tr := sym.Bool()
	trWant, id := "", ""
	second := sym.Bool() // the second value is a string, in all lines
	at := sym.Choose(n)  // the line with any value
	for i := 0; i < n; i++ {
		lit, val := `1.50`, `1.50`
		if i == at {
			lit, val = rawScalar(sym.Param("len"))
		}
		ls, vs := []string{lit, `0`}, []string{val, "0"}
		if second {
			ls[1], vs[1] = `"`+val0(i)+`"`, val0(i)
		}
		s += `{"a":` + ls[0] + `,"b":` + ls[1]
		if tr {
			s += `,"t":{"k":` + ls[0] + `,"l":2}`
			trWant += itoa(i+1) + delim + "k" + delim + vs[0] + "\n" + itoa(i+1) + delim + "l" + delim + "2\n"
		}
		id = ""
		if i == at {
			s += `,"z":` + itoa(i)
			id = itoa(i)
		}
		s += "}\n"
		vs = append(vs, id)
		want += strings.Join(vs, delim) + "\n"
	}
	j := newJob(s)
	j.f.Raw = tmp("o.raw")
	j.f.RawDelim = delim
	if tr {
		j.cfg.Transpose = map[string]string{".t": "tt"}
	}
	j.ok()
	sym.Assert(readFile(tmp("o.raw")) == want, "the raw output is not the values of the lines")
	sym.Assert(exists(tmp("o_tt.raw")) == tr, "raw output of the transposed key")
	if tr {
		sym.Assert(readFile(tmp("o_tt.raw")) == trWant, "the raw output of the transposed key is not its values")
	}
}

// rawScalar returns a literal and its value; there is no line break in it.
func rawScalar(n int) (string, string) {
	switch sym.Choose(6) {
	case 0:
		return `null`, ""
	case 1:
		return `true`, "true"
	case 2:
		return `""`, ""
	case 3:
		x := `-` + string(sym.ByteIn("0123456789")) + `.` + string(sym.ByteIn("0123456789")) + `0e1`
		return x, x
	case 4:
		k := sym.Choose(5)
		return []string{`"a\tb"`, `"\"\\"`, `"\u00e9"`, `"\/"`, `"\ud83d\ude00"`}[k], []string{"a\tb", `"\`, "\u00e9", "/", "\U0001f600"}[k]
	}
	x := ""
	for i := 0; i < n; i++ {
		c := sym.Byte()
		sym.Assume(c >= ' ' && c != '"' && c != '\\' && c < 0x7f)
		x += string(c)
	}
	return `"` + x + `"`, x
}

func val0(i int) string { return "v" + itoa(i) + " ,;" }

// sameTables asserts that the contents of two SQLite outputs are the same.
func sameTables(a, b []sym.Table) {
	sym.Assert(len(a) == len(b), "SQLite tables differ")
	for i := range a {
		x, y := &a[i], findTable(b, a[i].Name)
		sym.Assert(len(x.Cols) == len(y.Cols) && len(x.Rows) == len(y.Rows), "SQLite tables differ: "+x.Name)
		for k := range x.Cols {
			sym.Assert(x.Cols[k] == y.Cols[k], "SQLite columns differ: "+x.Name)
		}
		for r := range x.Rows {
			for k := range x.Cols {
				p, q := x.Rows[r][k], y.Rows[r][k]
				sym.Assert(p == q, "SQLite values differ: "+x.Name+"."+x.Cols[k])
			}
		}
	}
}

// Together: several outputs of a run are the same as those of runs with one
// output each.
func Together() {
	n := sym.Param("lines")
	s := ""
	for i := 0; i < n; i++ {
		c := word(1, "a0Z")
		s += []string{
			`{"a":"` + c + `","t":[{"x":1},{"y":"` + c + `"}],"Key":1.5,"n":-0,"m":[1e+5,-0.0,12345678901234567890]}`,
			`{"a":null,"b":{"c":true,"d":"` + c + `,\""}}`,
			`{"t":{"k":"` + c + `"},"key":2}`,
			`not a document ` + c,
			`{"l":[1,2,3,4],"b":{"c":0}}`,
		}[sym.Choose(5)] + "\n"
	}
	cfg := sym.Choose(8)
	mk := func() *job {
		j := newJob(s)
		switch cfg {
		case 1:
			j.cfg.Transpose = map[string]string{".t": "tt", ".b": "bb"}
		case 2:
			j.f.AddSequence = true
			j.f.ReplaceKeys = true
		case 3:
			j.cfg.IncludeKeys = []string{".b.c", ".a", "const:7", ".l.[1]"}
		case 4:
			j.f.FieldLimit = 1
			j.f.SQLMaxCols = 3
		case 5:
			d := ";"
			j.cfg.ConcatDelimiter = &d
			j.cfg.ReplaceKeys = map[string]string{".a": "m", ".b.c": "m", ".key": "m"}
		case 6:
			j.f.ChildrenLimit = 2
			j.f.SkipZeroCols = true
		case 7:
			j.f.MaxLines = 1
			j.f.OffsetLines = 1
			j.f.GetKey = ".a"
		}
		return j
	}
	set := func(j *job, k int) {
		switch k {
		case 0:
			j.csv()
		case 1:
			j.f.Raw = tmp("o.raw")
			j.f.RawDelim = ","
		case 2:
			j.pg()
		case 3:
			j.sqlite()
		}
	}
	names := []string{"o.csv", "o_tt.csv", "o_bb.csv", "o.raw", "o_tt.raw", "o_bb.raw"}
	alone := sym.Choose(4)
	j := mk()
	set(j, alone)
	j.ok()
	var one []string
	var there []bool
	for _, f := range names {
		there = append(there, exists(tmp(f)))
		one = append(one, "")
		if there[len(one)-1] {
			one[len(one)-1] = readFile(tmp(f))
		}
	}
	var dump string
	var ts []sym.Table
	switch alone {
	case 2:
		dump = readFile(j.f.PGDump)
	case 3:
		ts = j.tables()
	}
	j = mk()
	for k := 0; k < 4; k++ {
		set(j, k)
	}
	j.f.SQLite = tmp("p.sqlite")
	j.ok()
	for i, f := range names {
		if there[i] {
			sym.Assert(readFile(tmp(f)) == one[i], "the output "+f+" is not the same with other outputs")
		}
		if alone == 0 && i < 3 || alone == 1 && i >= 3 {
			sym.Assert(there[i] == exists(tmp(f)), "the output "+f+" is not there with other outputs")
		}
	}
	switch alone {
	case 2:
		sym.Assert(readFile(j.f.PGDump) == dump, "the dump is not the same with other outputs")
	case 3:
		sameTables(ts, j.tables())
	}
}

// StarKeys: an expression with stars matches the keys that have one segment in
// the place of each star, and no other; other expressions are regular ones.
func StarKeys() {
	n := sym.Param("segs")
	seg := func() string { return word(1, "ab") + []string{"", "[", "_9", "-", "{1}"}[sym.Choose(5)] }
	var pat, key []string
	stars := 0
	match := true
	for i := 0; i < n; i++ {
		k := seg()
		key = append(key, k)
		if sym.Bool() {
			pat = append(pat, "*")
			stars++
		} else {
			p := seg()
			pat = append(pat, p)
			match = match && p == k
		}
	}
	switch sym.Choose(3) {
	case 1: // a longer key
		key = append(key, "x")
		match = false
	case 2: // another case, expressions depend on it
		key[0] = "A"
		match = match && pat[0] == "*"
	}
	expr := "." + strings.Join(pat, ".")
	// The document has the key and another one.
	doc := `1`
	for i := len(key) - 1; i >= 0; i-- {
		doc = `{"` + key[i] + `":` + doc + `}`
	}
	doc = doc[:len(doc)-1] + `,"other":2}`
	j := newJob(doc + "\n").csv()
	name := "." + strings.Join(key, ".")
	var want []string
	switch sym.Choose(3) {
	case 0:
		j.cfg.IncludeKeysRegex = []string{expr, `^\.other`}
		if match {
			want = []string{name, ".other"}
		} else {
			want = []string{".other"}
		}
		if len(pat) == 1 && stars == 1 {
			want = []string{name, ".other"}
			if len(key) > 1 {
				want = []string{".other"}
			}
		}
	case 1:
		j.cfg.ExcludeKeysRegex = []string{expr}
		want = []string{name, ".other"}
		if match {
			want = []string{".other"}
		}
		if len(pat) == 1 && stars == 1 {
			sym.Skip() // matches both
		}
	case 2:
		to := "r"
		for i := 1; i <= stars; i++ {
			to += "_${" + itoa(i) + "}"
		}
		j.cfg.ReplaceKeysRegex = map[string]string{expr: to}
		want = []string{name, ".other"}
		if match {
			w := "r"
			for i, p := range pat {
				if p == "*" {
					w += "_" + key[i]
				}
			}
			want[0] = w
		}
		if len(pat) == 1 && stars == 1 {
			want[1] = "r_other"
		}
	}
	t := j.ok().table()
	t.headsInOrder("columns", want...)
}

// ScanEquals: listed keys have the same values with and without a pass that
// scans the keys, whatever else is configured.
func ScanEquals() {
	n := sym.Param("lines")
	s := ""
	for i := 0; i < n; i++ {
		c := word(1, alnum)
		s += []string{
			`{"a":"` + c + `","t":[{"x":1},{"y":"` + c + `"}],"n":1.50}`,
			`{"a":null,"b":{"c":true,"d":"` + c + `,\""},"n":"{\"j\":` + itoa(i) + `}"}`,
			`{"t":{"k":"` + c + `"},"a":{"x":"` + c + `"}}`,
			`p` + c + `-7 {"a":"2024-01-0` + itoa(i+1) + `"}`,
			`{"l":[1,2,3,4],"b":{"c":0}}`,
			`{"a":""`,
			`{"a":{"x":"` + c + `","y":{"z":["` + c + `"]}},"n":[[{"a":5}]],"b":{"d":{"c":1}}}`,
		}[sym.Choose(7)] + "\n"
	}
	cfg := sym.Choose(9)
	mk := func() *job {
		j := newJob(s).csv()
		j.cfg.IncludeKeys = []string{".b.c", ".a", "const:7", ".l.[1]", ".a.x", ".t.[1].y", ".t.k", ".b.d", ".n"}
		switch cfg {
		case 1:
			j.cfg.Transpose = map[string]string{".t": "tt", ".b": "bb"}
		case 2:
			j.f.AddSequence = true
			j.cfg.IncludeKeys = append([]string{"._sequence"}, j.cfg.IncludeKeys...)
			j.f.ReplaceKeys = true
		case 3:
			j.f.MatchLinePrefix = `([a-z]\S)-(\d)`
			j.cfg.IncludeKeys = append(j.cfg.IncludeKeys, "._prefix.[1]", "._prefix.[0]")
		case 4:
			j.f.FieldLimit = 1
			j.cfg.ExcludeKeys = []string{".b.c"}
			j.cfg.ExcludeKeysRegex = []string{`\.k$`}
		case 5:
			d := ";"
			j.cfg.ConcatDelimiter = &d
			j.cfg.ReplaceKeys = map[string]string{".a": "m", ".b.c": "m", ".a.x": "m"}
		case 6:
			j.cfg.KeepJSON = []string{".a", ".l", ".b"}
			j.cfg.IncludeKeys = []string{".a", ".l", ".b", ".n"}
		case 7:
			j.f.MaxLines = 1
			j.f.OffsetLines = 1
			j.cfg.ParseTime = map[string]string{".a": "2006-01-02"}
			j.cfg.OutputTimeFormat = "02/01/06"
		case 8:
			j.f.ExtractStrings = true
			j.cfg.IncludeKeys = []string{".n.JSON.j", ".n", ".a"}
		}
		return j
	}
	j := mk()
	j.ok()
	names := []string{"o.csv", "o_tt.csv", "o_bb.csv"}
	var one []*tab
	for _, f := range names {
		if exists(tmp(f)) {
			one = append(one, parseTab(readFile(tmp(f))))
		} else {
			one = append(one, nil)
		}
	}
	j = mk()
	j.cfg.IncludeKeysRegex = []string{"^no$"}
	j.ok()
	for i, f := range names {
		if one[i] == nil {
			continue
		}
		b := parseTab(readFile(tmp(f)))
		a := one[i]
		sym.Assert(len(a.rows) == len(b.rows), "number of rows: "+f)
		for _, h := range a.head {
			some := false
			for r := range a.rows {
				x, _ := a.get(r, h)
				some = some || x != ""
			}
			if !some && b.col(h) < 0 {
				continue
			}
			for r := range a.rows {
				x, _ := a.get(r, h)
				b.want(r, h, x, "a listed key with a scan: "+h)
			}
		}
	}
}

var _ = flatjsonl.Flags{}
