package verifharness

import (
	"strings"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

// rowLine makes an input line and what it contributes to the columns .id and .v.
func rowLine() (line, id, v string) {
	c := string([]byte{sym.ByteIn(alnum)})
	switch sym.Choose(12) {
	case 0:
		return `{"id":"` + c + `","v":1}`, c, "1"
	case 1:
		return `{"v":2,"id":"` + c + `"}`, c, "2"
	case 2:
		return ``, "", ""
	case 3:
		return `{}`, "", ""
	case 4:
		return `{"id":"` + c + `"`, "", "" // unfinished
	case 5:
		return c + ` no object`, "", ""
	case 6:
		return `[1,2]`, "", ""
	case 7:
		return `2024-01-01 ` + c + `: {"id":"` + c + `","v":true}`, c, "true" // prefixed
	case 8:
		return `{"id":"` + c + `","v":3} trailing ` + c, c, "3"
	case 9:
		return `   `, "", ""
	case 10:
		return `{"id":"` + c + `","v":1.2.3}`, c, "" // not a number
	default:
		return `{"id":"` + c + `","other":{}}`, c, ""
	}
}

// RowOrder: each line of the inputs is a row, in order, whatever the line is.
func RowOrder() {
	n := sym.Param("lines")
	opts := sym.Param("opts") > 0
	split := n
	crlf := "\n"
	if !opts {
		split = sym.Choose(n + 1)
		if sym.Bool() {
			crlf = "\r\n"
		}
	}
	// The first line declares the columns.
	in := []string{`{"id":"first","v":9}` + crlf, ""}
	ids, vs := []string{"first"}, []string{"9"}
	blank := false
	for i := 0; i < n; i++ {
		l, id, v := rowLine()
		blank = l == ""
		k := 0
		if i >= split {
			k = 1
		}
		in[k] += l + crlf
		ids, vs = append(ids, id), append(vs, v)
	}
	if in[1] == "" {
		in = in[:1]
	}
	// The last line may lack its line end.
	last := len(in) - 1
	if !opts && !blank && sym.Bool() {
		in[last] = strings.TrimSuffix(in[last], crlf)
	}
	j := newJob(in...).csv()
	if opts {
		neutral(j, ".id", ".v")
	}
	t := j.ok().table()
	t.rect()
	t.headsInOrder("columns", ".id", ".v")
	sym.Assert(len(t.rows) == len(ids), "the number of rows is not the number of lines")
	for i := range ids {
		t.want(i, ".id", ids[i], "id")
		t.want(i, ".v", vs[i], "v")
	}
}

// RowsMany: the same for more lines than a worker handles with one parser.
func RowsMany() {
	n := sym.Param("lines")
	at := sym.Choose(4)*(n/4) + sym.Choose(3)
	c := string([]byte{sym.ByteIn(alnum)})
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch {
		case i == at:
			sb.WriteString(`{"id":"` + c + `","v":"sym"}`)
		case i%7 == 3:
			sb.WriteString(`{"id":`)
		default:
			sb.WriteString(`{"id":` + itoa(i) + `,"v":"x` + itoa(i%10) + `"}`)
		}
		sb.WriteString("\n")
	}
	j := newJob(sb.String()).csv()
	j.f.Concurrency = 1 + sym.Choose(3)
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == n, "the number of rows is not the number of lines")
	for i := 0; i < n; i++ {
		switch {
		case i == at:
			t.want(i, ".id", c, "id")
			t.want(i, ".v", "sym", "v")
		case i%7 == 3:
			t.want(i, ".id", "", "id")
			t.want(i, ".v", "", "v")
		default:
			t.want(i, ".id", itoa(i), "id")
			t.want(i, ".v", "x"+itoa(i%10), "v")
		}
	}
}

// Schedules: with several workers, under every schedule within the bound, the
// output is that of one worker, nothing races and nothing waits forever.
func Schedules() {
	sym.Schedules(true)
	if sym.Param("races") != 0 {
		sym.Races(true)
	}
	c := string([]byte{sym.ByteIn("xyz")})
	var in []string
	var head []string
	var want [][]string
	switch sym.Choose(sym.Param("inputs")) {
	case 0:
		in = []string{`{"a":"` + c + `"}` + "\n" + `{"a":2}` + "\n"}
		head = []string{".a"}
		want = [][]string{{c}, {"2"}}
	case 1:
		in = []string{`{"a":"` + c + `"}` + "\n" + `{` + "\n" + `{"a":3}` + "\n"}
		head = []string{".a"}
		want = [][]string{{c}, {""}, {"3"}}
	case 2:
		in = []string{`{"a":"` + c + `","b":1}` + "\n", `{"b":2}` + "\n"}
		head = []string{".a", ".b"}
		want = [][]string{{c, "1"}, {"", "2"}}
	case 3:
		in = []string{`{"b":1}` + "\n" + `{"a":"` + c + `"}` + "\n"}
		head = []string{".b", ".a"}
		want = [][]string{{"1", ""}, {"", c}}
	}
	j := newJob(in...).csv()
	j.f.Concurrency = 2
	j.quiet = true
	if sym.Param("scan") == 0 {
		for _, h := range head {
			j.cfg.IncludeKeys = append(j.cfg.IncludeKeys, h)
		}
	}
	t := j.ok().table()
	t.rect()
	t.heads("columns", head...)
	sym.Assert(len(t.rows) == len(want), "the number of rows is not the number of lines")
	for i := range want {
		for k := range head {
			t.want(i, head[k], want[i][k], "value")
		}
	}
}

// SchedulesTypes: the same for a column whose type changes often, with the type in the dump.
func SchedulesTypes() {
	sym.Schedules(true)
	sym.Races(true)
	n := sym.Param("lines")
	lits := []string{`"s"`, "1", "true", "1.5", "null", "2"}
	at := sym.Choose(len(lits))
	s := ""
	for i := 0; i < n; i++ {
		s += `{"a":` + lits[(at+i)%len(lits)] + "}\n"
	}
	j := newJob(s)
	j.f.Concurrency = 2
	j.f.PGDump = tmp("o.sql")
	j.f.ShowJSONSchema = true
	j.ok()
	typ := "FLOAT8" // the numbers among the literals have a fraction nearby
	for i := 0; i < n; i++ {
		if l := lits[(at+i)%len(lits)]; l == `"s"` || l == "true" {
			typ = "VARCHAR"
		}
	}
	sym.Assert(strings.Contains(readFile(tmp("o.sql")), "\".a\" "+typ), "type of the column")
	for i := 0; i < n; i++ {
		tn := map[string]string{`"s"`: "string", "1": "integer", "2": "integer", "true": "boolean", "1.5": "number", "null": "null"}[lits[(at+i)%len(lits)]]
		sym.Assert(strings.Contains(j.stdout.String(), `"`+tn+`"`), "the schema lacks a type")
	}
}

// SchedulesLines: the same for more lines and workers, one of the lines being
// malformed and one arbitrary.
func SchedulesLines() {
	sym.Schedules(true)
	if sym.Param("races") != 0 {
		sym.Races(true)
	}
	n := sym.Param("lines")
	bad := sym.Choose(n)
	at := sym.Choose(2)
	c := string([]byte{sym.ByteIn(alnum)})
	s := ""
	want := make([]string, n)
	for i := 0; i < n; i++ {
		switch {
		case i == bad:
			s += []string{"{\n", "\n"}[at]
		case i == (bad+1)%n:
			s += `{"id":"` + c + `"}` + "\n"
			want[i] = c
		default:
			s += `{"id":` + itoa(i) + `}` + "\n"
			want[i] = itoa(i)
		}
	}
	j := newJob(s).csv()
	j.f.Concurrency = sym.Param("workers")
	if sym.Param("scan") == 0 {
		j.cfg.IncludeKeys = []string{".id", ".none"}
	}
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == n, "the number of rows is not the number of lines")
	for i := range want {
		t.want(i, ".id", want[i], "value")
	}
}

// SchedulesKeys: several workers find keys, the same and different ones, at the same time.
func SchedulesKeys() {
	sym.Schedules(true)
	sym.Races(true)
	c := string([]byte{sym.ByteIn("abc")})
	s := `{"o":{"a":1},"x":"` + c + `"}` + "\n" + `{"o":{"` + c + `":2}}` + "\n"
	j := newJob(s).csv()
	j.f.Concurrency = 2
	j.quiet = true
	kind := sym.Choose(3)
	switch kind {
	case 1:
		j.f.ChildrenLimit = 1
	case 2:
		j.f.ShowKeysFlat = true
		j.f.ShowKeysHier = true
		j.f.ShowJSONSchema = true
	}
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == 2, "two rows")
	if kind == 1 && c != "a" {
		t.heads("columns", ".o", ".x")
		t.want(0, ".o", `{"a":1}`, "value")
		t.want(1, ".o", `{"`+c+`":2}`, "value")
	} else if c == "a" {
		t.heads("columns", ".o.a", ".x")
		t.want(0, ".o.a", "1", "value")
		t.want(1, ".o.a", "2", "value")
	} else {
		t.heads("columns", ".o.a", ".o."+c, ".x")
		t.want(0, ".o.a", "1", "value")
		t.want(0, ".o."+c, "", "value")
		t.want(1, ".o.a", "", "value")
		t.want(1, ".o."+c, "2", "value")
	}
	t.want(0, ".x", c, "value")
	t.want(1, ".x", "", "value")
	if kind == 2 {
		o := j.stdout.String()
		sym.Assert(strings.Count(o, `".o.a",`) == 1, "the key is listed once")
		sym.Assert(strings.Contains(o, `".x",`), "the key is listed")
	}
}

// SchedulesSingle: a single listed key, with values of all kinds.
func SchedulesSingle() {
	sym.Schedules(true)
	sym.Races(true)
	c := string([]byte{sym.ByteIn("xyz")})
	line := func() (string, string) {
		switch sym.Choose(5) {
		case 0:
			return `{"a":{"b":"` + c + `"}}`, ""
		case 1:
			return `{"a":[[1],2]}`, ""
		case 2:
			return `{"a":"` + c + `"}`, c
		case 3:
			return `{"b":{"a":1}}`, ""
		}
		return `{"a":{"a":1,"c":{"d":2}},"d":3}`, ""
	}
	l1, v1 := line()
	l2, v2 := line()
	j := newJob(l1 + "\n" + l2 + "\n").csv()
	j.f.Concurrency = 2
	j.quiet = true
	j.f.GetKey = ".a"
	if sym.Choose(2) == 1 {
		j.cfg.ParseTime = map[string]string{".a": "2006"}
		for _, v := range []*string{&v1, &v2} {
			if *v != "" {
				*v = "failed"
			}
		}
	}
	t := j.ok().table()
	t.rect()
	t.heads("columns", ".a")
	sym.Assert(len(t.rows) == 2, "two rows")
	for i, v := range []string{v1, v2} {
		if v == "failed" {
			sym.Assert(strings.Contains(t.rows[i][0], c), "a value that is not a time is lost")
		} else {
			t.want(i, ".a", v, "value")
		}
	}
}

// OneColumn: rows of one column are rows, whatever is in the lines.
func OneColumn() {
	n := sym.Param("lines")
	s := ""
	var vals []string
	c := word(1, alnum)
	for i := 0; i < n; i++ {
		v := ""
		switch sym.Choose(9) {
		case 0:
			v = c
			s += `{"a":"` + c + `"}`
		case 1:
			s += `{"a":null}`
		case 2:
			s += `{"a":""}`
		case 3:
		case 4:
			s += `{"a":`
		case 5:
			s += `{}`
		case 6:
			v = "0"
			s += c + ` {"a":0} ` + c
		case 7:
			s += `[]`
		case 8:
			v = "false"
			s += `{"a":false}`
		}
		s += "\n"
		vals = append(vals, v)
	}
	s += `{"a":"end"}` + "\n"
	vals = append(vals, "end")
	j := newJob(s)
	name := ".a"
	switch sym.Choose(5) {
	case 1:
		j.cfg.IncludeKeys = []string{".a"}
	case 2:
		j.f.GetKey = ".a"
	case 3:
		name = "x"
		j.cfg.ReplaceKeys = map[string]string{".a": "x"}
	case 4:
		j.cfg.IncludeKeysRegex = []string{"a$"}
	}
	j.f.Concurrency = 1 + sym.Choose(2)
	what := sym.Choose(3)
	switch what {
	case 0:
		j.csv()
		j.f.Raw = tmp("o.raw")
		j.ok()
		t := j.table()
		sym.Assert(len(t.head) == 1 && t.head[0] == name, "columns")
		sym.Assert(len(t.rows) == len(vals), "the number of rows is not the number of lines")
		raw := ""
		for i, v := range vals {
			t.want(i, name, v, "value")
			raw += v + "\n"
		}
		sym.Assert(readFile(tmp("o.raw")) == raw, "raw output")
	case 1:
		ts := j.sqlite().ok().tables()
		t := findTable(ts, "t")
		sym.Assert(len(ts) == 1 && len(t.Rows) == len(vals), "the number of rows is not the number of lines")
		for i, v := range vals {
			wantCell(t, i, "_seq_id", sp(itoa(i+1)), "number")
			if v != "" {
				wantCell(t, i, name, sp(v), "value")
			}
		}
	case 2:
		ts := j.pg().ok().dump()
		sym.Assert(len(ts) == 1 && len(ts[0].rows) == len(vals), "the number of rows is not the number of lines")
		for i, v := range vals {
			ts[0].want(i, "_seq_id", itoa(i+1))
			ts[0].want(i, name, v)
		}
	}
}
