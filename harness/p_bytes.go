package verifharness

import (
	"regexp"
	"strings"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

// noise makes a line with arbitrary bytes at a place where they matter.
func noise(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte()
		sym.Assume(b[i] != '\n' && b[i] != '\r')
	}
	s := string(b)
	switch sym.Choose(9) {
	case 0:
		return s
	case 1:
		return `{` + s
	case 2:
		return `{"a":` + s
	case 3:
		return `{"a":` + s + `}`
	case 4:
		return `{"a":"` + s + `"}`
	case 5:
		return `{"a":1` + s + `}`
	case 6:
		return `{"a":[{"b":` + s + `]}`
	case 7:
		return s + `{"a":1}` + s
	default:
		return `{"a":1}` + s
	}
}

// AnyBytes: a line of arbitrary bytes is a row, the output is well-formed, and
// the lines around it are not affected.
func AnyBytes() {
	n := sym.Param("len")
	l := noise(n)
	good := `{"z":"first","n":1}` + "\n"
	s := good + l + "\n" + `{"z":"last","n":[2]}` + "\n"
	j := newJob(s).csv()
	j.f.Concurrency = 1
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == 3, "a line of arbitrary bytes is not one row")
	t.want(0, ".z", "first", "line before")
	t.want(0, ".n", "1", "line before")
	t.want(2, ".z", "last", "line after")
	t.want(2, ".n.[0]", "2", "line after")
	for i, h := range t.head {
		switch h {
		case ".z", ".n":
			sym.Assert(t.rows[1][i] == "" || strings.Contains(l, `"`), "value out of nothing")
		default:
			if h != ".n.[0]" {
				sym.Assert(t.rows[0][i] == "" && t.rows[2][i] == "", "value of another line")
			}
		}
	}
}

// AnyDocument: a valid document stays the same, whatever bytes follow it on
// the line, and with white space anywhere.
func AnyDocument() {
	ws := func() string { return []string{"", " ", "\t", "  \t"}[sym.Choose(sym.Param("ws"))] }
	c := sym.Byte()
	sym.Assume(c != '\n' && c != '\r' && c != '{')
	v := word(1, alnum)
	l := ws() + `{` + ws() + `"a"` + ws() + `:` + ws() + `"` + v + `"` + ws() + `,` + ws() + `"b":[` + ws() + `1` + ws() + `,2` + ws() + `]}`
	if sym.Bool() {
		l += string([]byte{c}) + `"x`
	} else if sym.Bool() {
		l = string([]byte{c}) + l
	}
	t := newJob(l + "\n").csv().ok().table()
	t.rect()
	t.headsInOrder("columns", ".a", ".b.[0]", ".b.[1]")
	sym.Assert(len(t.rows) == 1, "rows")
	t.want(0, ".a", v, "value")
	t.want(0, ".b.[0]", "1", "value")
	t.want(0, ".b.[1]", "2", "value")
}

// Prefix: -match-line-prefix makes columns of the groups of the expression
// that match what is before the document.
func Prefix() {
	w, d := word(1, lower), word(1, digits)
	var in, p0, p1, sp, a, ids []string
	n := sym.Param("lines")
	for i := 0; i < n; i++ {
		switch sym.Choose(9) {
		case 7: // white space
			in, p0, p1, sp, a = append(in, w+`-`+d+"\t{ \"a\" : 5 }"), append(p0, w), append(p1, d), append(sp, "\t"), append(a, "5")
		case 8: // an empty document
			in, p0, p1, sp, a = append(in, w+`-`+d+`{}`+w+`-0`), append(p0, w), append(p1, d), append(sp, ""), append(a, "")
		case 0:
			in, p0, p1, sp, a = append(in, w+`-`+d+` {"a":1}`), append(p0, w), append(p1, d), append(sp, " "), append(a, "1")
		case 1: // no match
			in, p0, p1, sp, a = append(in, w+` {"a":"x-1"}`), append(p0, ""), append(p1, ""), append(sp, ""), append(a, "x-1")
		case 2: // no document
			in, p0, p1, sp, a = append(in, w+`-`+d+` text`), append(p0, w), append(p1, d), append(sp, " "), append(a, "")
		case 3: // no prefix
			in, p0, p1, sp, a = append(in, `{"a":"z-9"}`), append(p0, ""), append(p1, ""), append(sp, ""), append(a, "z-9")
		case 4:
			in, p0, p1, sp, a = append(in, ``), append(p0, ""), append(p1, ""), append(sp, ""), append(a, "")
		case 5: // malformed
			in, p0, p1, sp, a = append(in, `  `+w+`-`+d+`:{"a":`), append(p0, w), append(p1, d), append(sp, ""), append(a, "")
		case 6:
			in, p0, p1, sp, a = append(in, d+`,"`+w+`-`+d+`",{"a":"{`+w+`}"} `+w), append(p0, w), append(p1, d), append(sp, ""), append(a, "{"+w+"}")
		}
		ids = append(ids, itoa(i))
	}
	cfg := sym.Choose(3)
	j := newJob(`q-7 {"a":0}` + "\n" + strings.Join(in, "\n") + "\n").csv()
	re := `([a-z])-(\d)`
	groups := sym.Bool() // with groups of white space
	if groups {
		re = `([a-z])-(\d)(\s*)`
	}
	switch cfg {
	case 0:
		j.f.MatchLinePrefix = re
	case 1:
		j.cfg.MatchLinePrefix = re
	case 2:
		j.f.MatchLinePrefix = re
		j.cfg.MatchLinePrefix = "unused"
		j.cfg.IncludeKeys = []string{"._prefix.[0]", "._prefix.[1]", ".a"}
	}
	t := j.ok().table()
	t.rect()
	if groups && cfg != 2 {
		t.headsInOrder("columns", "._prefix.[0]", "._prefix.[1]", "._prefix.[2]", ".a")
		for i := range ids {
			t.want(i+1, "._prefix.[2]", sp[i], "white space")
		}
	} else {
		t.headsInOrder("columns", "._prefix.[0]", "._prefix.[1]", ".a")
	}
	sym.Assert(len(t.rows) == n+1, "rows")
	t.want(0, "._prefix.[1]", "7", "first line")
	for i := range ids {
		t.want(i+1, "._prefix.[0]", p0[i], "first group")
		t.want(i+1, "._prefix.[1]", p1[i], "second group")
		t.want(i+1, ".a", a[i], "document")
	}
}

// PrefixAny: whatever is before the document, groups of an expression have what
// they match in it, in the first place where they match, or in all of them with a delimiter.
func PrefixAny() {
	pre := word(sym.Choose(sym.Param("len")+1), "x1 [,")
	doc := []string{``, `{}`, `{"a":5}`, `{"a":`, `{"a":5} x1`}[sym.Choose(5)]
	re := []string{`^(.*)$`, `(\d)`, `(x)(1)`, `^([^ ]*)( *)`}[sym.Choose(4)]
	groups := strings.Count(re, "(")
	var d *string
	if k := sym.Choose(3); k > 0 {
		d = &[]string{"", "", "-"}[k]
	}
	want := make([]string, groups)
	if pre != "" || doc == "" {
		for i, m := range regexp.MustCompile(re).FindAllStringSubmatch(pre, -1) {
			for g := range want {
				switch {
				case i == 0:
					want[g] = m[g+1]
				case d != nil:
					want[g] += *d + m[g+1]
				}
			}
		}
	}
	j := newJob(`x1 {"a":0}` + "\n" + pre + doc + "\n" + `{"a":9}` + "\n").csv()
	j.f.MatchLinePrefix = re
	j.cfg.ConcatDelimiter = d
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == 3 && len(t.head) == groups+1, "rows and columns")
	for g, w := range want {
		t.want(1, "._prefix.["+itoa(g)+"]", w, "group")
		t.want(2, "._prefix.["+itoa(g)+"]", "", "group of a line without a prefix")
	}
	a := ""
	if strings.HasPrefix(doc, `{"a":5`) {
		a = "5"
	}
	t.want(0, ".a", "0", "document")
	t.want(1, ".a", a, "document")
	t.want(2, ".a", "9", "document")
}

// ManyDocuments: the same for documents with text around them after many lines,
// with a line of arbitrary bytes among them.
func ManyDocuments() {
	n := sym.Param("lines")
	at := n - 2 - sym.Choose(sym.Param("at"))
	c := word(1, alnum)
	l := noise(1)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		d := `{"id":"` + c + itoa(i) + `","v":[` + itoa(i) + `]}`
		switch {
		case i == at:
			d = l
		case i%5 == 1:
			d += ` tail ` + c
		case i%5 == 2:
			d = c + ` ` + d
		case i%5 == 3:
			d = c + d + `{"id":0}`
		case i%5 == 4:
			d = " " + d + `]`
		}
		sb.WriteString(d + "\n")
	}
	j := newJob(sb.String()).csv()
	j.f.Concurrency = 1 + sym.Choose(2)
	j.quiet = true
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == n, "the number of rows is not the number of lines")
	for i := 0; i < n; i++ {
		if i != at {
			t.want(i, ".id", c+itoa(i), "id")
			t.want(i, ".v.[0]", itoa(i), "v")
		}
	}
}
