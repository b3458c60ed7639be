package verifharness

import (
	"strings"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

// sel is a way to select keys: the expression and what it matches.
type sel struct {
	expr  string
	match func(k string) bool
}

func pre(p string) func(string) bool {
	return func(k string) bool { return strings.HasPrefix(k, p) }
}

// regexes over the keys of selectDoc.
var selRegexes = []sel{
	{`^\.b\.`, pre(".b.")},
	{`.b.*`, func(k string) bool { return strings.HasPrefix(k, ".b.") && !strings.Contains(k[3:], ".") }},
	{`c$`, func(k string) bool { return strings.HasSuffix(k, "c") }},
	{`.e.[0]`, func(k string) bool { return k == ".e.[0]" }},
	{`^\.(a|c)$`, func(k string) bool { return k == ".a" || k == ".c" }},
}

var selKeys = []string{".a", ".b.c", ".b.d", ".c", ".e.[0]", ".e.[1]"}

// selectDoc makes lines and the values of selKeys in them.
func selectDoc() (string, [][]string) {
	c := string([]byte{sym.ByteIn(alnum)})
	s := `{"a":"` + c + `","b":{"c":1,"d":true},"c":"x"}` + "\n" +
		`{"b":` + "\n" +
		`{"c":2,"e":["` + c + `",0.5],"a":null}` + "\n"
	return s, [][]string{{c, "1", "true", "x", "", ""}, {"", "", "", "", "", ""}, {"", "", "", "2", c, "0.5"}}
}

func keyIndex(k string) int {
	for i, x := range selKeys {
		if x == k {
			return i
		}
	}
	return -1
}

// selected asserts that the columns are the given keys, with their values.
func selected(t *tab, cols []string, vals [][]string) {
	t.rect()
	if len(cols) == 0 {
		sym.Assert(len(t.head) == 1 && t.head[0] == "", "columns that are not selected")
		return
	}
	t.headsInOrder("selected columns", cols...)
	sym.Assert(len(t.rows) == len(vals), "the number of rows is not the number of lines")
	for i := range vals {
		for _, c := range cols {
			v := ""
			if strings.HasPrefix(c, "const:") {
				v = c[6:]
			} else if k := keyIndex(c); k >= 0 {
				v = vals[i][k]
			}
			t.want(i, c, v, "selected value")
		}
	}
}

// SelectList: with a list of keys the columns are the keys of the list, in its
// order, less the excluded ones; constants are in every row.
func SelectList() {
	s, vals := selectDoc()
	pool := []string{".b.d", ".a", "const:k c", ".nope", ".e.[1]", ".c"}
	j := newJob(s).csv()
	n := sym.Param("keys")
	var want []string
	for i := 0; i < n; i++ {
		k := pool[sym.Choose(len(pool))]
		dup := false
		for _, x := range j.cfg.IncludeKeys {
			dup = dup || x == k
		}
		j.cfg.IncludeKeys = append(j.cfg.IncludeKeys, k)
		if !dup {
			want = append(want, k)
		}
	}
	drop := func(f func(string) bool) {
		var w []string
		for _, k := range want {
			if !f(k) {
				w = append(w, k)
			}
		}
		want = w
	}
	switch sym.Choose(4) {
	case 1:
		j.cfg.ExcludeKeys = []string{".a"}
		drop(func(k string) bool { return k == ".a" })
	case 2:
		j.cfg.ExcludeKeys = []string{".C", ".b"}
		drop(func(k string) bool { return k == ".c" })
	case 3:
		j.cfg.ExcludeKeysRegex = []string{".b.*"}
		drop(pre(".b."))
	}
	if len(want) == 0 {
		sym.Skip()
	}
	t := j.ok().table()
	selected(t, want, vals)
}

// SelectScan: with regular expressions, or exclusions only, the columns are
// the listed keys and then the keys found that match, in order of appearance.
func SelectScan() {
	s, vals := selectDoc()
	order := []string{".a", ".b.c", ".b.d", ".c", ".e.[0]", ".e.[1]"}
	j := newJob(s).csv()
	var want []string
	ex := func(string) bool { return false }
	switch sym.Choose(5) {
	case 1:
		j.cfg.ExcludeKeys = []string{".e.[0]", ".A"}
		ex = func(k string) bool { return k == ".e.[0]" || k == ".a" }
	case 2:
		r := selRegexes[sym.Choose(len(selRegexes))]
		j.cfg.ExcludeKeysRegex = []string{r.expr}
		ex = r.match
	case 3:
		r, q := selRegexes[0], selRegexes[4]
		j.cfg.ExcludeKeysRegex = []string{r.expr, q.expr}
		ex = func(k string) bool { return r.match(k) || q.match(k) }
	case 4:
		j.cfg.ExcludeKeys = []string{".e"} // not a leaf
	}
	switch sym.Choose(4) {
	case 0:
		for _, k := range order {
			if !ex(k) {
				want = append(want, k)
			}
		}
	case 1:
		r := selRegexes[sym.Choose(len(selRegexes))]
		j.cfg.IncludeKeysRegex = []string{r.expr}
		for _, k := range order {
			if r.match(k) && !ex(k) {
				want = append(want, k)
			}
		}
	case 2:
		r, q := selRegexes[2], selRegexes[3]
		j.cfg.IncludeKeysRegex = []string{r.expr, q.expr}
		for _, k := range order {
			if (r.match(k) || q.match(k)) && !ex(k) {
				want = append(want, k)
			}
		}
	case 3:
		r := selRegexes[sym.Choose(len(selRegexes))]
		j.cfg.IncludeKeysRegex = []string{r.expr}
		j.cfg.IncludeKeys = []string{".c", ".nope", "const:7"}
		for _, k := range j.cfg.IncludeKeys {
			if !ex(k) {
				want = append(want, k)
			}
		}
		for _, k := range order {
			if r.match(k) && !ex(k) && k != ".c" {
				want = append(want, k)
			}
		}
	}
	if len(want) == 0 {
		sym.Skip()
	}
	t := j.ok().table()
	selected(t, want, vals)
}

// SelectCase: a listed key has the values of the keys that differ by case.
func SelectCase() {
	k := word(2, "aA")
	l := word(2, "aA")
	j := newJob(`{"` + k + `":1,"z":0}` + "\n" + `{"z":1,"q":{"` + k + `":3}}` + "\n").csv()
	scan := sym.Choose(2) == 1
	j.cfg.IncludeKeys = []string{"." + l, ".z"}
	if scan {
		j.cfg.IncludeKeysRegex = []string{`^\.q`}
	}
	if !scan && k != l {
		sym.Known("listed-key-case")
	}
	t := j.ok().table()
	t.rect()
	n := 2
	if scan {
		n = 3
	}
	sym.Assert(len(t.head) == n, "number of columns")
	sym.Assert(strings.ToLower(t.head[0]) == ".aa" && t.head[1] == ".z", "columns")
	sym.Assert(len(t.rows) == 2 && t.rows[0][0] == "1" && t.rows[1][0] == "", "values of the listed key")
	t.want(0, ".z", "0", "z")
	t.want(1, ".z", "1", "z")
}

// SingleKey: a single key is found as it is among several.
func SingleKey() {
	c := string([]byte{sym.ByteIn(alnum)})
	lits := []string{`"` + c + `"`, `1.50`, `true`, `null`, `{"x":1}`, `[]`}
	vals := []string{c, "1.50", "true", "", "", ""}
	k := sym.Choose(len(lits))
	o := sym.Choose(len(lits))
	v, ov := lits[k], lits[o]
	docs := []struct{ key, l1, l2 string }{
		{".a", `{"z":9,"a":` + v + `}`, `{"a":` + ov + `}`},
		{".o.b", `{"o":{"c":7,"b":` + v + `},"b":3}`, `{"b":4,"o":{"b":` + ov + `}}`},
		{".l.[1]", `{"l":[5,` + v + `,6]}`, `{"l":[8,` + ov + `]}`},
		{".l.[0].b", `{"l":[{"b":` + v + `},{"b":6}]}`, `{"l":[{"b":` + ov + `}]}`},
		{".o.A", `{"o":{"A":` + v + `,"a":` + v + `}}`, `{"o":{"A":` + ov + `}}`},
		{".b", `{"a":{"b":1},"b":` + v + `}`, `{"b":` + ov + `,"c":{"b":2}}`},
	}
	d := docs[sym.Choose(len(docs))]
	in := d.l1 + "\n" + `{"zz":1}` + "\n" + d.l2 + "\n"
	j := newJob(in).csv()
	if sym.Bool() {
		j.f.GetKey = d.key
	} else {
		j.cfg.IncludeKeys = []string{d.key}
	}
	t := j.ok().table()
	t.headsInOrder("columns", d.key)
	sym.Assert(len(t.head) == 1, "one column")
	got := func(i int) string {
		// A row of one empty field is a blank line.
		if i < len(t.rows) {
			return t.rows[i][0]
		}
		return "?"
	}
	sym.Assert(len(t.rows) == 3, "three lines are three rows")
	sym.Assert(got(0) == vals[k], "value of the single key in the first line")
	sym.Assert(got(1) == "", "value of the single key in a line without it")
	sym.Assert(got(2) == vals[o], "value of the single key in the last line")
}

// SingleFound: a single column that is found by scanning has all the values.
func SingleFound() {
	k := word(2, "aA")
	l := word(2, "aA")
	c := string([]byte{sym.ByteIn(alnum)})
	j := newJob(`{"` + k + `":"` + c + `"}` + "\n" + `{"` + l + `":true}` + "\n" + `{"` + k + `":null}` + "\n").csv()
	j.f.CaseSensitiveKeys = sym.Bool()
	t := j.ok().table()
	if j.f.CaseSensitiveKeys && k != l {
		t.headsInOrder("columns", "."+k, "."+l)
		t.want(0, "."+k, c, "v")
		t.want(1, "."+l, "true", "v")
		t.want(2, "."+l, "", "v")
		return
	}
	t.headsInOrder("columns", "."+k)
	sym.Assert(len(t.rows) == 3, "number of rows")
	t.want(0, "."+k, c, "v")
	t.want(1, "."+k, "true", "v")
	t.want(2, "."+k, "", "v")
}

// SingleAny: a single key with any characters is found.
func SingleAny() {
	lit, key := strLit(sym.Param("len"))
	sym.Assume(strings.ToLower(key) != "zz" && strings.ToLower(key) != "qq")
	c := string([]byte{sym.ByteIn(alnum)})
	p, in := "."+key, `{"zz":1,`+lit+`:"`+c+`"}`
	if sym.Bool() {
		p, in = ".zz."+key, `{"zz":{"qq":0,`+lit+`:"`+c+`"}}`
	}
	j := newJob(in + "\n").csv()
	if sym.Bool() {
		j.cfg.IncludeKeys = []string{p}
	} else {
		j.cfg.IncludeKeys = []string{p, ".other"}
	}
	t := j.ok().table()
	sym.Assert(t.head[0] == p && len(t.head) == len(j.cfg.IncludeKeys), "columns")
	sym.Assert(len(t.rows) == 1 && t.rows[0][0] == c, "value of the listed key")
}

// SingleSame: a column that is alone has the same values as one of several.
func SingleSame() {
	docs := []string{
		`{"a.b":1,"c":2}`, `{"a":{"b":"x"},"b":3}`, `{"a":{"b":null},"a.b":4}`, `{"a":["y",5]}`, `{"a":{"[0]":6}}`, `{"a":{"0":7}}`,
		`{"a":true}`, `{"a":{"b":{"b":1}}}`, `{"a":{"x":1},"a":{"b":8}}`, `{"a":[["z"],[9]]}`, `{"a":"{\"b\":1}"}`, `{"":1,"a":{"":2}}`,
		`{"a":null}`, `{"a":{"b":[1,{"b":2}]}}`, `not json`, `{"a":[{"b":1}]}`, `{"a":{"b":"","B":"q"},"A":{"b":2}}`,
	}
	in := docs[sym.Choose(len(docs))] + "\n"
	for i := 1; i < sym.Param("lines"); i++ {
		in += docs[sym.Choose(len(docs))] + "\n"
	}
	keys := []string{".a.b", ".a.[0]", ".a.0", ".a", ".a.[0].[0]", ".", ".a.", ".a.b.b", ".a.[0].b", ".a.[1].[0]", ".a.b.[0]", ".c.[0]", ".a.[2]"}
	k := keys[sym.Choose(len(keys))]
	opt := sym.Choose(6)
	run := func(alone bool) []string {
		j := newJob(in).csv()
		j.cfg.IncludeKeys = []string{k}
		if !alone {
			j.cfg.IncludeKeys = append(j.cfg.IncludeKeys, ".other.key")
		}
		switch opt {
		case 1:
			j.cfg.KeepJSON = []string{".a"}
		case 2:
			j.cfg.KeepJSON = []string{".a.b", ".a.[0]"}
		case 3:
			j.cfg.IncludeKeysRegex = []string{"^nothing$"} // a scan pass
		case 4:
			j.f.CaseSensitiveKeys = true
		case 5:
			if alone {
				j.cfg.IncludeKeys, j.f.GetKey = nil, k
			}
		}
		t := j.ok().table()
		t.rect()
		sym.Assert(t.head[0] == k, "name of the column")
		var vals []string
		for _, r := range t.rows {
			vals = append(vals, r[0])
		}
		return vals
	}
	one, two := run(true), run(false)
	sym.Assert(len(one) == len(two), "rows")
	for i := range one {
		sym.Assert(one[i] == two[i], "the value of a column that is alone differs: "+one[i]+" instead of "+two[i])
	}
}

// ExcludeAny: exactly the keys that are listed to exclude are missing, whatever characters they have.
func ExcludeAny() {
	n := sym.Param("len")
	key := word(sym.Choose(n+1), plainChars)
	ex := word(sym.Choose(n+1), plainChars)
	cs := sym.Bool()
	lower := func(s string) string {
		if cs {
			return s
		}
		return strings.ToLower(s)
	}
	sym.Assume(lower(key) != "xyz")
	c := word(1, alnum)
	j := newJob(`{"b":{` + jsonEsc(key) + `:"` + c + `","xyz":1},"z":[true]}` + "\n").csv()
	j.f.CaseSensitiveKeys = cs
	j.cfg.ExcludeKeys = []string{".b." + ex, ".z.", ".b.xyz.", "z", ".z.[0", ".z.[00]"}
	scan := true
	if sym.Bool() {
		j.cfg.IncludeKeys = []string{".b." + key, ".b.xyz", ".z.[0]"}
		scan = sym.Bool()
		if scan {
			j.cfg.IncludeKeysRegex = []string{"^nothing$"}
		}
	}
	want := []string{".b." + key, ".b.xyz", ".z.[0]"}
	if lower(key) == lower(ex) {
		want = want[1:]
	}
	t := j.ok().table()
	t.headsInOrder("columns", want...)
	t.want(0, ".b.xyz", "1", "xyz")
	t.want(0, ".z.[0]", "true", "z")
	if len(want) == 3 {
		t.want(0, want[0], c, "the key")
	}
}
