package verifharness

import (
	"strings"

	"github.com/vearutop/flatjsonl/flatjsonl"
	sym "github.com/vearutop/flatjsonl/verifsym"
)

// holder is a string that may hold a document.
type holder struct {
	text string
	json [][2]string // leaves below .JSON when it is decoded as JSON
	url  [][2]string // leaves below .URL when it is decoded as URL
	any  bool        // found by -extract-strings as well
}

// held makes a string, with what it holds.
func held() holder {
	c := word(1, alnum)
	switch sym.Choose(18) {
	case 15: // a short one
		d := word(1, digits)
		return holder{text: `[` + d + `]`, any: true, json: [][2]string{{".[0]", d}}}
	case 16: // an address in brackets, and a host without anything else
		return holder{text: `http://[::1]:80/` + c, any: true, url: [][2]string{{".scheme", "http"}, {".host", "::1"}, {".port", "80"}, {".path.[0]", c}}}
	case 17:
		d := word(1, digits)
		return holder{text: `h2://u@[fe80::` + d + `]#` + c, any: true, url: [][2]string{{".scheme", "h2"}, {".user", "u"}, {".host", "fe80::" + d}, {".path.[0]", ""}, {".fragment", c}}}
	case 0:
		return holder{text: word(1, "bcdxyz")} // not a part of a JSON literal
	case 1:
		return holder{text: `{"x":"` + c + `","y":[1.50,{},true]}`, any: true, json: [][2]string{{".x", c}, {".y.[0]", "1.50"}, {".y.[2]", "true"}}}
	case 2:
		return holder{text: `["` + c + `",{"x":false}]`, any: true, json: [][2]string{{".[0]", c}, {".[1].x", "false"}}}
	case 3: // not complete
		return holder{text: `{"x":"` + c + `"`}
	case 4: // nested
		return holder{text: `{"x":"{\"y\":\"` + c + `\"}"}`, any: true, json: [][2]string{{".x", `{"y":"` + c + `"}`}, {".x.JSON.y", c}}}
	case 5:
		return holder{text: `{}`}
	case 6:
		return holder{text: `https://u:p@h.example:81/p1/` + c + `/?k=v&k=` + c + `&l=1#f`, any: true, url: [][2]string{
			{".scheme", "https"}, {".user", "u"}, {".pass", "p"}, {".host", "h.example"}, {".port", "81"},
			{".query.k.[0]", "v"}, {".query.k.[1]", c}, {".query.l.[0]", "1"}, {".path.[0]", "p1"}, {".path.[1]", c}, {".fragment", "f"},
		}}
	case 7:
		return holder{text: `http://h?q=%7B` + c + `&e=&n&q=`, any: true, url: [][2]string{
			{".scheme", "http"}, {".host", "h"}, {".query.q.[0]", "{" + c}, {".query.q.[1]", ""}, {".query.e.[0]", ""}, {".query.n.[0]", ""}, {".path.[0]", ""},
		}}
	case 8: // not a valid one
		return holder{text: `http://[` + c}
	case 9: // a URL in a document
		return holder{text: `{"u":"ftp://h/` + c + `"}`, any: true, json: [][2]string{
			{".u", "ftp://h/" + c}, {".u.URL.scheme", "ftp"}, {".u.URL.host", "h"}, {".u.URL.path.[0]", c},
		}}
	case 10: // not a URL for the flag, which looks for ://
		return holder{text: `/r/` + c + `?k=v`, url: [][2]string{{".path.[0]", "r"}, {".path.[1]", c}, {".query.k.[0]", "v"}}}
	case 11: // a scalar, which the flag does not look for
		return holder{text: `12`, json: [][2]string{{"", "12"}}}
	case 12: // a document in a URL, and more of the URL after it
		return holder{text: `s://h/p/?a=[1,2,3,4,5,6,7,8,9]&b=` + c + `&d=e#f`, any: true, url: [][2]string{
			{".scheme", "s"}, {".host", "h"}, {".query.a.[0]", `[1,2,3,4,5,6,7,8,9]`},
			{".query.a.[0].JSON.[0]", "1"}, {".query.a.[0].JSON.[1]", "2"}, {".query.a.[0].JSON.[2]", "3"},
			{".query.a.[0].JSON.[3]", "4"}, {".query.a.[0].JSON.[4]", "5"}, {".query.a.[0].JSON.[5]", "6"},
			{".query.a.[0].JSON.[6]", "7"}, {".query.a.[0].JSON.[7]", "8"}, {".query.a.[0].JSON.[8]", "9"},
			{".query.b.[0]", c}, {".query.d.[0]", "e"}, {".path.[0]", "p"}, {".fragment", "f"},
		}}
	case 13: // a document in a document, and more after it
		return holder{text: `{"x":"[1,[2,3],\"` + c + `\",4]","y":"` + c + `z","z":["[true]",{"v":5}]}`, any: true, json: [][2]string{
			{".x", `[1,[2,3],"` + c + `",4]`}, {".x.JSON.[0]", "1"}, {".x.JSON.[1].[0]", "2"}, {".x.JSON.[1].[1]", "3"},
			{".x.JSON.[2]", c}, {".x.JSON.[3]", "4"}, {".y", c + "z"},
			{".z.[0]", "[true]"}, {".z.[0].JSON.[0]", "true"}, {".z.[1].v", "5"},
		}}
	default: // a document in a URL
		return holder{text: `s://h/?q={"x":7}`, any: true, url: [][2]string{
			{".scheme", "s"}, {".host", "h"}, {".query.q.[0]", `{"x":7}`}, {".query.q.[0].JSON.x", "7"}, {".path.[0]", ""},
		}}
	}
}

// nestedExtract tells if the leaf is one that only the flag finds.
func nestedExtract(p string) bool {
	return strings.Contains(p, ".JSON.") || strings.Contains(p, ".URL.")
}

// Extract: strings with JSON or URLs have columns for their parts, next to the
// column of the string; other strings do not.
func Extract() {
	n := sym.Param("lines")
	mode := sym.Choose(4)
	var s string
	var texts []string
	var want []map[string]string
	cols := []string{".z", ".a"}
	deep := sym.Bool()
	key := ".a"
	if deep {
		key = ".o.[0].a"
		cols[1] = key
	}
	for i := 0; i < n; i++ {
		h := held()
		w := map[string]string{}
		flag := mode == 0 || mode == 3
		add := func(name string, ls [][2]string) {
			for _, l := range ls {
				if nestedExtract(l[0]) && !flag {
					continue
				}
				w[key+name+l[0]] = l[1]
				known := false
				for _, c := range cols {
					known = known || c == key+name+l[0]
				}
				if !known {
					cols = append(cols, key+name+l[0])
				}
			}
		}
		switch mode {
		case 0: // flag
			if h.any {
				add(".JSON", h.json)
				add(".URL", h.url)
			}
		case 1, 3: // expression for JSON
			add(".JSON", h.json)
			if mode == 3 && h.any {
				add(".URL", h.url)
			}
		case 2: // expression for URLs
			if h.url == nil && h.text[0] != 'h' {
				sym.Skip() // such texts may be URLs of some kind
			}
			add(".URL", h.url)
		}
		if deep {
			s += `{"o":[{"a":` + jsonEsc(h.text) + `}],"z":` + itoa(i) + "}\n"
		} else {
			s += `{"a":` + jsonEsc(h.text) + `,"z":` + itoa(i) + "}\n"
		}
		texts = append(texts, h.text)
		want = append(want, w)
	}
	j := newJob(s).csv()
	switch mode {
	case 0:
		j.f.ExtractStrings = true
	case 1:
		extractAs(&j.cfg.ExtractValuesRegex, `^\.(o\.\[0\]\.)?a$`, "JSON")
	case 2:
		extractAs(&j.cfg.ExtractValuesRegex, key, "URL")
	case 3:
		j.f.ExtractStrings = true
		extractAs(&j.cfg.ExtractValuesRegex, key, "JSON")
	}
	switch sym.Choose(3) {
	case 1: // listed, in another order
		j.cfg.IncludeKeys = cols
	case 2: // without the string itself
		cols = append(cols[2:], ".z")
		j.cfg.IncludeKeys = cols
	}
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == n, "rows")
	sym.Assert(len(t.head) == len(cols), "columns")
	for i := 0; i < n; i++ {
		for _, c := range cols {
			switch c {
			case key:
				t.want(i, c, texts[i], "the string")
			case ".z":
				t.want(i, c, itoa(i), "another key")
			default:
				t.want(i, c, want[i][c], "extracted value of "+c)
			}
		}
	}
}

// ExtractAny: strings of any characters are kept as they are when something is
// looked for in them, and documents in strings have their values.
func ExtractAny() {
	lit, val := strLit(sym.Param("len"))
	var in, cell string
	want := map[string]string{}
	switch sym.Choose(5) {
	case 0: // a document with an arbitrary value
		in = `{"v":` + lit + `}`
		cell = in
		want[".a.JSON.v"] = val
	case 1: // with an arbitrary start
		in, cell = val+`{"v":1}`, val+`{"v":1}`
		for i := 0; i < len(val); i++ {
			sym.Assume(val[i] != '{' && val[i] != '[')
		}
	case 2: // with an arbitrary end
		in = `["w"]` + val
		cell = in
		want[".a.JSON.[0]"] = "w"
	case 3: // an arbitrary beginning of a document
		in = `{` + val
		cell = in
	case 4: // an arbitrary part of a URL
		in = `s://h/` + val
		cell = in
		want[".a.URL.scheme"] = "s"
		want[".a.URL.host"] = "h"
		for i := 0; i < len(val); i++ {
			c := val[i]
			sym.Assume(c != '%' && c >= ' ' && c != '#' && c != '?' && c != 0x7f && c < 0x80)
		}
	}
	j := newJob(`{"a":` + jsonEsc(in) + `,"z":1}` + "\n" + `{"z":2}` + "\n").csv()
	j.f.ExtractStrings = true
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == 2, "rows")
	t.want(0, ".a", cell, "the string")
	t.want(0, ".z", "1", "another key")
	t.want(1, ".z", "2", "another key")
	t.want(1, ".a", "", "absent")
	for k, v := range want {
		if v != "" {
			t.want(0, k, v, "extracted")
		}
	}
}

// Outputs: PrepareOutput tells the outputs by their extensions.
func Outputs() {
	exts := []string{".csv", ".CSV", ".csv.gz", ".raw", ".Raw.zst", ".sqlite", ".txt", ""}
	kinds := []int{1, 1, 1, 2, 2, 3, 0, 0}
	n := 1 + sym.Choose(sym.Param("outputs"))
	var f flatjsonl.Flags
	want := [4]string{}
	if sym.Bool() {
		f.CSV = "given.csv"
		want[1] = "given.csv"
	}
	var outs []string
	for i := 0; i < n; i++ {
		e := sym.Choose(len(exts))
		name := word(1, alnum) + itoa(i) + exts[e]
		if i > 0 && sym.Bool() {
			// The name of another output, or part of it.
			name = strings.TrimSuffix(outs[0][:2], ".") + exts[e]
		}
		outs = append(outs, name)
		if k := kinds[e]; k > 0 && want[k] == "" {
			want[k] = name
		}
	}
	f.Output = strings.Join(outs, ",")
	f.PrepareOutput()
	sym.Assert(f.CSV == want[1], "CSV output")
	sym.Assert(f.Raw == want[2], "raw output")
	sym.Assert(f.SQLite == want[3], "SQLite output")
	sym.Assert(f.PGDump == "", "dump")
}
