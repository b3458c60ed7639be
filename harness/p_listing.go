package verifharness

import (
	"strings"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

// jv is a JSON value.
type jv struct {
	kind byte // s, i, f, b, n, o, a
	text string
	keys []string
	subs []*jv
}

func (v *jv) get(key string) *jv {
	if v == nil {
		return nil
	}
	for i, k := range v.keys {
		if k == key {
			return v.subs[i]
		}
	}
	return nil
}

func (v *jv) String() string {
	switch v.kind {
	case 'o':
		s := "{"
		for i, k := range v.keys {
			if i > 0 {
				s += ","
			}
			s += `"` + k + `":` + v.subs[i].String()
		}
		return s + "}"
	case 'a':
		s := "["
		for i, x := range v.subs {
			if i > 0 {
				s += ","
			}
			s += x.String()
		}
		return s + "]"
	}
	return v.text
}

func obj(kv ...any) *jv {
	v := &jv{kind: 'o'}
	for i := 0; i < len(kv); i += 2 {
		v.keys = append(v.keys, kv[i].(string))
		v.subs = append(v.subs, kv[i+1].(*jv))
	}
	return v
}

func arr(vs ...*jv) *jv { return &jv{kind: 'a', subs: vs} }

func lit(kind byte, text string) *jv { return &jv{kind: kind, text: text} }

// parseJSON parses plain JSON: strings without escapes, as the listings of the harnesses have.
func parseJSON(s string) *jv {
	p := &jparser{s: s}
	v := p.value()
	p.ws()
	sym.Assert(p.i == len(s), "not valid JSON: "+s)
	return v
}

type jparser struct {
	s string
	i int
}

func (p *jparser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n') {
		p.i++
	}
}

func (p *jparser) next(c byte) bool {
	p.ws()
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *jparser) must(ok bool) { sym.Assert(ok, "not valid JSON: "+p.s) }

func (p *jparser) str() string {
	p.must(p.next('"'))
	a := p.i
	for p.i < len(p.s) && p.s[p.i] != '"' {
		p.must(p.s[p.i] != '\\')
		p.i++
	}
	p.must(p.i < len(p.s))
	p.i++
	return p.s[a : p.i-1]
}

func (p *jparser) value() *jv {
	p.ws()
	p.must(p.i < len(p.s))
	switch p.s[p.i] {
	case '{':
		v := &jv{kind: 'o'}
		p.i++
		if p.next('}') {
			return v
		}
		for {
			k := p.str()
			p.must(p.next(':'))
			p.must(v.get(k) == nil)
			v.keys = append(v.keys, k)
			v.subs = append(v.subs, p.value())
			if p.next('}') {
				return v
			}
			p.must(p.next(','))
		}
	case '[':
		v := &jv{kind: 'a'}
		p.i++
		if p.next(']') {
			return v
		}
		for {
			v.subs = append(v.subs, p.value())
			if p.next(']') {
				return v
			}
			p.must(p.next(','))
		}
	case '"':
		return lit('s', p.str())
	}
	sym.Assert(false, "unexpected JSON value: "+p.s)
	return nil
}

// shape makes a value, nested up to the depth.
func shape(depth int) *jv {
	n := 9
	if depth == 0 {
		n = 5
	}
	switch sym.Choose(n) {
	case 0:
		return lit('s', `"t"`)
	case 1:
		return lit('i', `12`)
	case 2:
		return lit('f', `1.5`)
	case 3:
		return lit('b', `true`)
	case 4:
		return lit('n', `null`)
	case 5:
		return obj("x", shape(depth-1))
	case 6:
		return arr(shape(depth - 1))
	case 7:
		return arr(lit('i', "3"), shape(depth-1))
	default:
		return obj("y", lit('s', `"u"`), "x", shape(depth-1))
	}
}

// admits tells if the schema admits the value.
func admits(s *jv, v *jv) bool {
	if s == nil {
		return true
	}
	if t := s.get("type"); t != nil {
		ok := false
		for _, x := range t.subs {
			switch x.text {
			case "string":
				ok = ok || v.kind == 's'
			case "integer":
				ok = ok || v.kind == 'i'
			case "number":
				ok = ok || v.kind == 'i' || v.kind == 'f'
			case "boolean":
				ok = ok || v.kind == 'b'
			case "null":
				ok = ok || v.kind == 'n'
			case "object":
				ok = ok || v.kind == 'o'
			case "array":
				ok = ok || v.kind == 'a'
			default:
				sym.Assert(false, "unknown type in the schema: "+x.text)
			}
		}
		if !ok {
			return false
		}
	}
	for i, k := range v.keys {
		if !admits(s.get("properties").get(k), v.subs[i]) {
			return false
		}
	}
	if v.kind == 'a' {
		for _, x := range v.subs {
			if !admits(s.get("items"), x) {
				return false
			}
		}
	}
	return true
}

// tight asserts that the schema has no more than the values have.
func tight(s *jv, vs []*jv, path string) {
	if t := s.get("type"); t != nil {
		for _, x := range t.subs {
			found := false
			for _, v := range vs {
				switch x.text {
				case "string":
					found = found || v.kind == 's'
				case "integer":
					found = found || v.kind == 'i'
				case "number":
					found = found || v.kind == 'f'
				case "boolean":
					found = found || v.kind == 'b'
				case "null":
					found = found || v.kind == 'n'
				case "object":
					found = found || v.kind == 'o'
				case "array":
					found = found || v.kind == 'a'
				}
			}
			sym.Assert(found, "the schema has a type that no value has: "+path+" "+x.text)
		}
	}
	if p := s.get("properties"); p != nil {
		for i, k := range p.keys {
			var sub []*jv
			for _, v := range vs {
				if v.kind == 'o' {
					if x := v.get(k); x != nil {
						sub = append(sub, x)
					}
				}
			}
			sym.Assert(len(sub) > 0, "the schema has a property that no value has: "+path+"."+k)
			tight(p.subs[i], sub, path+"."+k)
		}
	}
	if it := s.get("items"); it != nil {
		var sub []*jv
		for _, v := range vs {
			if v.kind == 'a' {
				sub = append(sub, v.subs...)
			}
		}
		sym.Assert(len(sub) > 0, "the schema has items that no value has: "+path)
		tight(it, sub, path+".[]")
	}
}

// covered asserts that the schema has the types of the scalars of the value.
func covered(s *jv, v *jv, path string) {
	some := false
	scalars(v, "", false, func(string, *jv) { some = true })
	if !some {
		return
	}
	sym.Assert(s != nil, "the schema does not have "+path)
	switch v.kind {
	case 'o':
		for i, k := range v.keys {
			covered(s.get("properties").get(k), v.subs[i], path+"."+k)
		}
	case 'a':
		for _, x := range v.subs {
			covered(s.get("items"), x, path+".[]")
		}
	default:
		sym.Assert(s.get("type") != nil, "the schema does not have the type of "+path)
	}
}

// scalars lists the paths of scalars other than null in order.
func scalars(v *jv, path string, nulls bool, f func(path string, v *jv)) {
	switch v.kind {
	case 'o':
		for i, k := range v.keys {
			scalars(v.subs[i], path+"."+k, nulls, f)
		}
	case 'a':
		for i, x := range v.subs {
			scalars(x, path+".["+itoa(i)+"]", nulls, f)
		}
	case 'n':
		if nulls {
			f(path, v)
		}
	default:
		f(path, v)
	}
}

// Schema: -show-json-schema shows a schema that admits every document, with the
// types of the values at each path, and nothing else.
func Schema() {
	n := sym.Param("lines")
	var docs []*jv
	s := ""
	for i := 0; i < n; i++ {
		depth := sym.Param("depth")
		if i > 0 {
			depth = sym.Param("depth2")
		}
		d := obj("a", shape(depth), "id", lit('i', itoa(i)))
		if i == 0 && sym.Bool() {
			d = obj("id", lit('i', itoa(i)))
		}
		docs = append(docs, d)
		s += d.String() + "\n"
	}
	schemaOf(s, docs)
}

// schemaOf checks the schema of documents.
func schemaOf(s string, docs []*jv) {
	j := newJob(s)
	j.f.ShowJSONSchema = true
	if sym.Bool() {
		j.csv()
	}
	j.ok()
	out := j.stdout.String()
	sch := parseJSON(strings.TrimRight(out, "\n"))
	sym.Assert(sch.get("title") != nil, "title")
	for _, d := range docs {
		sym.Assert(admits(sch, d), "the schema does not admit a document")
		covered(sch, d, "")
	}
	tight(sch, docs, "")
}

// Listings: the flat list has the keys of the columns in order, and the
// information about keys has each column with its type; the hierarchy has each
// key as a path.
func Listings() {
	n := sym.Param("lines")
	s := ""
	var docs []*jv
	for i := 0; i < n; i++ {
		d := obj("id", lit('i', itoa(i)), "a", shape(sym.Param("depth")))
		if sym.Bool() {
			d = obj()
		}
		docs = append(docs, d)
		s += d.String() + "\n"
	}
	listingsOf(s, docs)
}

// listingsOf checks the listings of documents.
func listingsOf(s string, docs []*jv) {
	j := newJob(s).csv()
	j.f.ShowKeysFlat = true
	j.f.ShowKeysInfo = true
	j.f.ShowKeysHier = sym.Bool()
	t := j.ok().table()
	lines := strings.Split(j.stdout.String(), "\n")
	sym.Assert(lines[0] == "keys:", "title of the list")
	at := 1
	cols := t.head
	if len(cols) == 1 && cols[0] == "" {
		cols = nil
	}
	for _, h := range cols {
		sym.Assert(lines[at] == `"`+h+`",`, "the flat list does not have "+h+" in its place")
		at++
	}
	sym.Assert(lines[at] == "keys info:", "title of the information")
	at++
	for i, h := range cols {
		want := ""
		for _, d := range docs {
			scalars(d, "", true, func(p string, v *jv) {
				if p != h {
					return
				}
				ty := map[byte]string{'s': "string", 'i': "int", 'f': "float", 'b': "bool", 'n': "null"}[v.kind]
				switch {
				case want == "" || want == "null" || want == ty:
					want = ty
				case ty == "null":
				case (want == "int" || want == "float") && (ty == "int" || ty == "float"):
					want = "float"
				default:
					want = "string"
				}
			})
		}
		l := lines[at+i]
		pre := itoa(i+1) + ": " + h + ", TYPE "
		sym.Assert(strings.HasPrefix(l, pre), "information about "+h)
		// A path may be an object or array in another line.
		got := l[len(pre):]
		sym.Assert(got == want, "type of "+h+" is not "+want)
	}
	at += len(cols)
	if !j.f.ShowKeysHier {
		sym.Assert(at == len(lines)-1 && lines[at] == "", "end of the listing")
		return
	}
	hier := parseJSON(strings.Join(lines[at:], "\n"))
	var paths []string
	var walk func(v *jv, path string)
	walk = func(v *jv, path string) {
		switch v.kind {
		case 'a':
			for _, x := range v.subs {
				walk(x, path)
			}
		case 's':
			paths = append(paths, path+"."+v.text)
		case 'o':
			for i, k := range v.keys {
				walk(v.subs[i], path+"."+k)
			}
		}
	}
	walk(hier, "")
	for _, p := range paths {
		found := false
		for _, h := range cols {
			found = found || h == p
		}
		sym.Assert(found, "the hierarchy has a key that is not a column: "+p)
	}
	for _, h := range cols {
		found := false
		for _, p := range paths {
			// A key may have keys below it in other lines.
			found = found || p == h || strings.HasPrefix(p, h+".")
		}
		sym.Assert(found, "the hierarchy does not have "+h)
	}
}

// Deep: columns, schema or listings of documents that are nested deeply.
func Deep() {
	n := 1 + sym.Choose(sym.Param("depth"))
	c := word(1, alnum)
	how := sym.Choose(3)
	tail := func() *jv {
		switch sym.Choose(5) {
		case 0:
			return lit('s', `"`+c+`"`)
		case 1:
			return lit('i', "7")
		case 2:
			return obj()
		case 3:
			return lit('n', "null")
		}
		return obj("x", lit('b', "true"), "y", arr(lit('f', "1.50")))
	}
	mk := func() *jv {
		v := tail()
		for i := n - 1; i >= 0; i-- {
			switch {
			case i > 0 && i%3 == how:
				v = arr(lit('s', `"`+c+itoa(i)+`"`), v, lit('i', "0"))
			case i%2 == 0:
				v = obj("s", lit('i', itoa(i)), "K"+itoa(i), v)
			default:
				v = obj("K"+itoa(i), v, "s", lit('s', `"`+c+itoa(i)+`"`))
			}
		}
		return v
	}
	docs := []*jv{mk(), mk()}
	s := docs[0].String() + "\n" + docs[1].String() + "\n"
	switch sym.Param("what") {
	case 0:
		var lines [][]leaf
		for _, d := range docs {
			var ls []leaf
			(&ropts{}).nodes(d, "", nil, func(x rnode) {
				switch x.kind {
				case 'n', 'o', 'a':
					ls = append(ls, leaf{x.path, "", x.kind})
				default:
					ls = append(ls, leaf{x.path, x.val, 0})
				}
			})
			lines = append(lines, ls)
		}
		j := newJob(s).csv()
		j.f.Concurrency = 1 + sym.Choose(2)
		checkTable(j.ok().table(), lines, false)
	case 1:
		schemaOf(s, docs)
	case 2:
		listingsOf(s, docs)
	}
}

// ManyTypes: the schema and the listings have all the types of a key.
func ManyTypes() {
	vals := []func() *jv{
		func() *jv { return lit('s', `"t"`) }, func() *jv { return lit('i', `12`) }, func() *jv { return lit('f', `1.5`) },
		func() *jv { return lit('b', `true`) }, func() *jv { return lit('n', `null`) }, func() *jv { return obj("x", lit('i', "1")) },
		func() *jv { return arr(lit('b', "false")) },
	}
	s := ""
	var docs []*jv
	for i := 0; i < sym.Param("lines"); i++ {
		docs = append(docs, obj("a", vals[sym.Choose(len(vals))]()))
		s += docs[i].String() + "\n"
	}
	if sym.Param("what") == 1 {
		schemaOf(s, docs)
	} else {
		listingsOf(s, docs)
	}
}

// ListNames: the same for keys of any names.
func ListNames() {
	set := ""
	for i := 0; i < len(plainChars); i++ {
		if !strings.Contains("<>&", plainChars[i:i+1]) { // would be escaped
			set += plainChars[i : i+1]
		}
	}
	k := word(sym.Choose(sym.Param("len")+1), set)
	c := lit('s', `"v"`)
	low := strings.ToLower(k)
	sym.Assume(low != "a" && low != "b") // keys that differ by case are one key
	var d *jv
	switch sym.Choose(4) {
	case 0:
		d = obj(k, c)
	case 1:
		d = obj("a", obj(k, lit('n', "null")), k, lit('i', "1"))
	case 2:
		d = obj(k, obj(k, c), "a", arr(obj(k, lit('b', "true"))))
	case 3:
		d = obj(k, arr(c, obj()))
	}
	s := d.String() + "\n" + `{"a":{"b":1}}` + "\n"
	docs := []*jv{d, obj("a", obj("b", lit('i', "1")))}
	if sym.Param("what") == 1 {
		schemaOf(s, docs)
	} else {
		listingsOf(s, docs)
	}
}

// ListSelected: with a selection the information is about the columns, in their
// order, and then about the keys that are not selected, each of them once.
func ListSelected() {
	c := word(1, alnum)
	j := newJob(`{"_x":"` + c + `","a":{"":1.5,"_y":true},"b":[null,"` + c + `"]}` + "\n").csv()
	keys := []string{"._x", ".a.", ".a._y", ".b.[0]", ".b.[1]"}
	typs := map[string]string{"._x": "string", ".a.": "float", ".a._y": "bool", ".b.[0]": "null", ".b.[1]": "string"}
	var in []string
	match := func(f func(string) bool) {
		for _, k := range keys {
			listed := false
			for _, x := range in {
				listed = listed || x == k
			}
			if !listed && f(k) {
				in = append(in, k)
			}
		}
	}
	marks := true
	switch sym.Choose(7) {
	case 0:
		j.cfg.IncludeKeysRegex = []string{`^\.b`}
		match(pre(".b"))
	case 1:
		j.cfg.IncludeKeysRegex = []string{`^nothing$`}
		in = []string{".b.[1]", ".a._y"}
		j.cfg.IncludeKeys = in
	case 2:
		j.cfg.IncludeKeysRegex = []string{`_`}
		match(func(k string) bool { return strings.Contains(k, "_") })
	case 3:
		j.cfg.ExcludeKeys = []string{".a."}
		match(func(k string) bool { return k != ".a." })
		marks = false
	case 4:
		j.cfg.IncludeKeysRegex = []string{`^.`}
		match(pre(""))
	case 5:
		j.cfg.IncludeKeysRegex = []string{`.a.*`}
		j.cfg.ExcludeKeysRegex = []string{`y$`}
		in = []string{".b.[0]"}
		j.cfg.IncludeKeys = []string{".b.[0]"}
	case 6:
		j.cfg.IncludeKeysRegex = []string{`^\.a`}
		j.cfg.IncludeKeys = []string{".b.[1]"}
		in = []string{".b.[1]"}
		match(pre(".a"))
	}
	names := map[string]string{}
	if sym.Bool() {
		j.cfg.ReplaceKeys = map[string]string{".a._y": "yy", ".b.[1]": "one"}
		names = j.cfg.ReplaceKeys
	}
	tr := sym.Bool()
	if tr {
		j.cfg.Transpose = map[string]string{".b": "bb"}
	}
	j.f.ShowKeysInfo = true
	j.f.ShowKeysFlat = sym.Bool()
	j.ok()
	lines := strings.Split(j.stdout.String(), "\n")
	at := 0
	if j.f.ShowKeysFlat {
		sym.Assert(lines[0] == "keys:", "title of the list")
		for at = 1; at <= len(keys); at++ {
			sym.Assert(lines[at] == `"`+keys[at-1]+`",`, "flat list")
		}
	}
	sym.Assert(lines[at] == "keys info:", "title of the information")
	at++
	num := 0
	for _, k := range in {
		num++
		l := lines[at]
		at++
		pre := itoa(num) + ": " + k
		sym.Assert(strings.HasPrefix(l, pre+","), "information about "+k)
		rest := l[len(pre):]
		if n, ok := names[k]; ok && !(tr && strings.HasPrefix(k, ".b")) {
			sym.Assert(strings.HasPrefix(rest, ", REPLACED WITH "+n+","), "name of "+k)
		}
		sym.Assert(strings.Contains(rest, ", TYPE "+typs[k]), "type of "+k)
		sym.Assert(strings.Contains(rest, ", INCLUDED") == marks, "mark of "+k)
		sym.Assert(strings.Contains(rest, ", TRANSPOSED TO bb") == (tr && strings.HasPrefix(k, ".b")), "transposition of "+k)
	}
	if marks {
		for _, k := range keys {
			listed := false
			for _, x := range in {
				listed = listed || x == k
			}
			if !listed {
				num++
				sym.Assert(lines[at] == itoa(num)+": "+k+", SKIPPED", "a key that is not selected: "+k)
				at++
			}
		}
	}
	sym.Assert(at == len(lines)-1 && lines[at] == "", "end of the listing")
}
