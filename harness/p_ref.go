package verifharness

import (
	"sort"
	"strings"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

// The reference: what the outputs are, computed from documents that are trees
// and a configuration, independently of the code under test. Documents are from
// a pool of shapes that disagree, options are combined by two.

// rline is an input line and what is in it.
type rline struct {
	text   string
	prefix []string // groups of the prefix expression, if it matches
	root   *jv      // nil if there is no document
}

// ropts is a configuration.
type ropts struct {
	include   []string
	includeRe func(string) bool
	exclude   []string
	excludeRe func(string) bool
	rename    [][2]string
	concat    *string
	transpose [][2]string
	keep      []string
	children  int
	allow     string
	field     int
	skipZero  bool
	seq       bool
	offset    int
	max       int
	maxKeys   int
	prefix    bool
	times     bool
	extract   bool
	sens      bool
	anyNames  bool
	nameLimit int
}

const refOptions = 22

// incompatible options are those whose combination has no defined meaning, or
// that set the same things.
var refIncompatible = [][2]int{
	{1, 2}, {1, 19}, {2, 19}, {4, 5}, {5, 6}, {5, 7}, {6, 7}, {6, 8}, {7, 8}, {2, 12}, {8, 12},
	{9, 19}, {9, 10}, {1, 10}, {2, 10}, {10, 19}, {14, 20}, {9, 12}, {10, 12},
}

// refApply sets an option of the job and of the reference.
func refApply(k int, j *job, o *ropts) {
	switch k {
	case 1:
		o.include = []string{".T", "const:7", ".m.[1].K", ".o.K", ".nope"}
		j.cfg.IncludeKeys = o.include
	case 2:
		o.include = []string{".Id", "const:7"}
		o.includeRe = func(k string) bool { return strings.HasPrefix(k, ".o.") || strings.HasSuffix(k, ".K") }
		j.cfg.IncludeKeys = o.include
		j.cfg.IncludeKeysRegex = []string{`\.K$`, `^\.o\.`}
	case 3:
		o.exclude = []string{".o.b", ".T", ".o"}
		o.excludeRe = func(k string) bool { return strings.HasPrefix(k, ".l.") && !strings.Contains(k[3:], ".") }
		j.cfg.ExcludeKeys = o.exclude
		j.cfg.ExcludeKeysRegex = []string{`.l.*`}
	case 4:
		o.rename = [][2]string{{".o.K", "kk"}, {".Id", "ident"}, {".l.[1]", "x y"}}
	case 5:
		o.rename = [][2]string{{".Id", "m"}, {".T", "m"}, {".o.b", "m"}}
		if sym.Bool() {
			d := "; "
			o.concat = &d
			j.cfg.ConcatDelimiter = &d
		}
	case 6:
		o.anyNames = true
		j.f.ReplaceKeys = true
	case 7:
		o.anyNames, o.nameLimit = true, 3
		j.f.KeyLimit = 3
	case 8:
		o.transpose = [][2]string{{".m", "mm"}, {".l", "ll"}}
	case 9:
		o.keep = []string{".o", ".l"}
		j.cfg.KeepJSON = o.keep
	case 10:
		o.children = 1 + sym.Choose(2)
		o.allow = ".m"
		j.cfg.AllowCardinality = []string{".m"}
	case 11:
		o.field = 3
		j.f.FieldLimit = 3
	case 12:
		o.skipZero = true
		j.f.SkipZeroCols = true
	case 13:
		o.seq = true
		j.f.AddSequence = true
	case 14:
		switch sym.Choose(3) {
		case 0:
			o.offset = 1
		case 1:
			o.max = 1
		case 2:
			o.maxKeys = 1
		}
		j.f.OffsetLines, j.f.MaxLines, j.f.MaxLinesKeys = o.offset, o.max, o.maxKeys
	case 15:
		o.prefix = true
		j.f.MatchLinePrefix = `([a-z])-(\d)( )`
	case 16:
		o.times = true
		j.cfg.ParseTime = map[string]string{".T": "2006-01-02"}
		j.cfg.OutputTimeFormat = "02.0106"
	case 17:
		o.extract = true
		j.f.ExtractStrings = true
	case 18:
		o.sens = true
		j.f.CaseSensitiveKeys = true
	case 19:
		o.include = []string{".o.b"}
		j.f.GetKey = ".o.b"
	case 21:
		j.f.ShowKeysFlat, j.f.ShowKeysHier, j.f.ShowKeysInfo, j.f.ShowJSONSchema = true, true, true, true
		j.f.Verbosity = 2
	}
	if len(o.rename) > 0 && j.cfg.ReplaceKeys == nil {
		j.cfg.ReplaceKeys = map[string]string{}
		for _, r := range o.rename {
			j.cfg.ReplaceKeys[r[0]] = r[1]
		}
	}
	if len(o.transpose) > 0 && j.cfg.Transpose == nil {
		j.cfg.Transpose = map[string]string{}
		for _, r := range o.transpose {
			j.cfg.Transpose[r[0]] = r[1]
		}
	}
	if o.children > 0 {
		j.f.ChildrenLimit = o.children
	}
}

const refDocs = 10

// refLine makes a line of the pool.
func refLine() rline {
	c := word(1, alnum)
	q := `"` + c + `"`
	var l rline
	switch sym.Choose(refDocs) {
	case 0:
		l.root = obj("Id", lit('s', q), "o", obj("K", lit('f', "1.50"), "b", lit('b', "true")), "l", arr(lit('i', "3"), lit('s', `"x"`)))
	case 1:
		l.root = obj("l", arr(obj("K", lit('s', q), "z", arr(lit('i', "1"))), lit('n', "null")), "Id", lit('n', "null"), "o", obj())
	case 2:
		l.text = `{"Id":1,"o":{"K":`
		return l
	case 3:
		l.root = obj("T", lit('s', `"2024-01-02"`), "o", obj("b", lit('s', `""`), "n", lit('i', "0")), "u", lit('s', `"{\"j\":\"`+c+`\"}"`), "Id", lit('s', `"long text"`))
	case 4:
		l.root = obj("Id", lit('s', q), "m", obj("K", lit('i', "2"), "k2", lit('s', `"a,\"`+c+`"`)))
		l.text = "p-7 " + l.root.String() + " tail"
		l.prefix = []string{"p", "7", " "}
		return l
	case 5:
		l.root = obj("m", arr(obj("K", lit('i', "5")), obj("K", lit('s', q), "q", obj("Q", lit('b', "false")))), "id", lit('b', "false"),
			"o", obj("K", lit('i', "-3"), "deep", obj("x", obj("y", lit('s', q)))))
	case 6:
		l.root = obj("Id", obj("K", lit('s', q)), "o", lit('s', `"str `+c+`"`), "l", obj("A", lit('i', "1"), "b", obj("z", lit('f', "0.5"))), "T", lit('s', `"2024-01-02"`))
	case 7:
		l.root = obj("m", arr(arr(lit('i', "1"), arr(lit('s', q))), arr()), "l", arr(), "o", arr(obj("b", lit('s', q)), lit('n', "null")), "T", lit('n', "null"), "n", lit('n', "null"))
	case 8:
		l.root = obj()
	default:
		return l
	}
	l.text = l.root.String()
	return l
}

// rnode is a node of a document at a path: s, i, f, b, n are scalars, o and a containers.
type rnode struct {
	path, val string
	kind      byte
}

// text decodes the literal of a string with quotes in it.
func (v *jv) value() string {
	if v.kind != 's' {
		return v.text
	}
	var b []byte
	for i := 1; i < len(v.text)-1; i++ {
		if v.text[i] == '\\' {
			i++
		}
		b = append(b, v.text[i])
	}
	return string(b)
}

// requote makes literals of the strings of a parsed document.
func requote(v *jv) *jv {
	if v.kind == 's' {
		v.text = `"` + v.text + `"`
	}
	for _, x := range v.subs {
		requote(x)
	}
	return v
}

func hasString(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// nodes lists the nodes below a value in order.
func (o *ropts) nodes(v *jv, path string, collapsed []string, f func(rnode)) {
	switch v.kind {
	case 'o', 'a':
		if path != "" {
			if hasString(o.keep, path) || hasString(collapsed, path) {
				f(rnode{path, v.String(), 's'})
				return
			}
			f(rnode{path, "", v.kind})
		}
		for i, x := range v.subs {
			if v.kind == 'o' {
				o.nodes(x, path+"."+v.keys[i], collapsed, f)
			} else {
				o.nodes(x, path+".["+itoa(i)+"]", collapsed, f)
			}
		}
	case 's':
		s := v.value()
		f(rnode{path, s, 's'})
		if o.extract && len(s) > 2 && s[0] == '{' {
			o.nodes(requote(parseJSON(s)), path+".JSON", collapsed, f)
		}
	default:
		f(rnode{path, v.text, v.kind})
	}
}

// line lists the nodes of a line.
func (o *ropts) line(l rline, seq int, collapsed []string, f func(rnode)) {
	if o.seq {
		f(rnode{"._sequence", itoa(seq), 'i'})
	}
	if o.prefix {
		for i, g := range l.prefix {
			f(rnode{"._prefix.[" + itoa(i) + "]", g, 's'})
		}
	}
	if l.root != nil {
		o.nodes(l.root, "", collapsed, f)
	}
}

func (o *ropts) ck(k string) string {
	if o.sens {
		return k
	}
	return strings.ToLower(k)
}

// rcol is a column of the reference.
type rcol struct {
	keys     []string // canonical keys, or const:
	name     string
	optional bool // has neither scalars nor is listed
	listed   bool // the name may be the one that is found
}

// dest tells the table of a key, with its index and the rest.
func (o *ropts) dest(k string) (tbl, idx, rest string) {
	for _, t := range o.transpose {
		if strings.HasPrefix(k, t[0]+".") {
			r := k[len(t[0])+1:]
			idx, rest = r, "._value"
			if i := strings.Index(r, "."); i >= 0 {
				idx, rest = r[:i], r[i:]
			}
			return t[1], strings.Trim(idx, "[]"), rest
		}
	}
	return "", "", ""
}

// columns computes the keys that are written, in order.
func (o *ropts) columns(lines []rline, collapsed []string) []rcol {
	var seen []rnode // by path, kind 'v' for a value, 'z' for a zero, 'n' for null, 'o' for containers
	rank := func(n rnode) byte {
		switch {
		case n.kind == 'o' || n.kind == 'a':
			return 'o'
		case n.kind == 'n':
			return 'n'
		case n.val == "" || n.kind == 'i' && n.val == "0" || n.kind == 'b' && n.val == "false":
			return 'z'
		}
		return 'v'
	}
	better := "onzv"
	find := func(path string) int {
		for i := range seen {
			if seen[i].path == path {
				return i
			}
		}
		return -1
	}
	for i, l := range lines {
		o.line(l, i+1, collapsed, func(n rnode) {
			r := rank(n)
			k := find(n.path)
			if k < 0 {
				seen = append(seen, rnode{n.path, "", r})
			} else if strings.IndexByte(better, r) > strings.IndexByte(better, seen[k].kind) {
				seen[k].kind = r
			}
		})
	}
	var cols []rcol
	has := map[string]bool{}
	add := func(k string, optional bool) {
		if has[o.ck(k)] {
			return
		}
		has[o.ck(k)] = true
		cols = append(cols, rcol{keys: []string{o.ck(k)}, name: k, optional: optional})
	}
	excluded := func(k string) bool {
		for _, x := range o.exclude {
			if o.ck(x) == o.ck(k) {
				return true
			}
		}
		return o.excludeRe != nil && o.excludeRe(k)
	}
	for _, k := range o.include {
		if !excluded(k) {
			add(k, false)
			cols[len(cols)-1].listed = true
		}
	}
	if o.include != nil && o.includeRe == nil {
		return cols
	}
	for _, n := range seen {
		if n.kind == 'o' || excluded(n.path) || has[o.ck(n.path)] {
			continue
		}
		if o.includeRe != nil && !o.includeRe(n.path) {
			continue
		}
		best := byte('o')
		for _, m := range seen {
			if o.ck(m.path) == o.ck(n.path) && strings.IndexByte(better, m.kind) > strings.IndexByte(better, best) {
				best = m.kind
			}
		}
		if o.skipZero && best == 'z' && o.includeRe == nil {
			containers := false
			for _, m := range seen {
				containers = containers || m.kind == 'o' && o.ck(m.path) == o.ck(n.path)
			}
			if !containers {
				continue
			}
		}
		add(n.path, best == 'n')
	}
	return cols
}

// collapse finds the objects and arrays with more children than the limit.
func (o *ropts) collapse(lines []rline) []string {
	if o.children == 0 {
		return nil
	}
	kids := map[string]int{}
	seen := map[string]bool{}
	var res []string
	for i, l := range lines {
		o.line(l, i+1, nil, func(n rnode) {
			if seen[n.path] || strings.HasPrefix(n.path, "._") {
				return
			}
			seen[n.path] = true
			p := n.path[:strings.LastIndex(n.path, ".")]
			if p == "" {
				return
			}
			kids[p]++
			if kids[p] == o.children+1 && p != o.allow {
				res = append(res, p)
			}
		})
	}
	return res
}

// rtable is a table of the reference.
type rtable struct {
	name string
	rows []trow
}

// refResult is what the outputs have.
type refResult struct {
	cols   []rcol
	rows   [][]string
	absent [][]bool // no value, or null
	tables []rtable
}

func (o *ropts) shown(path string, n rnode) string {
	v := n.val
	if n.kind == 's' {
		if o.times && path == ".T" {
			v = "02.0124"
		}
		if o.field > 0 && len(v) > o.field {
			v = v[:o.field]
		}
	}
	return v
}

func (o *ropts) result(lines []rline) refResult {
	if o.offset < len(lines) {
		lines = lines[o.offset:]
	} else {
		lines = nil
	}
	if o.max > 0 && o.max < len(lines) {
		lines = lines[:o.max]
	}
	keyLines := lines
	if o.maxKeys > 0 && o.maxKeys < len(keyLines) {
		keyLines = keyLines[:o.maxKeys]
	}
	collapsed := o.collapse(keyLines)
	all := o.columns(keyLines, collapsed)
	if len(keyLines) < len(lines) && !o.sens {
		// Keys that only differ by case from the keys that are found are not looked for (listed-key-case).
		exact, lower := map[string]bool{}, map[string]bool{}
		for _, k := range o.include {
			lower[strings.ToLower(k)] = true
		}
		for _, l := range keyLines {
			o.line(l, 0, collapsed, func(n rnode) { exact[n.path], lower[strings.ToLower(n.path)] = true, true })
		}
		for _, l := range lines {
			o.line(l, 0, collapsed, func(n rnode) {
				if lower[strings.ToLower(n.path)] && !exact[n.path] {
					sym.Skip()
				}
			})
		}
	}
	var res refResult
	var moved []rcol
	for _, c := range all {
		if t, _, _ := o.dest(c.name); t != "" {
			moved = append(moved, c)
			continue
		}
		for _, r := range o.rename {
			if o.ck(r[0]) == o.ck(c.name) {
				c.name = r[1]
			}
		}
		dup := false
		for i := range res.cols {
			if res.cols[i].name == c.name {
				res.cols[i].keys = append(res.cols[i].keys, c.keys...)
				if res.cols[i].optional != c.optional {
					sym.Skip() // the place depends on whether there is the optional one
				}
				dup = true
			}
		}
		if !dup {
			res.cols = append(res.cols, c)
		}
	}
	for i, l := range lines {
		row := make([]string, len(res.cols))
		set := make([]bool, len(res.cols))
		cells := map[string][]trow{}
		for k, c := range res.cols {
			if strings.HasPrefix(c.keys[0], "const:") {
				row[k], set[k] = c.keys[0][6:], true
			}
		}
		o.line(l, i+1, collapsed, func(n rnode) {
			if n.kind == 'o' || n.kind == 'a' {
				return
			}
			for k, c := range res.cols {
				if !hasString(c.keys, o.ck(n.path)) || n.kind == 'n' {
					continue
				}
				v := o.shown(n.path, n)
				switch {
				case !set[k]:
					row[k], set[k] = v, true
				case o.concat != nil:
					row[k] += *o.concat + v
				}
			}
			for _, c := range moved {
				if !hasString(c.keys, o.ck(n.path)) || n.kind == 'n' && c.optional {
					continue
				}
				t, idx, rest := o.dest(n.path)
				at := -1
				for k, r := range cells[t] {
					if r.idx == idx {
						at = k
					}
				}
				if at < 0 {
					at = len(cells[t])
					cells[t] = append(cells[t], trow{itoa(i + 1), idx, map[string]string{}})
				}
				v := o.shown(n.path, n)
				if n.kind == 'n' {
					v = ""
				}
				cells[t][at].vals[o.ck(rest)] = v
			}
		})
		for _, t := range o.transpose {
			for k := range res.tables {
				if res.tables[k].name == t[1] {
					res.tables[k].rows = append(res.tables[k].rows, cells[t[1]]...)
					cells[t[1]] = nil
				}
			}
			if len(cells[t[1]]) > 0 {
				res.tables = append(res.tables, rtable{t[1], cells[t[1]]})
			}
		}
		var ab []bool
		for _, s := range set {
			ab = append(ab, !s)
		}
		res.rows = append(res.rows, row)
		res.absent = append(res.absent, ab)
	}
	return res
}

// align finds the columns of the reference for the columns of an output; columns
// without scalars may be missing.
func (o *ropts) align(res refResult, head []string, msg string) []int {
	same := func(c rcol, h string) bool {
		return c.name == h || o.ck(c.name) == o.ck(h) // the name may be of another key that only differs by case
	}
	var at []int
	k := 0
	if o.anyNames {
		for _, c := range res.cols {
			if c.optional {
				sym.Skip()
			}
		}
	}
	for _, h := range head {
		for k < len(res.cols) && !same(res.cols[k], h) && !o.anyNames && res.cols[k].optional {
			k++
		}
		sym.Assert(k < len(res.cols), msg+": unexpected column "+h)
		if !o.anyNames {
			sym.Assert(same(res.cols[k], h), msg+": column "+h+" in the place of "+res.cols[k].name)
		} else if o.nameLimit > 0 && o.rename == nil {
			sym.Assert(len(h) <= o.nameLimit, msg+": the name is not limited: "+h)
		}
		at = append(at, k)
		k++
	}
	for ; k < len(res.cols); k++ {
		sym.Assert(res.cols[k].optional, msg+": no column "+res.cols[k].name)
	}
	for i := range head {
		for k := 0; k < i; k++ {
			sym.Assert(head[k] != head[i], msg+": two columns of the name "+head[i])
		}
	}
	return at
}

// sameRows asserts that the rows of a table are those of the reference, in the order of lines.
func sameRows(rows []trow, want []trow, sens bool, msg string) {
	sym.Assert(len(rows) == len(want), msg+": number of rows")
	for i := 1; i < len(rows); i++ {
		sym.Assert(atoi(rows[i-1].seq) <= atoi(rows[i].seq), msg+": rows are not in the order of lines")
	}
	for _, w := range want {
		found := 0
		for _, r := range rows {
			if r.seq != w.seq || r.idx != w.idx {
				continue
			}
			found++
			var names []string
			for k := range r.vals {
				names = append(names, k)
			}
			sort.Strings(names)
			n := 0
			for _, k := range names {
				c := k
				if !sens {
					c = strings.ToLower(k)
				}
				sym.Assert(r.vals[k] == w.vals[c], msg+": value of "+w.seq+" "+w.idx+" "+k)
				if _, ok := w.vals[c]; ok {
					n++
				}
			}
			sym.Assert(n == len(w.vals), msg+": a column is missing")
		}
		sym.Assert(found == 1, msg+": the element "+w.idx+" of line "+w.seq+" has not exactly one row")
	}
}

// sqliteSame tells if the cell has the value, or the number that it is.
func sqliteSame(c sym.Cell, v string, absent bool) bool {
	if absent {
		return c.Null
	}
	if c.Null {
		return false
	}
	return c.S == v || v == "1.50" && c.S == "1.5"
}

// Reference: outputs are those of the reference, for a pair of options.
func Reference() {
	n := sym.Param("lines")
	a, b := sym.Param("a"), sym.Choose(refOptions)
	if a < 0 {
		a = sym.Choose(refOptions)
		if a > b {
			sym.Skip()
		}
	}
	for _, x := range refIncompatible {
		if x[0] == a && x[1] == b || x[0] == b && x[1] == a {
			sym.Skip()
		}
	}
	out := sym.Param("out")
	if out >= 2 && (a == 18 || b == 18) {
		sym.Skip() // SQL names that differ by case
	}
	var o ropts
	j := newJob()
	refApply(a, j, &o)
	if b != a {
		refApply(b, j, &o)
	}
	var lines []rline
	in := []string{"", ""}
	for i := 0; i < n; i++ {
		l := refLine()
		lines = append(lines, l)
		k := 0
		if (a == 20 || b == 20) && i > 0 {
			k = 1
		}
		in[k] += l.text + "\n"
	}
	if in[1] == "" {
		in = in[:1]
	}
	j.in = in
	res := o.result(lines)
	some := false
	for _, c := range res.cols {
		some = some || !c.optional
	}
	if !some {
		sym.Skip()
	}
	switch out {
	case 0:
		j.csv()
	case 1:
		j.csv()
		j.f.Raw = tmp("o.raw")
		j.f.RawDelim = "|"
	case 2:
		j.sqlite()
	case 3:
		j.pg()
	}
	j.ok()
	switch out {
	case 0, 1:
		t := j.table()
		t.rect()
		at := o.align(res, t.head, "CSV")
		sym.Assert(len(t.rows) == len(res.rows), "the number of rows is not the number of lines")
		raw := ""
		for i := range t.rows {
			for k, c := range at {
				if out == 0 {
					sym.Assert(t.rows[i][k] == res.rows[i][c], "value of "+res.cols[c].name+" in row "+itoa(i))
				}
				if k > 0 {
					raw += "|"
				}
				raw += res.rows[i][c]
			}
			raw += "\n"
		}
		if out == 1 {
			sym.Assert(readFile(tmp("o.raw")) == raw, "the raw output is not the values of the lines")
		}
		for _, tr := range o.transpose {
			var want []trow
			for _, x := range res.tables {
				if x.name == tr[1] {
					want = x.rows
				}
			}
			f := tmp("o_" + tr[1] + ".csv")
			if want == nil {
				if exists(f) { // there may be a table of keys without scalars
					sym.Assert(len(transposedCSV(readFile(f), tr[1])) <= len(res.rows)*2, "rows of nulls")
				}
				continue
			}
			sym.Assert(exists(f), "no output "+tr[1])
			sameRows(refRows(transposedCSV(readFile(f), tr[1]), want), want, o.sens, tr[1])
		}
	case 2:
		ts := j.tables()
		t := findTable(ts, "t")
		sym.Assert(t.Cols[0] == "_seq_id", "the first column is the number of the row")
		at := o.align(res, t.Cols[1:], "SQLite")
		sym.Assert(len(t.Rows) == len(res.rows), "the number of rows is not the number of lines")
		for i := range t.Rows {
			sym.Assert(t.Rows[i][0].S == itoa(i+1), "number of the row")
			for k, c := range at {
				sym.Assert(sqliteSame(t.Rows[i][k+1], res.rows[i][c], res.absent[i][c]), "value of "+res.cols[c].name+" in row "+itoa(i))
			}
		}
		for _, x := range res.tables {
			m := findTable(ts, "t_"+x.name)
			var rows []trow
			for i := range m.Rows {
				r := trow{m.Rows[i][colOf(m, "._sequence")].S, m.Rows[i][colOf(m, "._index")].S, map[string]string{}}
				sym.Assert(m.Rows[i][colOf(m, "_seq_id")].S == r.seq, "numbers of a line differ")
				for k, c := range m.Cols {
					if c != "_seq_id" && c != "._sequence" && c != "._index" {
						r.vals[c] = m.Rows[i][k].S
					}
				}
				rows = append(rows, r)
			}
			sameRows(refRows(rows, x.rows), x.rows, o.sens, x.name)
		}
	case 3:
		ts := j.dump()
		t := ts[0]
		sym.Assert(t.name == "t" && t.cols[0] == "_seq_id", "the first column is the number of the row")
		at := o.align(res, t.cols[1:], "dump")
		sym.Assert(len(t.rows) == len(res.rows), "the number of rows is not the number of lines")
		for i := range t.rows {
			sym.Assert(t.rows[i][0] == itoa(i+1), "number of the row")
			for k, c := range at {
				sym.Assert(t.rows[i][k+1] == res.rows[i][c], "value of "+res.cols[c].name+" in row "+itoa(i))
			}
		}
		for _, x := range res.tables {
			var m *pgTable
			for _, y := range ts {
				if y.name == "t_"+x.name {
					m = y
				}
			}
			sym.Assert(m != nil, "no table "+x.name+" in the dump")
			var rows []trow
			for i := range m.rows {
				r := trow{m.rows[i][m.col("._sequence")], m.rows[i][m.col("._index")], map[string]string{}}
				sym.Assert(m.rows[i][m.col("_seq_id")] == r.seq, "numbers of a line differ")
				for k, c := range m.cols {
					if c != "_seq_id" && c != "._sequence" && c != "._index" {
						r.vals[c] = m.rows[i][k]
					}
				}
				rows = append(rows, r)
			}
			sameRows(refRows(rows, x.rows), x.rows, o.sens, x.name)
		}
	}
}

// refRows drops the rows that have no values and are not wanted: those of nulls at
// keys without scalars.
func refRows(rows, want []trow) []trow {
	var res []trow
	for _, r := range rows {
		keep := false
		for _, v := range r.vals {
			keep = keep || v != ""
		}
		for _, w := range want {
			keep = keep || w.seq == r.seq && w.idx == r.idx
		}
		if keep {
			res = append(res, r)
		}
	}
	return res
}
