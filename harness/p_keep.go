package verifharness

import (
	"strings"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

// nested makes a value without white space, and its leaves below path.
func nested(path string) (string, []leaf) {
	c := word(1, alnum)
	switch sym.Choose(9) {
	case 0:
		return `{"x":"` + c + `","y":[1,{"z":null}]}`, []leaf{{path + ".x", c, 0}, {path + ".y.[0]", "1", 0}, {path + ".y.[1].z", "", 'n'}}
	case 1:
		return `["` + c + `",{"x":1.50}]`, []leaf{{path + ".[0]", c, 0}, {path + ".[1].x", "1.50", 0}}
	case 2:
		return `"` + c + `"`, []leaf{{path, c, 0}}
	case 3:
		return `7`, []leaf{{path, "7", 0}}
	case 4:
		return `null`, []leaf{{path, "", 'n'}}
	case 5:
		return `{}`, nil
	case 6:
		return `[]`, nil
	case 7:
		return `true`, []leaf{{path, "true", 0}}
	default:
		c = word(1, "abc")
		return `{"x":[[2]],"` + c + `":"\"a\\\n"}`, []leaf{{path + ".x.[0].[0]", "2", 0}, {path + "." + c, "\"a\\\n", 0}}
	}
}

// KeepJSON: objects and arrays at the listed keys are columns with their JSON,
// they do not make columns of their own; other keys are not affected.
func KeepJSON() {
	n := sym.Param("lines")
	var s string
	var kept []string
	var rest [][]leaf
	for i := 0; i < n; i++ {
		k, _ := nested(".k")
		r, ls := `8`, []leaf{{".kk", "8", 0}}
		if i == 0 {
			r, ls = nested(".kk") // the listed key is a prefix of this one
		}
		s += `{"k":` + k + `,"kk":` + r + `,"oO":{"k":` + k + `}}` + "\n"
		switch {
		case k == "null":
			k = ""
		case k[0] == '"':
			k = k[1 : len(k)-1]
		}
		kept = append(kept, k)
		rest = append(rest, ls)
	}
	j := newJob(s).csv()
	j.cfg.KeepJSON = []string{".k", ".oO.k"}
	listed := sym.Bool()
	if listed {
		j.cfg.IncludeKeys = []string{".k", ".oO.k"}
	}
	pg := sym.Bool()
	if pg {
		j.pg()
	}
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == n, "rows")
	for i := range kept {
		t.want(i, ".k", kept[i], "JSON")
		t.want(i, ".oO.k", kept[i], "JSON")
	}
	for _, h := range t.head {
		sym.Assert(!strings.HasPrefix(h, ".k.") && !strings.HasPrefix(h, ".oO.k."), "column below a key that is kept")
	}
	if !listed {
		for i := range rest {
			for _, l := range rest[i] {
				if l.kind == 0 {
					t.want(i, l.path, l.val, "another key")
				}
			}
		}
	}
	if pg {
		d := j.dump()[0]
		for i := range kept {
			sym.Assert(d.rows[i][d.col(".k")] == kept[i], "JSON in the dump")
		}
	}
}

// ManyChildren: an object or array with more than -children-limit different
// children is kept as JSON, in all lines; other keys are not affected.
func ManyChildren() {
	lim := 1 + sym.Choose(sym.Param("max"))
	lines := 1 + sym.Choose(2)
	total := 0
	allow := sym.Choose(3)
	array := sym.Bool()
	var s string
	var objs []string
	var leaves []map[string]string
	deep := sym.Bool()
	next := 0
	for i := 0; i < lines; i++ {
		n := sym.Choose(sym.Param("max") + 2)
		o := ""
		ls := map[string]string{}
		for c := 0; c < n; c++ {
			if c > 0 {
				o += ","
			}
			path := ".Pa.qB"
			if array {
				path += ".[" + itoa(c) + "]"
			} else {
				// Keys of a line are other ones than those of the line before.
				path += ".c" + itoa(next)
				o += `"c` + itoa(next) + `":`
				next++
			}
			if deep {
				o += `{"d":` + itoa(c) + `}`
				ls[path+".d"] = itoa(c)
			} else {
				o += itoa(c)
				ls[path] = itoa(c)
			}
		}
		if array {
			o = "[" + o + "]"
			if n > total {
				total = n
			}
		} else {
			o = "{" + o + "}"
			total += n
		}
		objs = append(objs, o)
		leaves = append(leaves, ls)
		// .Pa.qBq is a sibling with a similar name, .z.qB has the same name.
		s += `{"Pa":{"qB":` + o + `,"qBq":{"x":"` + itoa(i) + `"}},"z":{"qB":5}}` + "\n"
	}
	sym.Assume(lim >= 2) // .Pa itself has two children
	j := newJob(s).csv()
	j.f.ChildrenLimit = lim
	j.f.Concurrency = 1 + sym.Choose(2)
	switch allow {
	case 1:
		j.cfg.AllowCardinality = []string{".Pa.qB"}
	case 2:
		j.cfg.AllowCardinality = []string{".Pa"}
	}
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == lines, "rows")
	cols := 2
	for i := 0; i < lines; i++ {
		t.want(i, ".Pa.qBq.x", itoa(i), "sibling")
		t.want(i, ".z.qB", "5", "another key")
	}
	if total > lim && allow != 1 {
		for i := range objs {
			t.want(i, ".Pa.qB", objs[i], "JSON")
		}
		cols++
	} else {
		seen := map[string]bool{}
		for _, ls := range leaves {
			for p := range ls {
				if !seen[p] {
					seen[p] = true
					cols++
				}
			}
		}
		for i, ls := range leaves {
			for p := range seen {
				t.want(i, p, ls[p], "child")
			}
		}
	}
	sym.Assert(len(t.head) == cols, "columns")
}
