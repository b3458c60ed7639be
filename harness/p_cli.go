package verifharness

import (
	"flag"
	"os"
	"strconv"
	"strings"

	"github.com/vearutop/flatjsonl/flatjsonl"
	sym "github.com/vearutop/flatjsonl/verifsym"
)

// cliFlags are the arguments that have the meaning of the fields, by the documentation of
// the command line; those that have the default value are left out.
func cliFlags(f flatjsonl.Flags) []string {
	var args []string
	str := func(name, v, def string) {
		if v != def {
			args = append(args, "-"+name, v)
		}
	}
	num := func(name string, v, def int) {
		if v != def {
			args = append(args, "-"+name+"="+strconv.Itoa(v))
		}
	}
	boolean := func(name string, v bool) {
		if v {
			args = append(args, "--"+name)
		}
	}
	str("input", f.Input, "")
	str("output", f.Output, "")
	str("csv", f.CSV, "")
	str("sqlite", f.SQLite, "")
	num("sql-max-cols", f.SQLMaxCols, 500)
	str("sql-table", f.SQLTable, "flatjsonl")
	str("pg-dump", f.PGDump, "")
	str("raw", f.Raw, "")
	str("raw-delim", f.RawDelim, "")
	num("verbosity", f.Verbosity, 1)
	boolean("replace-keys", f.ReplaceKeys)
	boolean("extract-strings", f.ExtractStrings)
	str("get-key", f.GetKey, "")
	str("config", f.Config, "")
	boolean("show-keys-flat", f.ShowKeysFlat)
	boolean("show-keys-hier", f.ShowKeysHier)
	boolean("show-keys-info", f.ShowKeysInfo)
	boolean("show-json-schema", f.ShowJSONSchema)
	boolean("skip-zero-cols", f.SkipZeroCols)
	boolean("add-sequence", f.AddSequence)
	boolean("case-sensitive-keys", f.CaseSensitiveKeys)
	str("match-line-prefix", f.MatchLinePrefix, "")
	num("max-lines", f.MaxLines, 0)
	num("offset-lines", f.OffsetLines, 0)
	num("max-lines-keys", f.MaxLinesKeys, 0)
	num("field-limit", f.FieldLimit, 0)
	num("children-limit", f.ChildrenLimit, 100)
	num("key-limit", f.KeyLimit, 0)
	num("buf-size", f.BufSize, 10000000)
	num("concurrency", f.Concurrency, -1)
	num("mem-limit", f.MemLimit, 1000)
	return args
}

// cfgField is a setting of a configuration file.
type cfgField struct {
	name string
	kind byte // s l m
	vals []string
	keys []string
}

// cfgFields are the settings of a configuration by their documented names.
func cfgFields(c flatjsonl.Config) []cfgField {
	var r []cfgField
	str := func(name, v string) {
		if v != "" {
			r = append(r, cfgField{name: name, kind: 's', vals: []string{v}})
		}
	}
	list := func(name string, v []string) {
		if v != nil {
			r = append(r, cfgField{name: name, kind: 'l', vals: v})
		}
	}
	str("matchLinePrefix", c.MatchLinePrefix)
	list("includeKeys", c.IncludeKeys)
	list("includeKeysRegex", c.IncludeKeysRegex)
	list("excludeKeys", c.ExcludeKeys)
	list("excludeKeysRegex", c.ExcludeKeysRegex)
	r = cfgMap(r, "replaceKeys", c.ReplaceKeys)
	r = cfgMap(r, "replaceKeysRegex", c.ReplaceKeysRegex)
	r = cfgMap(r, "parseTime", c.ParseTime)
	str("outputTimeFormat", c.OutputTimeFormat)
	str("outputTZ", c.OutputTimezone)
	if c.ConcatDelimiter != nil {
		r = append(r, cfgField{name: "concatDelimiter", kind: 's', vals: []string{*c.ConcatDelimiter}})
	}
	r = cfgMap(r, "transpose", c.Transpose)
	r = cfgMap(r, "extractValuesRegex", c.ExtractValuesRegex)
	list("keepJSON", c.KeepJSON)
	list("allowCardinality", c.AllowCardinality)
	return r
}

func cfgMap[E ~string](r []cfgField, name string, v map[string]E) []cfgField {
	if v == nil {
		return r
	}
	f := cfgField{name: name, kind: 'm'}
	for k, x := range v {
		i := 0
		for i < len(f.keys) && f.keys[i] < k {
			i++
		}
		f.keys = append(f.keys[:i], append([]string{k}, f.keys[i:]...)...)
		f.vals = append(f.vals[:i], append([]string{string(x)}, f.vals[i:]...)...)
	}
	return append(r, f)
}

func cfgQuote(s string) string {
	s = strings.ReplaceAll(s, `\`, `\\`)
	return `"` + strings.ReplaceAll(s, `"`, `\"`) + `"`
}

const cfgForms = 6

// cfgText writes a configuration: JSON in one line or more, YAML in block and
// flow style, JSON5 with comments, trailing commas and keys without quotes.
func cfgText(fs []cfgField, form int) string {
	nl, tab, end := "", "", ""
	switch form {
	case 1:
		nl, tab = "\n", "  "
	case 4, 5:
		nl, tab, end = "\n", "\t", ","
	}
	if form == 2 || form == 3 {
		s := "# configuration\n"
		for _, f := range fs {
			s += f.name + ":"
			ind := []string{"", "  "}[form-2]
			q := func(x string) string {
				plain := x != ""
				for i := 0; i < len(x); i++ {
					plain = plain && (x[i] >= 'a' && x[i] <= 'z' || x[i] >= 'A' && x[i] <= 'Z' || x[i] == '.' || x[i] == '_')
				}
				if form == 3 && plain {
					return x
				}
				return cfgQuote(x)
			}
			switch f.kind {
			case 's':
				s += " " + q(f.vals[0]) + "\n"
			case 'l':
				if len(f.vals) == 0 {
					s += " []"
				}
				s += "\n"
				for _, x := range f.vals {
					s += ind + "- " + q(x) + "\n"
				}
			case 'm':
				if len(f.vals) == 0 {
					s += " {}"
				}
				s += "\n"
				for i, x := range f.vals {
					s += "  " + q(f.keys[i]) + ": " + q(x) + "\n"
				}
			}
		}
		return s
	}
	s := "{" + nl
	for i, f := range fs {
		if form == 5 {
			s += tab + "// " + f.name + ":\n"
			s += tab + f.name + ": "
		} else {
			s += tab + cfgQuote(f.name) + ":"
		}
		switch f.kind {
		case 's':
			s += cfgQuote(f.vals[0])
		case 'l':
			s += "["
			for j, x := range f.vals {
				if j > 0 {
					s += ","
				}
				s += cfgQuote(x)
			}
			if len(f.vals) > 0 {
				s += end
			}
			s += "]"
		case 'm':
			s += "{"
			for j, x := range f.vals {
				if j > 0 {
					s += ","
				}
				s += cfgQuote(f.keys[j]) + ":" + cfgQuote(x)
			}
			if len(f.vals) > 0 {
				s += end
			}
			s += "}"
		}
		if i+1 < len(fs) {
			s += ","
		} else {
			s += end
		}
		s += nl
	}
	return s + "}" + nl
}

// runMain runs the program with the arguments and returns what it prints.
func runMain(args []string) string {
	flag.CommandLine = flag.NewFlagSet("flatjsonl", flag.ExitOnError)
	os.Args = append([]string{"flatjsonl"}, args...)
	out := os.Stdout
	f, err := os.Create(tmp("stdout"))
	sym.Assert(err == nil, "file for standard output")
	os.Stdout = f
	flatjsonl.Main()
	os.Stdout = out
	sym.Assert(f.Close() == nil, "file for standard output")
	return readFile(tmp("stdout"))
}

// CommandLine: the program with arguments and a configuration does what the
// same settings do in a Processor.
func CommandLine() {
	a, b := sym.Param("a"), sym.Choose(refOptions)
	if a < 0 {
		a = sym.Choose(refOptions)
		if a > b {
			sym.Skip()
		}
	}
	for _, x := range refIncompatible {
		if x[0] == a && x[1] == b || x[0] == b && x[1] == a {
			sym.Skip()
		}
	}
	var o ropts
	j := newJob()
	refApply(a, j, &o)
	if b != a {
		refApply(b, j, &o)
	}
	c := word(1, alnum)
	in := []string{
		`x-1 {"Id":"` + c + `","T":"2021-05-06","m":[{"K":1},{"K":"` + c + `"}],"o":{"K":"a,b","b":0}}` + "\n",
		`y-2 {"id":2,"o":{"k":true,"b":""},"l":["","{\"z\":1}"]}` + "\n",
	}
	c2 := &j.cfg
	switch sym.Choose(4) {
	case 1:
		c2.OutputTimezone = "UTC"
		c2.ReplaceKeysRegex = map[string]string{".l.*": "el_${1}"}
	case 2:
		extractAs(&c2.ExtractValuesRegex, ".l.*", "JSON")
		if c2.IncludeKeysRegex == nil && c2.IncludeKeys == nil {
			c2.IncludeKeysRegex = []string{".*"}
		}
	case 3:
		if j.f.MatchLinePrefix == "" {
			c2.MatchLinePrefix = `([a-z])-(\d)( )`
		}
	}
	j.in = in
	outs := sym.Choose(5)
	name := func(p string, f *flatjsonl.Flags) {
		switch outs {
		case 0, 4:
			f.CSV = tmp(p + ".csv")
		case 1:
			f.Raw = tmp(p + ".raw")
			f.RawDelim = "|"
			f.CSV = tmp(p + ".csv")
		case 2:
			f.PGDump = tmp(p + ".sql")
			f.CSV = tmp(p + ".csv.gz")
		case 3:
			f.CSV = tmp(p + ".csv")
			f.Raw = tmp(p + ".raw.zst")
		}
	}
	name("o", &j.f)
	if outs == 4 && (a == 21 || b == 21) {
		j.f.CSV = "" // listings only
	}
	j.ok()

	in1, in2 := tmp("in1.jsonl"), tmp("in2.jsonl")
	putFile(in1, in[0])
	putFile(in2, in[1])
	f := j.f
	f.CSV, f.Raw, f.PGDump = "", "", ""
	def := ""
	switch outs {
	case 3:
		f.Output = tmp("p.csv") + "," + tmp("p.raw.zst")
	case 4: // the default output
		def = in1 + ".csv"
		if a == 21 || b == 21 {
			def = ""
		}
	default:
		name("p", &f)
	}
	var rest []string
	switch sym.Choose(3) {
	case 0:
		rest = []string{in1, in2}
	case 1:
		f.Input = in1 + "," + in2
	case 2:
		f.Input = in2
		rest = []string{in1}
	}
	if fs := cfgFields(j.cfg); len(fs) > 0 || sym.Bool() {
		form := sym.Choose(cfgForms)
		s := cfgText(fs, form)
		if form < 2 && sym.Bool() {
			f.Config = s
		} else {
			f.Config = tmp("cfg" + []string{".json", ".json", ".yml", ".yaml", ".json5", ".json5"}[form])
			putFile(f.Config, s)
		}
	}
	stdout := runMain(append(cliFlags(f), rest...))

	same := func(x, y, codec string) {
		sym.Assert(exists(tmp(x)) == exists(tmp(y)), "an output exists only for one of the runs: "+x)
		if !exists(tmp(x)) {
			return
		}
		s, ok1 := unpack(readFile(tmp(x)), codec)
		t, ok2 := unpack(readFile(tmp(y)), codec)
		sym.Assert(ok1 && ok2, "an output is not complete")
		sym.Assert(s == t, "the output by the command line differs: "+x)
		if codec == "" {
			sym.Log(t)
		}
	}
	switch outs {
	case 2:
		same("o.sql", "p.sql", "")
		same("o.csv.gz", "p.csv.gz", ".gz")
	case 3:
		same("o.raw.zst", "p.raw.zst", ".zst")
		same("o.csv", "p.csv", "")
	case 4:
		sym.Assert(exists(in1+".csv") == (def != ""), "the default output")
		if def != "" {
			sym.Assert(readFile(def) == readFile(tmp("o.csv")), "the default output differs")
		}
	default:
		same("o.csv", "p.csv", "")
		same("o.raw", "p.raw", "")
		for _, t := range o.transpose {
			same("o_"+t[1]+".csv", "p_"+t[1]+".csv", "")
			same("o_"+t[1]+".raw", "p_"+t[1]+".raw", "")
		}
	}
	sym.Assert(stdout == j.stdout.String(), "what is shown differs")
}

// CommandLineErrors: the program does not end with success when it did not do what it
// was asked for.
func CommandLineErrors() {
	c := word(1, alnum)
	in := tmp("in.jsonl")
	putFile(in, `{"a":"`+c+`"}`+"\n")
	f := flatjsonl.Flags{SQLMaxCols: 500, SQLTable: "flatjsonl", ChildrenLimit: 100, BufSize: 4096, Concurrency: 1, MemLimit: 1000}
	f.CSV = tmp("o.csv")
	files := []string{in}
	sym.AllowExit()
	switch sym.Choose(11) {
	case 0:
		f.Config = tmp("none.json")
	case 1:
		f.Config = `{"includeKeys":[`
	case 2:
		f.Config = `{"includeKeys":".a"}`
	case 3:
		f.Config = `{"replaceKeys":[".a"]}`
	case 4:
		f.Config = tmp("bad.json")
		putFile(f.Config, "{\n\t\"includeKeys\":[}\n")
	case 5:
		k := []string{"includeKeysRegex", "excludeKeysRegex"}[sym.Choose(2)]
		f.Config = `{"` + k + `":["(` + c + `"]}`
	case 6:
		k := []string{"replaceKeysRegex", "extractValuesRegex"}[sym.Choose(2)]
		f.Config = `{"` + k + `":{"(` + c + `":"JSON"}}`
	case 7:
		files = append(files, tmp("none.jsonl"))
	case 8:
		f.CSV = tmp("none/o.csv")
	case 9:
		f.BufSize = 5 // the line is longer
	case 10:
		f.CSV = ""
		f.PGDump = tmp("none/o.sql")
	}
	out := runMain(append(cliFlags(f), files...))
	sym.Log(out)
	sym.Assert(false, "the program ends with success")
}

// DefaultOutput: the first input with .csv added is the output if no other is named and
// nothing is shown, and nothing is written there otherwise.
func DefaultOutput() {
	c := word(1, alnum)
	a, b := tmp("a-1.jsonl"), tmp("b.x")
	l := `{"a":"` + c + `"}` + "\n"
	putFile(a, l)
	putFile(b, l)
	f := flatjsonl.Flags{SQLMaxCols: 500, SQLTable: "flatjsonl", ChildrenLimit: 100, BufSize: 4096, Concurrency: 1, MemLimit: 1000}
	def := false
	var outs []string
	table := ".a\n" + c + "\n"
	n := "1"
	switch sym.Choose(3) {
	case 0:
	case 1:
		f.GetKey = ".a"
	case 2:
		f.Config = `{"includeKeys":[".a"]}`
	}
	switch sym.Choose(12) {
	case 0:
		def = true
	case 1:
		f.CSV = tmp("o.csv")
		outs = []string{"o.csv"}
	case 2:
		f.Raw = tmp("o.raw")
		outs = []string{"o.raw"}
	case 3:
		f.PGDump = tmp("o.sql")
		outs = []string{"o.sql"}
	case 4:
		f.SQLite = tmp("o.sqlite")
	case 5:
		f.Output = tmp("o.csv") + "," + tmp("o.raw")
		outs = []string{"o.csv", "o.raw"}
	case 6:
		f.Output = tmp("o.raw")
		outs = []string{"o.raw"}
	case 7:
		f.Output = tmp("o.sqlite")
	case 8:
		f.ShowKeysFlat = true
	case 9:
		f.ShowKeysHier = true
	case 10:
		f.ShowKeysInfo = true
	case 11:
		f.ShowJSONSchema = true
		if sym.Bool() {
			f.Output = tmp("o.csv")
			outs = []string{"o.csv"}
		}
	}
	var rest []string
	first, other := a, b
	switch sym.Choose(4) {
	case 0:
		rest = []string{a}
	case 1:
		f.Input = a
	case 2:
		rest = []string{a, b}
		n = "2"
	case 3:
		f.Input = a + "," + b
		rest = []string{b}
		first, other = b, a
		n = "3"
	}
	for i := atoi(n); i > 1; i-- {
		table += c + "\n"
	}
	runMain(append(cliFlags(f), rest...))
	sym.Assert(exists(first+".csv") == def, "the default output")
	if def {
		sym.Assert(readFile(first+".csv") == table, "content of the default output")
	}
	sym.Assert(!exists(other+".csv"), "an output that is not asked for")
	for _, o := range []string{"o.csv", "o.raw", "o.sql"} {
		want := false
		for _, x := range outs {
			want = want || x == o
		}
		sym.Assert(exists(tmp(o)) == want, "the output "+o)
		if !want {
			continue
		}
		switch o {
		case "o.csv":
			sym.Assert(readFile(tmp(o)) == table, "content of the CSV output")
		case "o.raw":
			sym.Assert(readFile(tmp(o)) == table[3:], "content of the raw output")
		}
	}
	if f.SQLite != "" || strings.HasSuffix(f.Output, "sqlite") {
		sym.Assert(len(sym.SQLite(tmp("o.sqlite"))) == 1, "the SQLite output")
	}
}
