package verifharness

import (
	"strings"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

func two(i int) string {
	if i < 10 {
		return "0" + itoa(i)
	}
	return itoa(i)
}

// clock is a time of the day of the 15th, in minutes, and its text parts.
type clock struct{ day, h, m int }

// shift moves the clock by minutes.
func (c clock) shift(by int) clock {
	t := c.h*60 + c.m + by
	d := c.day
	for t < 0 {
		t += 24 * 60
		d--
	}
	for t >= 24*60 {
		t -= 24 * 60
		d++
	}
	return clock{d, t / 60, t % 60}
}

type zone struct {
	name, off string
	min       int
}

var zones = []zone{
	{"", "Z", 0},
	{"UTC", "Z", 0},
	{"Etc/GMT-2", "+02:00", 120},
	{"Etc/GMT+5", "-05:00", -300},
}

// ParseTime: strings at the keys of parseTime are times of the given format,
// that are written in the output format and time zone. Other values of the key
// and other keys are not changed, a string that is not such a time is shown.
func ParseTime() {
	ss := "3" + word(1, digits)
	c := clock{15, []int{0, 7, 23}[sym.Choose(3)], []int{0, 59}[sym.Choose(2)]}
	out := zones[sym.Choose(len(zones))]
	var val, layout string
	zoned := false // the value has a zone
	in := zones[0]
	day, hour := "2024-03-15", two(c.h)+":"+two(c.m)+":"+ss
	frac := ""
	switch sym.Choose(4) {
	case 0:
		layout, val = "2006-01-02 15:04:05", day+" "+hour
	case 1:
		layout, val, zoned = "2006-01-02T15:04:05Z07:00", day+"T"+hour, true
		in = []zone{{"", "Z", 0}, {"", "+05:30", 330}, {"", "-08:00", -480}}[sym.Choose(3)]
		val += in.off
	case 2:
		frac = "." + word(1, "123456789")
		layout, val = "2006/01/02 15:04:05.99999", strings.ReplaceAll(day, "-", "/")+" "+hour+frac
	case 3:
		layout, val = "02 Jan 2006 (15:04:05)", "15 Mar 2024 ("+hour+")"
	}
	// The instant in the zone of the output.
	switch {
	case out.name != "" && zoned:
		c = c.shift(out.min - in.min)
	case out.name == "" && zoned:
		out.off = in.off
	}
	var want, outLayout string
	switch sym.Choose(3) {
	case 0:
		want = "2024-03-" + two(c.day) + "T" + two(c.h) + ":" + two(c.m) + ":" + ss + out.off
	case 1:
		outLayout = "2006-01-02 15:04:05.999"
		want = "2024-03-" + two(c.day) + " " + two(c.h) + ":" + two(c.m) + ":" + ss + frac
	case 2:
		outLayout = "15:04 2 January"
		want = two(c.h) + ":" + two(c.m) + " " + itoa(c.day) + " March"
	}
	other := sym.Choose(6)
	lit := []string{`12`, `null`, `true`, `"no"`, `{}`, `""`}[other]
	key, doc := ".t", `{"t":"`+val+`","u":"`+val+`","o":{"t":"`+val+`"}}`
	rest := `{"t":` + lit + `,"u":0}`
	switch sym.Choose(3) {
	case 1:
		key = ".o.[1].t"
		doc = `{"u":"` + val + `","o":[{"t":"` + val + `"},{"t":"` + val + `"}]}`
		rest = `{"o":[1,{"t":` + lit + `}],"u":0}`
	case 2: // the only column
		key = ".o.t"
		doc = `{"u":1,"o":{"t":"` + val + `","u":2}}`
		rest = `{"o":{"t":` + lit + `}}`
	}
	j := newJob(doc + "\n" + rest + "\n").csv()
	j.cfg.ParseTime = map[string]string{key: layout, ".nope": "2006"}
	j.cfg.OutputTimezone = out.name
	j.cfg.OutputTimeFormat = outLayout
	if key == ".o.t" {
		if sym.Bool() {
			j.f.GetKey = key
		} else {
			j.cfg.IncludeKeys = []string{key}
		}
	}
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == 2, "rows")
	t.want(0, key, want, "time")
	switch other {
	case 0, 2:
		t.want(1, key, lit, "a value that is not a string")
	case 1, 4:
		t.want(1, key, "", "no value")
	case 3:
		v, _ := t.get(1, key)
		sym.Assert(strings.Contains(v, "no") && v != want, "a string that is not a time")
	case 5:
		v, _ := t.get(1, key)
		sym.Assert(v == "" || strings.Contains(v, "parse"), "an empty string that is not a time")
	}
	switch key {
	case ".t":
		t.want(0, ".u", val, "another key")
		t.want(0, ".o.t", val, "another key")
	case ".o.[1].t":
		t.want(0, ".u", val, "another key")
		t.want(0, ".o.[0].t", val, "another key")
	}
}

// TimePlaces: times are parsed wherever the key comes from: the prefix of the
// line, a transposed value, a renamed key, an extracted document.
func TimePlaces() {
	d := word(1, "123456789")
	val, want := "0"+d+"/03/2024", "2024-03-0"+d
	bad := sym.Bool()
	if bad {
		val = "x" + d
	}
	var s, key, col string
	j := newJob().csv()
	switch sym.Choose(6) {
	case 0:
		s, key = val+` {"a":1}`, "._prefix.[0]"
		j.f.MatchLinePrefix = `^(\S+) `
		j.cfg.IncludeKeysRegex = []string{"^.*$"}
	case 1:
		s, key, col = `{"a":"`+val+`"}`, ".a", "created TIMESTAMP"
		j.cfg.ReplaceKeys = map[string]string{".a": col}
	case 2:
		s, key = `{"a":"{\"t\":\"`+val+`\"}"}`, ".a.JSON.t"
		j.f.ExtractStrings = true
	case 3: // not parsed
		s, key = `{"a":"`+val+`"}`, ".a"
	case 4: // a limit of the field does not cut what is parsed within it
		s, key = `{"a":"`+val+`"}`, ".a"
		j.f.FieldLimit = 10
	case 5: // merged with a key that is not a time
		s, key, col = `{"b":null,"a":"`+val+`"}`, ".a", "m"
		j.cfg.ReplaceKeys = map[string]string{".a": "m", ".b": "m"}
	}
	if col == "" {
		col = key
	}
	j.in = []string{s + "\n"}
	j.cfg.ParseTime = map[string]string{key: "02/01/2006"}
	j.cfg.OutputTimeFormat = "2006-01-02"
	if sym.Bool() {
		j.cfg.ParseTime[key] = "RAW"
		want = val
	} else if bad {
		want = ""
	}
	t := j.ok().table()
	t.rect()
	if want != "" {
		t.want(0, col, want, "time")
	} else {
		v, ok := t.get(0, col)
		sym.Assert(ok && v != "", "a string that is not a time")
		if j.f.FieldLimit == 0 {
			sym.Assert(strings.Contains(v, val), "a string that is not a time")
		} else {
			sym.Assert(len(v) <= j.f.FieldLimit && v != val, "a string that is not a time, with a limit")
		}
	}
}

// PGTimes: times are in the dump in columns that admit them.
func PGTimes() {
	d := word(1, "123456789")
	lits := []string{`"2024-03-0` + d + `"`, `7`, `null`, `"x` + d + `"`}
	a, b := sym.Choose(len(lits)), sym.Choose(len(lits))
	if (a == 3 || b == 3) && a != 1 && b != 1 {
		sym.Known("pg-timestamp-text")
	}
	if (a == 1 || b == 1) && a != b && a != 2 && b != 2 {
		sym.Known("pg-timestamp-text")
	}
	j := newJob(`{"t":` + lits[a] + `,"z":1}` + "\n" + `{"t":` + lits[b] + `,"z":2}` + "\n").pg()
	j.cfg.ParseTime = map[string]string{".t": "2006-01-02"}
	dump := j.ok().dump()[0]
	c := dump.col(".t")
	if a == 2 && b == 2 {
		return
	}
	typ := dump.types[c]
	for i, k := range []int{a, b} {
		v := dump.rows[i][c]
		switch k {
		case 0:
			sym.Assert(v == "2024-03-0"+d+"T00:00:00Z", "time")
		case 1:
			sym.Assert(v == "7", "number")
			sym.Assert(typ != "TIMESTAMP", "a number in a column of timestamps")
		case 2:
			sym.Assert(v == "", "null")
		case 3:
			sym.Assert(typ != "TIMESTAMP", "a text in a column of timestamps")
		}
	}
	if (a == 0 || a == 2) && (b == 0 || b == 2) {
		sym.Assert(typ == "TIMESTAMP", "type of times")
	}
}
