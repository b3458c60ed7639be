package verifharness

import (
	"strings"
	"unicode/utf8"

	"github.com/vearutop/flatjsonl/flatjsonl"
	sym "github.com/vearutop/flatjsonl/verifsym"
)

// Limits: -offset-lines skips lines, -max-lines limits the ones that follow,
// -max-lines-keys limits those that are looked at for columns.
func Limits() {
	n := sym.Param("lines")
	off, max, maxKeys := sym.Choose(n+2), sym.Choose(n+2), sym.Choose(n+2)
	var lines []string
	var own []string // the key of the line
	var val []string
	for i := 0; i < n; i++ {
		k := string([]byte{byte('a' + i)})
		switch sym.Choose(3) {
		case 0:
			v := word(1, digits)
			lines, own, val = append(lines, `{"k":`+itoa(i)+`,"`+k+`":"`+v+`"}`), append(own, "."+k), append(val, v)
		case 1:
			lines, own, val = append(lines, ``), append(own, ""), append(val, "")
		case 2:
			lines, own, val = append(lines, `{"`+k+`":`), append(own, ""), append(val, "")
		}
	}
	j := newJob(strings.Join(lines, "\n") + "\n").csv()
	j.f.OffsetLines = off
	j.f.MaxLines = max
	j.f.MaxLinesKeys = maxKeys
	j.f.Concurrency = 1 + sym.Choose(2)
	listed := sym.Bool()
	var heads []string
	if listed {
		heads = []string{".k", ".b", ".a"}
		j.cfg.IncludeKeys = heads
	}
	last := n
	if max > 0 && off+max < n {
		last = off + max
	}
	lastKeys := last
	if maxKeys > 0 && off+maxKeys < last {
		lastKeys = off + maxKeys
	}
	if !listed {
		for i := off; i < lastKeys; i++ {
			if own[i] != "" {
				if heads == nil {
					heads = []string{".k"}
				}
				heads = append(heads, own[i])
			}
		}
	}
	t := j.ok().table()
	if len(heads) == 0 {
		sym.Assert(len(t.head) == 1 && t.head[0] == "", "columns of lines that are not looked at")
		return
	}
	t.rect()
	if j.f.Concurrency > 1 && !listed {
		t.heads("columns", heads...)
	} else {
		t.headsInOrder("columns", heads...)
	}
	want := last - off
	if want < 0 {
		want = 0
	}
	sym.Assert(len(t.rows) == want, "the number of rows is not the number of lines within limits")
	for i := 0; i < want; i++ {
		l := off + i
		for _, h := range heads {
			switch {
			case h == ".k" && own[l] != "":
				t.want(i, h, itoa(l), "line")
			case h == own[l]:
				t.want(i, h, val[l], "own key")
			default:
				t.want(i, h, "", "absent")
			}
		}
	}
}

// LimitsFiles: limits select the same lines of each of several inputs.
func LimitsFiles() {
	n := sym.Param("lines")
	off, max := sym.Choose(n+1), sym.Choose(n+1)
	maxKeys := sym.Choose(n + 1)
	var in, want []string
	var heads []string
	for f := 0; f < 2; f++ {
		s := ""
		c := sym.Choose(n + 1)
		v := word(1, digits)
		for i := 0; i < c; i++ {
			k := string([]byte{byte('a' + f*n + i)})
			s += `{"k":"` + v + itoa(i) + `","` + k + `":true}` + "\n"
			if i < off || max > 0 && i >= off+max {
				continue
			}
			want = append(want, v+itoa(i), "."+k)
			if maxKeys == 0 || i < off+maxKeys {
				if heads == nil {
					heads = []string{".k"}
				}
				heads = append(heads, "."+k)
			}
		}
		in = append(in, s)
	}
	j := newJob(in...).csv()
	j.f.OffsetLines, j.f.MaxLines, j.f.MaxLinesKeys = off, max, maxKeys
	j.f.Concurrency = 1 + sym.Choose(2)
	t := j.ok().table()
	if len(heads) == 0 {
		sym.Assert(len(t.head) == 1 && t.head[0] == "", "columns of lines that are not looked at")
		return
	}
	t.rect()
	t.heads("columns", heads...)
	sym.Assert(len(t.rows) == len(want)/2, "the number of rows is not the number of lines within limits of each input")
	for i := range t.rows {
		t.want(i, ".k", want[2*i], "line")
		for _, h := range heads[1:] {
			v := ""
			if h == want[2*i+1] {
				v = "true"
			}
			t.want(i, h, v, "own key")
		}
	}
}

// Sequence: -add-sequence adds a column with the number of the row, which is
// the key of the row in the SQL outputs as well.
func Sequence() {
	var in []string
	n, files := 0, 1+sym.Choose(2)
	for i := 0; i < files; i++ {
		s := ""
		for k := sym.Choose(sym.Param("lines")); k >= 0; k-- {
			s += []string{`{"a":"` + word(1, alnum) + `"}`, ``, `{"a":`, `x`}[sym.Choose(4)] + "\n"
			n++
		}
		in = append(in, s)
	}
	j := newJob(in...).csv()
	j.f.AddSequence = true
	j.f.Concurrency = 1 + sym.Choose(2)
	listed := false
	switch sym.Choose(3) {
	case 1:
		listed = true
		j.cfg.IncludeKeys = []string{".a", "._sequence"}
	case 2:
		j.f.MaxLines = 100
		j.f.MaxLinesKeys = 1
	}
	sql := sym.Bool()
	if sql {
		j.pg()
	}
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == n, "rows")
	for i := range t.rows {
		t.want(i, "._sequence", itoa(i+1), "sequence number")
	}
	if sql {
		d := j.dump()[0]
		sym.Assert(listed || d.types[d.col("._sequence")] == "INT8", "type of the sequence number")
		sym.Assert(len(d.rows) == n, "rows of the dump")
		for i := range d.rows {
			sym.Assert(d.rows[i][0] == itoa(i+1) && d.rows[i][d.col("._sequence")] == itoa(i+1), "numbers of the dump")
		}
	}
}

// SequenceNumbers: numbers of rows and indexes of arrays are written as
// integers, however big they are.
func SequenceNumbers() {
	d := sym.Int(1, 9)
	for _, m := range []int{1, 100000, 1000000, 20000000, 12345678901, 1 << 52} {
		v := d * m
		if v > 1<<53 {
			continue
		}
		s := itoa(v)
		sym.Assert(flatjsonl.Format(float64(v)) == s, "number of a row")
		sym.Assert(flatjsonl.Value{Type: flatjsonl.TypeFloat, Number: float64(v)}.Format() == s, "index of an array")
	}
}

// SkipZero: -skip-zero-cols leaves out the columns that have nothing but
// zeros, and changes nothing else.
func SkipZero() {
	n := sym.Param("lines")
	lits := []string{`0`, `""`, `false`, `null`, ``, `1`, `"0"`, `true`, `0.0`, `-0`, `"` + word(1, plainChars) + `"`, `0.01`, `{}`, `1e-50`, `0.0e5`, `1e-400`}
	vals := []string{`0`, ``, `false`, ``, ``, `1`, `0`, `true`, `0.0`, `-0`, lits[10][1:2], `0.01`, ``, `1e-50`, `0.0e5`, `1e-400`}
	zero := "xxxxx...xx....x."
	var s string
	state := [2]int{} // 1: zero, 2: not a zero
	col := [2][]string{}
	for i := 0; i < n; i++ {
		s += `{"z":7`
		for k := 0; k < 2; k++ {
			v := 4
			if k == 0 || i == 0 {
				v = sym.Choose(len(lits))
			} else {
				v = []int{0, 4, 5, 12}[sym.Choose(4)]
			}
			if lits[v] != "" {
				s += `,"` + string([]byte{byte('a' + k)}) + `":` + lits[v]
				if zero[v] == 'x' {
					state[k] |= 1
				} else if v != 12 {
					state[k] |= 2
				}
				if v == 12 {
					state[k] |= 4 // such a column may or may not be skipped
				}
			}
			col[k] = append(col[k], vals[v])
		}
		s += "}\n"
	}
	j := newJob(s).csv()
	j.f.SkipZeroCols = true
	listed := sym.Bool()
	if listed {
		j.cfg.IncludeKeys = []string{".z", ".a"}
		state[0], state[1] = 2, 0
	}
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == n, "rows")
	cols := 1
	for k := 0; k < 2; k++ {
		name := "." + string([]byte{byte('a' + k)})
		has := t.col(name) >= 0
		sym.Assert(has == (state[k]&2 != 0) || state[k] == 5, "column "+name+" is skipped if and only if all values are zero")
		if has {
			cols++
			for i := 0; i < n; i++ {
				t.want(i, name, col[k][i], "value")
			}
		}
	}
	sym.Assert(len(t.head) == cols, "columns")
	for i := 0; i < n; i++ {
		t.want(i, ".z", "7", "z")
	}
}

// FieldLimit: fields within the limit are not changed, longer strings are cut.
func FieldLimit() {
	lim := 1 + sym.Choose(4)
	l := sym.Choose(7)
	v := word(l, alnum+",. ")
	full := lim // the end of the last character within the limit
	if sym.Bool() {
		// Characters of several bytes.
		chars := []string{"é", "日", "😀", string([]byte{sym.ByteIn(alnum)})}
		v = ""
		full = 0
		for i := 0; i < 3; i++ {
			v += chars[sym.Choose(len(chars))]
			if len(v) <= lim {
				full = len(v)
			}
		}
		l = len(v)
	}
	n := strings.Repeat("8", 1+sym.Choose(6))
	k := word(1, lower)
	j := newJob(`{"a":"` + v + `","n":` + n + `,"t":true,"o":{"` + k + `":"` + v + `"}}` + "\n" + `{"a":"z"}` + "\n").csv()
	j.f.FieldLimit = lim
	t := j.ok().table()
	t.rect()
	want := v
	if l > lim {
		want = v[:full]
	}
	t.want(0, ".a", want, "string")
	t.want(0, ".o."+k, want, "nested string")
	t.want(0, ".n", n, "number")
	t.want(0, ".t", "true", "boolean")
	t.want(1, ".a", "z", "short string")
	t.want(1, ".n", "", "absent")
}

// KeyLimit: names within the limit are not changed, longer ones are cut, and
// columns do not run into each other.
func KeyLimit() {
	lim := sym.Choose(sym.Param("max") + 1)
	keys := []string{"a", "abcdef" + word(1, "gh"), "abcdef", "abcdefgh", "abcdefgi", "x"}
	wide := sym.Bool()
	if wide {
		keys = []string{"é", "日本語" + word(1, "gh"), "日本語", "日本語日", "😀😀", "x"}
	}
	s, sep := "{", ""
	n := 2 + sym.Choose(len(keys)-1)
	for i, k := range keys[:n] {
		for p := 0; p < i; p++ {
			sym.Assume(k != keys[p])
		}
		s += sep + `"` + k + `":` + itoa(i+10)
		sep = ","
	}
	j := newJob(s + "}\n").csv()
	j.f.KeyLimit = lim
	how := 0
	if !wide {
		how = sym.Choose(3)
	}
	snake := how == 1
	j.f.ReplaceKeys = snake
	names := make([]string, n)
	for i, k := range keys[:n] {
		names[i] = "." + k
		if how == 2 {
			names[i] = "of_" + k
		}
	}
	if how == 2 { // names that an expression makes longer
		j.cfg.ReplaceKeysRegex = map[string]string{`^\.(.*)$`: "of_${1}"}
	}
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.head) == n, "a column is lost")
	sym.Assert(len(t.rows) == 1, "rows")
	for i, k := range keys[:n] {
		sym.Assert(t.rows[0][i] == itoa(i+10), "value of "+k)
		h := t.head[i]
		if lim == 0 || len(names[i]) <= lim || snake && len(k) <= lim {
			sym.Assert(h == names[i] || snake && h == k, "name within the limit")
			continue
		}
		sym.Assert(len(h) <= lim, "name above the limit")
		sym.Assert(utf8.ValidString(h), "a character of the name is cut")
		for p := 0; p < i; p++ {
			sym.Assert(t.head[p] != h, "two columns have the same name")
		}
	}
}
