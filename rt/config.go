package verifrt

import (
	"errors"
	"strings"
)

// Models of the decoders of configuration: json.Unmarshal, and of the parts of
// yaml and json5 that are used for it. The targets and the tags of their fields are those
// of the types of the code.

// structFields returns the names by tag and pointers of the fields of what v points to.
func structFields(v any, tag string) (names []string, ptrs []any) { panic("native") }

// pointedKind is the kind of the variable that v points to: s string, p pointer to
// string, l list of strings, m map of strings, S struct, ? other.
func pointedKind(v any) string { panic("native") }

// poke stores x, of the same representation, in the variable that ptr points to.
func poke(ptr, x any) { panic("native") }

type cval struct {
	kind byte // s n b 0 l m
	s    string
	l    []*cval
	keys []string
}

type cparser struct {
	s     string
	i     int
	json5 bool
	yaml  bool // flow style
	err   error
}

func (p *cparser) fail(e string) *cval {
	if p.err == nil {
		p.err = errors.New(e)
	}
	return &cval{kind: '0'}
}

func (p *cparser) space() {
	for p.i < len(p.s) {
		c := p.s[p.i]
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			p.i++
			continue
		}
		if p.json5 && c == '/' && p.i+1 < len(p.s) && p.s[p.i+1] == '/' {
			for p.i < len(p.s) && p.s[p.i] != '\n' {
				p.i++
			}
			continue
		}
		if p.json5 && c == '/' && p.i+1 < len(p.s) && p.s[p.i+1] == '*' {
			p.i += 2
			for p.i+1 < len(p.s) && !(p.s[p.i] == '*' && p.s[p.i+1] == '/') {
				p.i++
			}
			p.i += 2
			continue
		}
		return
	}
}

func (p *cparser) peek() byte {
	p.space()
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func (p *cparser) str(q byte) string {
	p.i++
	var r []byte
	for {
		if p.i >= len(p.s) {
			p.fail("unexpected end of JSON input")
			return ""
		}
		c := p.s[p.i]
		p.i++
		switch {
		case c == q:
			return string(r)
		case c == '\\':
			if p.i >= len(p.s) {
				p.fail("unexpected end of JSON input")
				return ""
			}
			c = p.s[p.i]
			p.i++
			switch c {
			case '"', '\\', '/':
			case 'n':
				c = '\n'
			case 't':
				c = '\t'
			case 'r':
				c = '\r'
			default:
				if c == 'u' || c == 'b' || c == 'f' || p.json5 || p.yaml {
					unsupported("escape in a configuration")
				}
				p.fail("invalid character in string escape code")
				return ""
			}
			r = append(r, c)
		case c < ' ':
			if p.yaml || p.json5 {
				unsupported("control character in a configuration")
			}
			p.fail("invalid character in string literal")
			return ""
		case c >= 0x80:
			unsupported("other alphabets in a configuration")
		default:
			r = append(r, c)
		}
	}
}

func isIdent(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

func (p *cparser) value() *cval {
	c := p.peek()
	switch {
	case c == '{':
		p.i++
		v := &cval{kind: 'm'}
		if p.peek() == '}' {
			p.i++
			return v
		}
		for p.err == nil {
			k := ""
			c := p.peek()
			if c == '"' || (p.json5 || p.yaml) && c == '\'' {
				k = p.str(c)
			} else if p.json5 && isIdent(c) {
				for p.i < len(p.s) && isIdent(p.s[p.i]) {
					k += p.s[p.i : p.i+1]
					p.i++
				}
			} else {
				if p.yaml {
					unsupported("plain keys in a flow mapping")
				}
				return p.fail("invalid character looking for beginning of object key string")
			}
			if p.peek() != ':' {
				if p.yaml {
					unsupported("keys without values in a flow mapping")
				}
				return p.fail("invalid character after object key")
			}
			p.i++
			v.keys = append(v.keys, k)
			v.l = append(v.l, p.value())
			c = p.peek()
			if c == ',' {
				p.i++
				if (p.json5 || p.yaml) && p.peek() == '}' {
					p.i++
					return v
				}
				continue
			}
			if c == '}' {
				p.i++
				return v
			}
			return p.fail("invalid character after object key:value pair")
		}
		return v
	case c == '[':
		p.i++
		v := &cval{kind: 'l'}
		if p.peek() == ']' {
			p.i++
			return v
		}
		for p.err == nil {
			v.l = append(v.l, p.value())
			c = p.peek()
			if c == ',' {
				p.i++
				if (p.json5 || p.yaml) && p.peek() == ']' {
					p.i++
					return v
				}
				continue
			}
			if c == ']' {
				p.i++
				return v
			}
			return p.fail("invalid character after array element")
		}
		return v
	case c == '"':
		return &cval{kind: 's', s: p.str('"')}
	case c == '\'' && (p.json5 || p.yaml):
		return &cval{kind: 's', s: p.str('\'')}
	}
	for _, w := range []string{"null", "true", "false"} {
		if strings.HasPrefix(p.s[p.i:], w) {
			p.i += len(w)
			k := byte('b')
			if w == "null" {
				k = '0'
			}
			return &cval{kind: k, s: w}
		}
	}
	if p.yaml {
		unsupported("plain scalars in a flow style")
	}
	if c == '-' || c >= '0' && c <= '9' {
		n := ""
		for p.i < len(p.s) && (p.s[p.i] == '-' || p.s[p.i] == '.' || p.s[p.i] >= '0' && p.s[p.i] <= '9') {
			n += p.s[p.i : p.i+1]
			p.i++
		}
		if len(n) != 1 || n == "-" {
			unsupported("numbers in a configuration")
		}
		return &cval{kind: 'n', s: n}
	}
	if c == 0 {
		return p.fail("unexpected end of JSON input")
	}
	return p.fail("invalid character looking for beginning of value")
}

func parseConfig(b []byte, json5 bool) (*cval, error) {
	p := &cparser{s: string(b), json5: json5}
	v := p.value()
	if p.err == nil && p.peek() != 0 {
		p.fail("invalid character after top-level value")
	}
	return v, p.err
}

// decodeConfig stores the value; the first mismatch is returned at the end.
func decodeConfig(ptr any, v *cval, tag string) (err error) {
	mismatch := errors.New("cannot unmarshal a value into the type of the field")
	note := func(e error) {
		if err == nil {
			err = e
		}
	}
	scalar := func(x *cval) (string, bool) {
		if x.kind == 's' {
			return x.s, true
		}
		if tag == "yaml" && (x.kind == 'n' || x.kind == 'b') {
			return x.s, true
		}
		if x.kind != '0' {
			note(mismatch)
		}
		return "", x.kind == '0'
	}
	switch pointedKind(ptr) {
	case "S":
		if v.kind == '0' {
			return nil
		}
		if v.kind != 'm' {
			return mismatch
		}
		names, ptrs := structFields(ptr, tag)
		for i, k := range v.keys {
			at := -1
			for j, n := range names {
				if n == k {
					at = j
					break
				}
				if tag != "yaml" && at < 0 && strings.EqualFold(n, k) {
					at = j
				}
			}
			if at >= 0 {
				note(decodeConfig(ptrs[at], v.l[i], tag))
			}
		}
	case "s":
		if v.kind == '0' {
			return nil
		}
		if s, ok := scalar(v); ok {
			poke(ptr, s)
		}
	case "p":
		if v.kind == '0' {
			var x *string
			poke(ptr, x)
			return nil
		}
		if s, ok := scalar(v); ok {
			poke(ptr, &s)
		}
	case "l":
		if v.kind == '0' {
			var x []string
			poke(ptr, x)
			return nil
		}
		if v.kind != 'l' {
			if tag == "yaml" && v.kind != 'm' {
				unsupported("a scalar in the place of a list")
			}
			return mismatch
		}
		x := []string{}
		for _, e := range v.l {
			s, _ := scalar(e)
			x = append(x, s)
		}
		poke(ptr, x)
	case "m":
		if v.kind == '0' {
			var x map[string]string
			poke(ptr, x)
			return nil
		}
		if v.kind != 'm' {
			return mismatch
		}
		x := map[string]string{}
		for i, k := range v.keys {
			s, _ := scalar(v.l[i])
			x[k] = s
		}
		poke(ptr, x)
	default:
		unsupported("a type of a configuration")
	}
	return err
}

//gosym:replace encoding/json.Unmarshal
func jsonUnmarshal(b []byte, v any) error {
	x, err := parseConfig(b, false)
	if err != nil {
		return err
	}
	return decodeConfig(v, x, "json")
}

//gosym:replace github.com/swaggest/assertjson/json5.Unmarshal
func json5Unmarshal(b []byte, v any) error {
	x, err := parseConfig(b, true)
	if err != nil {
		return err
	}
	return decodeConfig(v, x, "json")
}

//gosym:replace gopkg.in/yaml.v3.Unmarshal
func yamlUnmarshal(b []byte, v any) error {
	s := string(b)
	p := &yparser{}
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimRight(l, " \r")
		if strings.HasPrefix(strings.TrimLeft(t, " "), "#") {
			continue
		}
		if t != "" {
			p.lines = append(p.lines, t)
		}
	}
	if len(p.lines) == 0 {
		return nil
	}
	if t := strings.TrimLeft(p.lines[0], " "); t[0] == '{' {
		// The flow style, without plain scalars.
		for i, l := range p.lines {
			if i > 0 && l[0] == '\t' {
				return errors.New("yaml: found character that cannot start any token")
			}
		}
		f := &cparser{s: strings.Join(p.lines, "\n"), yaml: true}
		x := f.value()
		if f.err != nil || f.peek() != 0 {
			return errors.New("yaml: did not find expected token")
		}
		return decodeConfig(v, x, "yaml")
	}
	x := p.block(0)
	if p.i < len(p.lines) {
		p.err = errors.New("yaml: did not find expected key")
	}
	if p.err != nil {
		return p.err
	}
	return decodeConfig(v, x, "yaml")
}

type yparser struct {
	lines []string
	i     int
	err   error
}

func indentOf(s string) int { return len(s) - len(strings.TrimLeft(s, " ")) }

// scalar is a plain or quoted scalar or a flow value.
func (p *yparser) scalar(s string) *cval {
	if s == "" || s == "~" || s == "null" {
		return &cval{kind: '0'}
	}
	if s[0] == '"' || s[0] == '\'' || s[0] == '[' || s[0] == '{' {
		f := &cparser{s: s, yaml: true}
		x := f.value()
		if f.err != nil || f.peek() != 0 {
			p.err = errors.New("yaml: did not find expected token")
		}
		return x
	}
	if s == "true" || s == "false" {
		return &cval{kind: 'b', s: s}
	}
	if strings.ContainsAny(s, "#&*!|>%@`\\\"'") || strings.Contains(s, ": ") {
		unsupported("a plain scalar of yaml")
	}
	return &cval{kind: 's', s: s}
}

// key splits a line at its key.
func (p *yparser) key(s string) (k, rest string, ok bool) {
	if s == "" {
		return "", "", false
	}
	if s[0] == '"' || s[0] == '\'' {
		f := &cparser{s: s, yaml: true}
		k = f.str(s[0])
		if f.err != nil || f.i >= len(s) || s[f.i] != ':' {
			return "", "", false
		}
		return k, strings.TrimLeft(s[f.i+1:], " "), true
	}
	if strings.HasSuffix(s, ":") && !strings.Contains(s, ": ") {
		return s[:len(s)-1], "", true
	}
	i := strings.Index(s, ": ")
	if i < 0 {
		return "", "", false
	}
	return s[:i], strings.TrimLeft(s[i+2:], " "), true
}

func (p *yparser) block(ind int) *cval {
	l := p.lines[p.i]
	t := strings.TrimLeft(l, " ")
	if strings.HasPrefix(t, "- ") {
		v := &cval{kind: 'l'}
		for p.i < len(p.lines) && indentOf(p.lines[p.i]) == ind && strings.HasPrefix(p.lines[p.i][ind:], "- ") {
			v.l = append(v.l, p.scalar(strings.TrimLeft(p.lines[p.i][ind+2:], " ")))
			p.i++
		}
		return v
	}
	if _, _, ok := p.key(t); !ok {
		p.i++
		return p.scalar(t)
	}
	v := &cval{kind: 'm'}
	for p.i < len(p.lines) && indentOf(p.lines[p.i]) == ind && p.err == nil {
		k, rest, ok := p.key(p.lines[p.i][ind:])
		if !ok {
			p.err = errors.New("yaml: could not find expected ':'")
			return v
		}
		p.i++
		v.keys = append(v.keys, k)
		if rest != "" {
			v.l = append(v.l, p.scalar(rest))
			continue
		}
		if p.i < len(p.lines) && (indentOf(p.lines[p.i]) > ind || indentOf(p.lines[p.i]) == ind && strings.HasPrefix(p.lines[p.i][ind:], "- ")) {
			v.l = append(v.l, p.block(indentOf(p.lines[p.i])))
			continue
		}
		v.l = append(v.l, &cval{kind: '0'})
	}
	return v
}
