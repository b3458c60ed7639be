package verifharness

import (
	"strings"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

// scalar makes a scalar: the JSON text and its text in a table.
func scalar(strLen int) (lit, val string) {
	switch sym.Choose(5) {
	case 0:
		lit, val = strLit(strLen)
		sym.Cover("string")
	case 1:
		d := string([]byte{sym.ByteIn("123456789")})
		c := string([]byte{sym.ByteIn(digits)})
		nums := []string{
			d + "7", "-" + d, "3." + c, "0.0" + c, d + "e3", "1E+0" + c, "2e-" + d, d + "00000000000000000", "-0", "0", "-0.0",
			"1" + strings.Repeat("0", 25) + "3", "9007199254740993", "0.10", "1.0",
		}
		lit = nums[sym.Choose(len(nums))]
		val = lit
		sym.Cover("number")
	case 2:
		lit, val = "true", "true"
	case 3:
		lit, val = "false", "false"
	case 4:
		lit, val = "null", ""
	}
	return lit, val
}

// ValueFidelity: the value of a leaf in the CSV is the JSON value: strings
// decoded, numbers verbatim, booleans as words, null as nothing.
func ValueFidelity() {
	lit, val := scalar(sym.Param("len"))
	// The other line makes the column hold values of other types as well.
	other := []string{`{"a":"x","b":1}`, `{"b":2}`, `{"a":7,"b":3}`, `{"a":true}`, `{"a":null}`, `{"a":1.5}`}[sym.Choose(6)]
	pre, post, key := `{"b":0,"a":`, `}`, ".a"
	switch sym.Choose(3) {
	case 1:
		pre, post, key = `{"b":0,"n":{"m":[0,`, `]}}`, ".n.m.[1]"
	case 2:
		pre, post, key = `{"b":0,"n":{"k":{},"m":`, `,"z":[]}}`, ".n.m"
	}
	j := newJob(pre + lit + post + "\n" + other + "\n").csv()
	if sym.Param("opts") > 0 {
		neutral(j)
	}
	t := j.ok().table()
	t.rect()
	t.want(0, key, val, "value")
	t.want(0, ".b", "0", "neighbour")
	sym.Assert(len(t.rows) == 2, "two lines are two rows")
	if key != ".a" {
		t.want(1, key, "", "absent value")
	}
}
