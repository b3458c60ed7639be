package verifharness

import (
	"io"
	"time"

	sym "github.com/vearutop/flatjsonl/verifsym"
)

// slowReader gives a line at a time, with pauses that let the memory watcher
// have its turn, and changes the memory in use.
type slowReader struct {
	memReader
	heap []int
	line int
}

func (r *slowReader) Read(b []byte) (int, error) {
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	if r.line < len(r.heap) {
		sym.Heap(r.heap[r.line])
	}
	r.line++
	n := 0
	for n < len(b) && r.pos < len(r.data) {
		b[n] = r.data[r.pos]
		n++
		r.pos++
		if b[n-1] == '\n' {
			break
		}
	}
	time.Sleep(150 * time.Millisecond)
	return n, nil
}

// Memory: the limit of memory delays the lines, it never changes the output,
// and the run ends even when the memory in use remains above the limit.
func Memory() {
	n := sym.Param("lines")
	text, vals := "", []string{}
	r := &slowReader{}
	for i := 0; i < n; i++ {
		v := word(1, digits)
		vals = append(vals, v)
		text += `{"a":` + v + "}\n"
		r.heap = append(r.heap, []int{10, 200}[sym.Choose(2)])
	}
	r.data = text
	j := newJob().csv()
	j.extra = append(j.extra, r)
	j.f.MemLimit = []int{0, 100}[sym.Choose(2)]
	j.f.Concurrency = 1 + sym.Choose(2)
	if sym.Bool() {
		j.f.GetKey = ".a"
	}
	t := j.ok().table()
	t.rect()
	sym.Assert(len(t.rows) == n, "rows")
	for i, v := range vals {
		t.want(i, ".a", v, "value")
	}
	sym.Heap(0)
}
