package verifharness

import (
	"bytes"
	"io"
	"strings"

	"github.com/klauspost/compress/zstd"
	"github.com/klauspost/pgzip"
	sym "github.com/vearutop/flatjsonl/verifsym"
)

var codecs = []string{"", ".gz", ".zst"}

// pack compresses a text.
func pack(s, ext string) string {
	var b bytes.Buffer
	var w io.WriteCloser
	switch ext {
	case "":
		return s
	case ".gz":
		w = pgzip.NewWriter(&b)
	case ".zst":
		e, err := zstd.NewWriter(&b)
		sym.Assert(err == nil, "encoder")
		w = e
	}
	_, err := w.Write([]byte(s))
	sym.Assert(err == nil && w.Close() == nil, "compression")
	return b.String()
}

// unpack decompresses an output, ok tells if it is complete.
func unpack(s, ext string) (string, bool) {
	if ext == "" {
		return s, true
	}
	var r io.Reader
	if ext == ".gz" {
		g, err := pgzip.NewReader(strings.NewReader(s))
		if err != nil {
			return "", false
		}
		r = g
	} else {
		z, err := zstd.NewReader(strings.NewReader(s))
		if err != nil {
			return "", false
		}
		defer z.Close()
		r = z
	}
	b, err := io.ReadAll(r)
	return string(b), err == nil
}

// packedReader is an input that is compressed.
type packedReader struct {
	memReader
	codec string
}

func (r *packedReader) Compression() string { return r.codec }

// Compressed: compressed inputs are read, and outputs written, as the same content.
func Compressed() {
	n := 1 + sym.Choose(sym.Param("lines"))
	s := ""
	c := word(1, alnum)
	for i := 0; i < n; i++ {
		s += []string{
			`{"a":"` + c + `","o":{"x":` + itoa(i) + `}}`,
			``,
			`{"b":`,
			`{"o":{"y":"` + strings.Repeat(c, 20) + `"}}`,
		}[sym.Choose(4)] + "\n"
	}
	s += `{"a":1}`
	if sym.Bool() {
		s += "\n"
	}
	transposed := sym.Bool()
	out := sym.Choose(3)
	stem := []string{"o", "o.v1-x.y", ".o", "O_gz.gz"}[sym.Choose(4)]
	prepare := func(j *job, ext string) {
		switch out {
		case 0:
			j.f.CSV = tmp(stem + ".csv" + ext)
		case 1:
			j.f.Raw = tmp(stem + ".raw" + ext)
		case 2:
			j.pg()
			j.f.PGDump = tmp(stem + ".sql" + ext)
		}
		if transposed {
			j.cfg.Transpose = map[string]string{".o": "tr"}
		}
	}
	read := func(ext string) (main, sub string) {
		f := stem + []string{".csv", ".raw", ".sql"}[out]
		main, ok := unpack(readFile(tmp(f+ext)), ext)
		sym.Assert(ok, "the compressed output is not complete")
		if transposed && out != 2 {
			g := stem + "_tr" + []string{".csv", ".raw"}[out] + ext
			if !exists(tmp(g)) {
				g = f + "_tr" + ext
			}
			if exists(tmp(g)) {
				sub, ok = unpack(readFile(tmp(g)), ext)
				sym.Assert(ok, "the compressed output of a transposed key is not complete")
			}
		}
		return main, sub
	}
	j := newJob(s)
	prepare(j, "")
	j.ok()
	main, sub := read("")
	sym.Log(main)
	ext := codecs[sym.Choose(3)]
	inExt := codecs[sym.Choose(3)]
	j = newJob()
	prepare(j, ext)
	in := pack(s, inExt)
	if sym.Bool() { // a file can have several compressed parts
		in = pack(s[:len(s)/2], inExt) + pack(s[len(s)/2:], inExt)
	}
	if sym.Bool() {
		f := tmp("in.jsonl" + inExt)
		putFile(f, in)
		j.files = []string{f}
	} else {
		j.extra = append(j.extra, &packedReader{memReader{data: in, chunk: 1 + sym.Choose(2)*1000}, map[string]string{"": "", ".gz": "gzip", ".zst": "zst"}[inExt]})
	}
	j.ok()
	main2, sub2 := read(ext)
	sym.Assert(main2 == main, "the output differs when files are compressed")
	sym.Assert(sub2 == sub, "the output of a transposed key differs when files are compressed")
}

// CompressedFaults: compressed outputs that can not be written completely, and
// compressed inputs that are not complete, are reported.
func CompressedFaults() {
	lines := sym.Param("lines")
	s := ""
	for i := 0; i < lines; i++ {
		s += `{"a":"v` + itoa(i*7919%1000) + `","o":{"x":"` + itoa(i*104729%10007) + `"}}` + "\n"
	}
	ext := codecs[1+sym.Choose(2)]
	sym.AllowExit()
	part := sym.Choose(8)
	if sym.Bool() { // an incomplete input
		p := pack(s, ext)
		f := tmp("in.jsonl" + ext)
		putFile(f, p[:len(p)*(part+1)/8-1])
		j := newJob().csv()
		j.files = []string{f}
		if sym.Bool() {
			j.cfg.IncludeKeys = []string{".a"}
		}
		j.f.Concurrency = 1 + sym.Choose(2)
		j.run()
		sym.Assert(j.err != nil, "an input that is not complete is not reported")
		return
	}
	j := newJob(s)
	file := ""
	transposed := sym.Bool()
	if transposed {
		j.cfg.Transpose = map[string]string{".o": "tr"}
	}
	switch sym.Choose(3) {
	case 0:
		file = tmp("o.csv" + ext)
		j.f.CSV = file
	case 1:
		file = tmp("o.raw" + ext)
		j.f.Raw = file
	case 2:
		j.pg()
		file = tmp("o.sql" + ext)
		j.f.PGDump = file
	}
	j.ok()
	size := len(readFile(file))
	for _, r := range j.readers {
		r.Reset()
	}
	sym.DiskLimit(size * part / 8)
	j.run()
	sym.DiskLimit(-1)
	sym.Assert(j.err != nil, "the run succeeds with an incomplete output")
}
