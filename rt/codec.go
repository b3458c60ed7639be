package verifrt

import (
	sgzip "compress/gzip"
	"io"

	"github.com/klauspost/compress/zstd"
	"github.com/klauspost/pgzip"
)

// Codecs are modelled as framing: a header, blocks with their length, and an
// end. A stream that is not closed has no end, and reading it fails. Errors of
// writing show when the stream is closed at the latest, as codecs buffer.

type encoder struct {
	w       io.Writer
	magic   byte
	lazy    bool // no output without input
	started bool
	closed  bool
	err     error
}

type decoder struct {
	r     io.Reader
	magic byte
	open  bool // within a stream
	left  int  // bytes of the block
	err   error
}

var (
	encoders = map[any]*encoder{}
	decoders = map[any]*decoder{}
)

const (
	gzMagic  = 0x1f
	zstMagic = 0x28
)

func (e *encoder) put(b []byte) {
	if e.err != nil {
		return
	}
	n, err := e.w.Write(b)
	if err == nil && n != len(b) {
		err = io.ErrShortWrite
	}
	e.err = err
}

func (e *encoder) start() {
	if !e.started {
		e.started = true
		e.put([]byte{e.magic, 0x8b})
	}
}

func (e *encoder) write(b []byte) (int, error) {
	touchR(b)
	if e.closed {
		return 0, newErr("write to a closed encoder")
	}
	if len(b) == 0 {
		return 0, nil
	}
	e.start()
	for p := b; len(p) > 0; {
		k := len(p)
		if k > 65535 {
			k = 65535
		}
		e.put([]byte{1, byte(k >> 8), byte(k)})
		e.put(append([]byte{}, p[:k]...))
		p = p[k:]
	}
	return len(b), nil
}

func (e *encoder) close() error {
	if e.closed {
		return e.err
	}
	e.closed = true
	if e.started || !e.lazy {
		e.start()
		e.put([]byte{0})
	}
	return e.err
}

func (d *decoder) full(b []byte) error {
	_, err := io.ReadFull(d.r, b)
	return err
}

// begin reads a header.
func (d *decoder) begin() error {
	h := make([]byte, 2)
	if err := d.full(h); err != nil {
		return err
	}
	if h[0] != d.magic || h[1] != 0x8b {
		return newErr("invalid header")
	}
	d.open = true
	return nil
}

func (d *decoder) read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	for d.err == nil && d.left == 0 {
		if !d.open {
			d.err = d.begin() // io.EOF at the end
			continue
		}
		t := make([]byte, 1)
		if d.err = d.full(t); d.err == io.EOF {
			d.err = io.ErrUnexpectedEOF
		}
		if d.err != nil {
			break
		}
		switch t[0] {
		case 0:
			d.open = false
		case 1:
			l := make([]byte, 2)
			if d.err = d.full(l); d.err == io.EOF {
				d.err = io.ErrUnexpectedEOF
			}
			if d.err == nil {
				d.left = int(l[0])<<8 | int(l[1])
			}
		default:
			d.err = newErr("corrupt input")
		}
	}
	if d.err != nil {
		return 0, d.err
	}
	if len(b) > d.left {
		b = b[:d.left]
	}
	n, err := d.r.Read(b)
	d.left -= n
	if err == io.EOF {
		if d.left > 0 {
			d.err = io.ErrUnexpectedEOF
		}
		err = nil
		if n == 0 {
			err = io.ErrUnexpectedEOF
		}
	}
	if err != nil {
		d.err = err
	}
	return n, err
}

// pgzip

//gosym:replace github.com/klauspost/pgzip.NewWriter
func pgNewWriter(w io.Writer) *pgzip.Writer {
	h := new(pgzip.Writer)
	encoders[h] = &encoder{w: w, magic: gzMagic}
	return h
}

//gosym:replace github.com/klauspost/pgzip.NewWriterLevel
func pgNewWriterLevel(w io.Writer, level int) (*pgzip.Writer, error) { return pgNewWriter(w), nil }

//gosym:replace (*github.com/klauspost/pgzip.Writer).SetConcurrency
func pgSetConcurrency(h *pgzip.Writer, blockSize, blocks int) error { return nil }

//gosym:replace (*github.com/klauspost/pgzip.Writer).Write
func pgWrite(h *pgzip.Writer, b []byte) (int, error) { return encoders[h].write(b) }

//gosym:replace (*github.com/klauspost/pgzip.Writer).Flush
func pgFlush(h *pgzip.Writer) error { return nil }

//gosym:replace (*github.com/klauspost/pgzip.Writer).Close
func pgClose(h *pgzip.Writer) error { return encoders[h].close() }

//gosym:replace github.com/klauspost/pgzip.NewReader
func pgNewReader(r io.Reader) (*pgzip.Reader, error) {
	d := &decoder{r: r, magic: gzMagic}
	if err := d.begin(); err != nil {
		return nil, err
	}
	h := new(pgzip.Reader)
	decoders[h] = d
	return h, nil
}

//gosym:replace github.com/klauspost/pgzip.NewReaderN
func pgNewReaderN(r io.Reader, blockSize, blocks int) (*pgzip.Reader, error) { return pgNewReader(r) }

//gosym:replace (*github.com/klauspost/pgzip.Reader).Read
func pgRead(h *pgzip.Reader, b []byte) (int, error) { return decoders[h].read(b) }

//gosym:replace (*github.com/klauspost/pgzip.Reader).Close
func pgReaderClose(h *pgzip.Reader) error { return nil }

// compress/gzip

//gosym:replace compress/gzip.NewWriter
func gzNewWriter(w io.Writer) *sgzip.Writer {
	h := new(sgzip.Writer)
	encoders[h] = &encoder{w: w, magic: gzMagic}
	return h
}

//gosym:replace compress/gzip.NewWriterLevel
func gzNewWriterLevel(w io.Writer, level int) (*sgzip.Writer, error) { return gzNewWriter(w), nil }

//gosym:replace (*compress/gzip.Writer).Write
func gzWrite(h *sgzip.Writer, b []byte) (int, error) { return encoders[h].write(b) }

//gosym:replace (*compress/gzip.Writer).Flush
func gzFlush(h *sgzip.Writer) error { return nil }

//gosym:replace (*compress/gzip.Writer).Close
func gzClose(h *sgzip.Writer) error { return encoders[h].close() }

//gosym:replace compress/gzip.NewReader
func gzNewReader(r io.Reader) (*sgzip.Reader, error) {
	d := &decoder{r: r, magic: gzMagic}
	if err := d.begin(); err != nil {
		return nil, err
	}
	h := new(sgzip.Reader)
	decoders[h] = d
	return h, nil
}

//gosym:replace (*compress/gzip.Reader).Read
func gzRead(h *sgzip.Reader, b []byte) (int, error) { return decoders[h].read(b) }

//gosym:replace (*compress/gzip.Reader).Close
func gzReaderClose(h *sgzip.Reader) error { return nil }

// zstd

//gosym:replace github.com/klauspost/compress/zstd.NewWriter
func zstNewWriter(w io.Writer, opts ...zstd.EOption) (*zstd.Encoder, error) {
	h := new(zstd.Encoder)
	encoders[h] = &encoder{w: w, magic: zstMagic, lazy: true}
	return h, nil
}

//gosym:replace (*github.com/klauspost/compress/zstd.Encoder).Write
func zstWrite(h *zstd.Encoder, b []byte) (int, error) { return encoders[h].write(b) }

//gosym:replace (*github.com/klauspost/compress/zstd.Encoder).Flush
func zstFlush(h *zstd.Encoder) error { return nil }

//gosym:replace (*github.com/klauspost/compress/zstd.Encoder).Close
func zstClose(h *zstd.Encoder) error { return encoders[h].close() }

//gosym:replace github.com/klauspost/compress/zstd.NewReader
func zstNewReader(r io.Reader, opts ...zstd.DOption) (*zstd.Decoder, error) {
	h := new(zstd.Decoder)
	decoders[h] = &decoder{r: r, magic: zstMagic}
	return h, nil
}

//gosym:replace (*github.com/klauspost/compress/zstd.Decoder).Read
func zstRead(h *zstd.Decoder, b []byte) (int, error) { return decoders[h].read(b) }

//gosym:replace (*github.com/klauspost/compress/zstd.Decoder).Close
func zstDecoderClose(h *zstd.Decoder) {}
