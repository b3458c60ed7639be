package verifrt

import (
	"database/sql"
	"fmt"
	"io"
	"io/fs"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/bool64/progress"
	"github.com/cespare/xxhash/v2"
	sym "github.com/vearutop/flatjsonl/verifsym"
)

var _ fmt.Stringer

func mapRunes(s string, how byte) string {
	r := ""
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		s = s[n:]
		if how == 'l' {
			c = unicode.ToLower(c)
		} else {
			c = unicode.ToUpper(c)
		}
		r += string(c)
	}
	return r
}

//gosym:replace fmt.Fprintln
func fprintln(w io.Writer, args ...any) (int, error) {
	if f, ok := w.(*os.File); ok && files[f] == nil {
		return 0, nil
	}
	return w.Write([]byte(sprintln(args...)))
}

//gosym:replace fmt.Fprintf
func fprintf(w io.Writer, f string, args ...any) (int, error) {
	if fl, ok := w.(*os.File); ok && files[fl] == nil {
		return 0, nil
	}
	return w.Write([]byte(sprintf(f, args...)))
}

//gosym:replace fmt.Fprint
func fprint(w io.Writer, args ...any) (int, error) {
	if fl, ok := w.(*os.File); ok && files[fl] == nil {
		return 0, nil
	}
	return w.Write([]byte(sprint(args...)))
}

// ---- sync ----

var pools = map[*sync.Pool][]any{}

//gosym:replace (*sync.Pool).Get
func poolGet(p *sync.Pool) any {
	syncPoint(p)
	l := pools[p]
	if n := len(l); n > 0 {
		i := poolPick(n)
		x := l[i]
		r := make([]any, 0, n)
		r = append(r, l[:i]...)
		r = append(r, l[i+1:]...)
		pools[p] = r
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//gosym:replace (*sync.Pool).Put
func poolPut(p *sync.Pool, x any) {
	syncPoint(p)
	if x == nil {
		return
	}
	pools[p] = append(pools[p][:len(pools[p]):len(pools[p])], x)
}

var smaps = map[*sync.Map]map[any]any{}

func smap(m *sync.Map) map[any]any {
	syncPoint(m)
	r := smaps[m]
	if r == nil {
		r = map[any]any{}
		smaps[m] = r
	}
	return r
}

//gosym:replace (*sync.Map).Load
func smLoad(m *sync.Map, k any) (any, bool) {
	v, ok := smap(m)[k]
	return v, ok
}

//gosym:replace (*sync.Map).Store
func smStore(m *sync.Map, k, v any) { smap(m)[k] = v }

//gosym:replace (*sync.Map).LoadOrStore
func smLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	x := smap(m)
	if o, ok := x[k]; ok {
		return o, true
	}
	x[k] = v
	return v, false
}

//gosym:replace (*sync.Map).LoadAndDelete
func smLoadAndDelete(m *sync.Map, k any) (any, bool) {
	x := smap(m)
	v, ok := x[k]
	delete(x, k)
	return v, ok
}

//gosym:replace (*sync.Map).Delete
func smDelete(m *sync.Map, k any) { delete(smap(m), k) }

//gosym:replace (*sync.Map).Swap
func smSwap(m *sync.Map, k, v any) (any, bool) {
	x := smap(m)
	o, ok := x[k]
	x[k] = v
	return o, ok
}

//gosym:replace (*sync.Map).CompareAndSwap
func smCAS(m *sync.Map, k, o, n any) bool {
	x := smap(m)
	if v, ok := x[k]; ok && v == o {
		x[k] = n
		return true
	}
	return false
}

//gosym:replace (*sync.Map).CompareAndDelete
func smCAD(m *sync.Map, k, o any) bool {
	x := smap(m)
	if v, ok := x[k]; ok && v == o {
		delete(x, k)
		return true
	}
	return false
}

//gosym:replace (*sync.Map).Range
func smRange(m *sync.Map, f func(k, v any) bool) {
	x := smap(m)
	var ks []any
	for k := range x {
		ks = append(ks, k)
	}
	for _, k := range ks {
		syncPoint(m)
		v, ok := x[k]
		if ok && !f(k, v) {
			return
		}
	}
}

//gosym:replace (*sync.Map).Clear
func smClear(m *sync.Map) { clear(smap(m)) }

var avals = map[*atomic.Value]any{}

//gosym:replace (*sync/atomic.Value).Load
func avLoad(v *atomic.Value) any { syncPoint(v); return avals[v] }

//gosym:replace (*sync/atomic.Value).Store
func avStore(v *atomic.Value, x any) { syncPoint(v); avals[v] = x }

//gosym:replace (*sync/atomic.Value).Swap
func avSwap(v *atomic.Value, x any) any {
	syncPoint(v)
	o := avals[v]
	avals[v] = x
	return o
}

//gosym:replace (*sync/atomic.Value).CompareAndSwap
func avCAS(v *atomic.Value, o, n any) bool {
	syncPoint(v)
	if avals[v] != o {
		return false
	}
	avals[v] = n
	return true
}

// ---- xxhash: an injective function of the content ----

var (
	interned  []string
	hashState = map[*xxhash.Digest]string{}
)

func intern(s string) uint64 {
	for i, t := range interned {
		if s == t {
			return uint64(i+1)*0x9E3779B97F4A7C15 | 1
		}
	}
	interned = append(interned, s)
	return uint64(len(interned))*0x9E3779B97F4A7C15 | 1
}

//gosym:replace github.com/cespare/xxhash/v2.New
func xxNew() *xxhash.Digest { return new(xxhash.Digest) }

//gosym:replace (*github.com/cespare/xxhash/v2.Digest).Reset
func xxReset(d *xxhash.Digest) {
	touchW(d)
	hashState[d] = ""
}

//gosym:replace (*github.com/cespare/xxhash/v2.Digest).Write
func xxWrite(d *xxhash.Digest, b []byte) (int, error) {
	touchW(d)
	touchR(b)
	hashState[d] += string(b)
	return len(b), nil
}

//gosym:replace (*github.com/cespare/xxhash/v2.Digest).WriteString
func xxWriteString(d *xxhash.Digest, b string) (int, error) {
	touchW(d)
	hashState[d] += b
	return len(b), nil
}

//gosym:replace (*github.com/cespare/xxhash/v2.Digest).Sum64
func xxSum64(d *xxhash.Digest) uint64 {
	touchR(d)
	return intern(hashState[d])
}

//gosym:replace github.com/cespare/xxhash/v2.Sum64
func xxSum(b []byte) uint64 {
	touchR(b)
	return intern(string(b))
}

//gosym:replace github.com/cespare/xxhash/v2.Sum64String
func xxSumS(b string) uint64 { return intern(b) }

// ---- time ----

//gosym:replace time.Now
func timeNow() time.Time { return time.Unix(1700000000, clock()).UTC() }

//gosym:replace time.Since
func timeSince(t time.Time) time.Duration { return timeNow().Sub(t) }

//gosym:replace time.Sleep
func timeSleep(d time.Duration) { sleep(int64(d)) }

// Timers are goroutines that sleep; the value is the generation of a timer, 0 when it is not active.
var (
	timers  = map[*time.Timer]*timerState{}
	tickers = map[*time.Ticker]*timerState{}
)

type timerState struct {
	gen    int
	active bool
	c      chan time.Time
	f      func()
}

func (s *timerState) start(d time.Duration) {
	s.gen++
	s.active = true
	gen := s.gen
	go func() {
		sleep(int64(d))
		if s.gen != gen || !s.active {
			return
		}
		s.active = false
		if s.f != nil {
			s.f()
			return
		}
		select {
		case s.c <- timeNow():
		default:
		}
	}()
}

func (s *timerState) stop() bool {
	a := s.active
	s.active = false
	s.gen++
	if s.c != nil {
		select {
		case <-s.c:
			a = true
		default:
		}
	}
	return a
}

//gosym:replace time.NewTimer
func newTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	s := &timerState{c: c}
	timers[t] = s
	s.start(d)
	return t
}

//gosym:replace time.AfterFunc
func afterFunc(d time.Duration, f func()) *time.Timer {
	t := &time.Timer{}
	s := &timerState{f: f}
	timers[t] = s
	s.start(d)
	return t
}

//gosym:replace time.After
func timeAfter(d time.Duration) <-chan time.Time { return newTimer(d).C }

//gosym:replace (*time.Timer).Stop
func timerStop(t *time.Timer) bool { return timers[t].stop() }

//gosym:replace (*time.Timer).Reset
func timerReset(t *time.Timer, d time.Duration) bool {
	r := timers[t].stop()
	timers[t].start(d)
	return r
}

func (s *timerState) tick(d time.Duration) {
	s.gen++
	gen := s.gen
	go func() {
		for {
			sleep(int64(d))
			if s.gen != gen {
				return
			}
			select {
			case s.c <- timeNow():
			default:
			}
		}
	}()
}

//gosym:replace time.NewTicker
func newTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &time.Ticker{C: c}
	s := &timerState{c: c}
	tickers[t] = s
	s.tick(d)
	return t
}

//gosym:replace time.Tick
func timeTick(d time.Duration) <-chan time.Time { return newTicker(d).C }

//gosym:replace (*time.Ticker).Stop
func tickerStop(t *time.Ticker) { tickers[t].stop() }

//gosym:replace (*time.Ticker).Reset
func tickerReset(t *time.Ticker, d time.Duration) {
	tickers[t].stop()
	tickers[t].tick(d)
}

// ---- sync.Cond ----

var conds = map[*sync.Cond][]chan struct{}{}

//gosym:replace (*sync.Cond).Wait
func condWait(c *sync.Cond) {
	ch := make(chan struct{}, 1)
	conds[c] = append(conds[c][:len(conds[c]):len(conds[c])], ch)
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

//gosym:replace (*sync.Cond).Signal
func condSignal(c *sync.Cond) {
	syncPoint(c)
	if l := conds[c]; len(l) > 0 {
		conds[c] = l[1:]
		l[0] <- struct{}{}
	}
}

//gosym:replace (*sync.Cond).Broadcast
func condBroadcast(c *sync.Cond) {
	syncPoint(c)
	l := conds[c]
	conds[c] = nil
	for _, ch := range l {
		ch <- struct{}{}
	}
}

// ---- math ----

//gosym:replace math.archMax
func archMax(x, y float64) float64 {
	switch {
	case x > y:
		return x
	case y > x:
		return y
	case x != x:
		return x
	case y != y:
		return y
	case x == 0 && 1/x < 0:
		return y
	}
	return x
}

//gosym:replace math.archMin
func archMin(x, y float64) float64 {
	switch {
	case x < y:
		return x
	case y < x:
		return y
	case x != x:
		return x
	case y != y:
		return y
	case x == 0 && 1/x < 0:
		return x
	}
	return y
}

// ---- errors of os ----

func init() {
	os.ErrInvalid = fs.ErrInvalid
	os.ErrPermission = fs.ErrPermission
	os.ErrExist = fs.ErrExist
	os.ErrNotExist = fs.ErrNotExist
	os.ErrClosed = fs.ErrClosed
}

//gosym:replace os.IsNotExist
func osIsNotExist(err error) bool { return errorsIs(err, fs.ErrNotExist) }

//gosym:replace os.IsExist
func osIsExist(err error) bool { return errorsIs(err, fs.ErrExist) }

//gosym:replace os.IsPermission
func osIsPermission(err error) bool { return errorsIs(err, fs.ErrPermission) }

// The local time zone is UTC.
//
//gosym:replace time.initLocal
func initLocal() {}

//gosym:replace time.LoadLocation
func loadLocation(name string) (*time.Location, error) {
	switch name {
	case "", "UTC":
		return time.UTC, nil
	case "Etc/GMT-2":
		return time.FixedZone("+02", 7200), nil
	case "Etc/GMT+5":
		return time.FixedZone("-05", -18000), nil
	case "Bad/Zone":
		return nil, newErr("unknown time zone Bad/Zone")
	}
	unsupported("time zone " + name)
	return nil, nil
}

// ---- progress display ----

//gosym:replace (*github.com/bool64/progress.Progress).startPrinter
func startPrinter(p *progress.Progress, d time.Duration) {}

//gosym:replace (*github.com/bool64/progress.Progress).printStatus
func printStatus(p *progress.Progress, last bool) {}

// ---- files ----

type memFile struct {
	name   string
	data   []byte
	exists bool
	full   bool
}

type handle struct {
	f      *memFile
	pos    int
	closed bool
	write  bool
	app    bool
}

var (
	fsys  = map[string]*memFile{}
	files = map[*os.File]*handle{}
)

var heapInuse uint64

//gosym:replace github.com/vearutop/flatjsonl/verifsym.Heap
func setHeap(mb int) { heapInuse = uint64(mb) << 20 }

//gosym:replace runtime.ReadMemStats
func readMemStats(m *runtime.MemStats) {
	m.HeapInuse = heapInuse
	m.HeapAlloc = heapInuse
	m.Alloc = heapInuse
	m.HeapSys = heapInuse
	m.Sys = heapInuse
}

// diskLimit is the largest size of a file, or -1.
var diskLimit = -1

//gosym:replace github.com/vearutop/flatjsonl/verifsym.DiskLimit
func setDiskLimit(n int) { diskLimit = n }

func lookup(name string) *memFile {
	if !isConc(name) {
		unsupported("file name that is not concrete")
	}
	f := fsys[name]
	if f == nil {
		f = &memFile{name: name, full: name == "/dev/full"}
		fsys[name] = f
	}
	return f
}

func dirOK(name string) bool {
	// Only the scratch directory, /dev/full and the working directory exist.
	const t = "/tmp/v/"
	if name == "/dev/full" {
		return true
	}
	if len(name) > len(t) && name[:len(t)] == t {
		for i := len(t); i < len(name); i++ {
			if name[i] == '/' {
				return false
			}
		}
		return true
	}
	return false
}

func openH(f *memFile, write bool) *os.File {
	h := new(os.File)
	files[h] = &handle{f: f, write: write}
	return h
}

func pathErr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

//gosym:replace os.Create
func osCreate(name string) (*os.File, error) {
	f := lookup(name)
	if !dirOK(name) {
		return nil, pathErr("open", name, fs.ErrNotExist)
	}
	f.exists = true
	f.data = nil
	return openH(f, true), nil
}

//gosym:replace os.Open
func osOpen(name string) (*os.File, error) {
	f := lookup(name)
	if !f.exists {
		return nil, pathErr("open", name, fs.ErrNotExist)
	}
	return openH(f, false), nil
}

//gosym:replace os.OpenFile
func osOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	f := lookup(name)
	if !f.exists {
		if flag&os.O_CREATE == 0 || !dirOK(name) {
			return nil, pathErr("open", name, fs.ErrNotExist)
		}
		f.exists = true
	} else if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		return nil, pathErr("open", name, fs.ErrExist)
	}
	if flag&os.O_TRUNC != 0 {
		f.data = nil
	}
	h := openH(f, flag&(os.O_WRONLY|os.O_RDWR) != 0)
	files[h].app = flag&os.O_APPEND != 0
	return h, nil
}

//gosym:replace os.ReadFile
func osReadFile(name string) ([]byte, error) {
	f := lookup(name)
	if !f.exists {
		return nil, pathErr("open", name, fs.ErrNotExist)
	}
	return append([]byte{}, f.data...), nil
}

//gosym:replace os.WriteFile
func osWriteFile(name string, data []byte, perm os.FileMode) error {
	f := lookup(name)
	if !dirOK(name) {
		return pathErr("open", name, fs.ErrNotExist)
	}
	f.exists = true
	f.data = append([]byte{}, data...)
	return nil
}

//gosym:replace os.Remove
func osRemove(name string) error {
	f := lookup(name)
	if !f.exists {
		return pathErr("remove", name, fs.ErrNotExist)
	}
	f.exists = false
	f.data = nil
	return nil
}

type memInfo struct{ f *memFile }

func (i memInfo) Name() string       { return i.f.name }
func (i memInfo) Size() int64        { return int64(len(i.f.data)) }
func (i memInfo) Mode() os.FileMode  { return 0o644 }
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return false }
func (i memInfo) Sys() any           { return nil }

//gosym:replace os.Stat
func osStat(name string) (os.FileInfo, error) {
	f := lookup(name)
	if !f.exists {
		return nil, pathErr("stat", name, fs.ErrNotExist)
	}
	return memInfo{f}, nil
}

//gosym:replace (*os.File).Stat
func fileStat(h *os.File) (os.FileInfo, error) {
	x := files[h]
	if x == nil {
		return nil, os.ErrInvalid
	}
	return memInfo{x.f}, nil
}

//gosym:replace (*os.File).Name
func fileName(h *os.File) string {
	x := files[h]
	if x == nil {
		return "/dev/stdout"
	}
	return x.f.name
}

//gosym:replace (*os.File).Read
func fileRead(h *os.File, b []byte) (int, error) {
	x := files[h]
	if x == nil {
		return 0, os.ErrInvalid
	}
	if x.closed {
		return 0, pathErr("read", x.f.name, os.ErrClosed)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if x.pos >= len(x.f.data) {
		return 0, io.EOF
	}
	n := copy(b, x.f.data[x.pos:])
	x.pos += n
	return n, nil
}

//gosym:replace (*os.File).Seek
func fileSeek(h *os.File, off int64, whence int) (int64, error) {
	x := files[h]
	switch whence {
	case 0:
		x.pos = int(off)
	case 1:
		x.pos += int(off)
	case 2:
		x.pos = len(x.f.data) + int(off)
	}
	return int64(x.pos), nil
}

//gosym:replace (*os.File).Write
func fileWrite(h *os.File, b []byte) (int, error) {
	touchR(b)
	x := files[h]
	if x == nil {
		return len(b), nil
	}
	if x.closed {
		return 0, pathErr("write", x.f.name, os.ErrClosed)
	}
	if !x.write {
		return 0, pathErr("write", x.f.name, newErr("bad file descriptor"))
	}
	if x.f.full && len(b) > 0 {
		return 0, pathErr("write", x.f.name, newErr("no space left on device"))
	}
	if x.app {
		x.pos = len(x.f.data)
	}
	if diskLimit >= 0 && x.pos+len(b) > diskLimit {
		// The part that fits is written.
		if x.pos >= diskLimit {
			return 0, pathErr("write", x.f.name, newErr("file too large"))
		}
		n, _ := fileWrite(h, b[:diskLimit-x.pos])
		return n, pathErr("write", x.f.name, newErr("file too large"))
	}
	for x.pos > len(x.f.data) {
		x.f.data = append(x.f.data, 0)
	}
	n := copy(x.f.data[x.pos:], b)
	x.f.data = append(x.f.data, b[n:]...)
	x.pos += len(b)
	return len(b), nil
}

//gosym:replace (*os.File).WriteString
func fileWriteString(h *os.File, s string) (int, error) { return fileWrite(h, []byte(s)) }

//gosym:replace (*os.File).ReadFrom
func fileReadFrom(h *os.File, r io.Reader) (int64, error) {
	var n int64
	buf := make([]byte, 4096)
	for {
		k, err := r.Read(buf)
		if k > 0 {
			if _, werr := fileWrite(h, buf[:k]); werr != nil {
				return n, werr
			}
			n += int64(k)
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

//gosym:replace (*os.File).Sync
func fileSync(h *os.File) error { return nil }

//gosym:replace (*os.File).Close
func fileClose(h *os.File) error {
	if h == nil {
		return os.ErrInvalid
	}
	x := files[h]
	if x == nil {
		return nil
	}
	if x.closed {
		return pathErr("close", x.f.name, os.ErrClosed)
	}
	x.closed = true
	return nil
}

// ---- encoding/json ----

// Kinds reported by reflectVal.
const (
	kNil = iota
	kString
	kInt
	kUint
	kBool
	kFloat
	kStruct
	kMap
	kSlice
	kBytes
	kOther
	kMarshaler
)

func marshal(v any) (string, error) {
	if m, ok := v.(interface{ MarshalJSON() ([]byte, error) }); ok {
		b, err := m.MarshalJSON()
		return string(b), err
	}
	k, names, vals := reflectVal(v)
	switch k {
	case kNil:
		return "null", nil
	case kString:
		_, s, _ := basic(v)
		return quote(s), nil
	case kInt, kUint, kBool:
		return fmtVal(v, 'd', "", "%d", 0), nil
	case kFloat:
		return one(v), nil
	case kStruct:
		r := "{"
		for i, x := range vals {
			s, err := marshal(x)
			if err != nil {
				return "", err
			}
			if i > 0 {
				r += ","
			}
			r += quote(names[i]) + ":" + s
		}
		return r + "}", nil
	case kMap:
		idx := make([]int, len(names))
		for i := range idx {
			idx[i] = i
		}
		for i := 1; i < len(idx); i++ {
			for j := i; j > 0 && names[idx[j]] < names[idx[j-1]]; j-- {
				idx[j], idx[j-1] = idx[j-1], idx[j]
			}
		}
		r := "{"
		for n, i := range idx {
			s, err := marshal(vals[i])
			if err != nil {
				return "", err
			}
			if n > 0 {
				r += ","
			}
			r += quote(names[i]) + ":" + s
		}
		return r + "}", nil
	case kSlice:
		r := "["
		for i, x := range vals {
			s, err := marshal(x)
			if err != nil {
				return "", err
			}
			if i > 0 {
				r += ","
			}
			r += s
		}
		return r + "]", nil
	}
	unsupported("json of " + typeName(v))
	return "", nil
}

const hexd = "0123456789abcdef"

func quote(s string) string {
	r := []byte{'"'}
	for i := 0; i < len(s); {
		c := s[i]
		if c < 0x80 {
			switch {
			case c == '"' || c == '\\':
				r = append(r, '\\', c)
			case c == '\n':
				r = append(r, '\\', 'n')
			case c == '\r':
				r = append(r, '\\', 'r')
			case c == '\t':
				r = append(r, '\\', 't')
			case c < 0x20 || c == '<' || c == '>' || c == '&':
				r = append(r, '\\', 'u', '0', '0', hexd[c>>4], hexd[c&15])
			default:
				r = append(r, c)
			}
			i++
			continue
		}
		ru, n := utf8.DecodeRuneInString(s[i:])
		if ru == utf8.RuneError && n == 1 {
			r = append(r, `\ufffd`...)
		} else {
			r = append(r, s[i:i+n]...)
		}
		i += n
	}
	return string(append(r, '"'))
}

//gosym:replace encoding/json.Marshal
func jsonMarshal(v any) ([]byte, error) {
	s, err := marshal(v)
	return []byte(s), err
}

//gosym:replace encoding/json.MarshalIndent
func jsonMarshalIndent(v any, p, i string) ([]byte, error) { return jsonMarshal(v) }

//gosym:replace github.com/swaggest/assertjson.MarshalIndentCompact
func marshalIndentCompact(v any, p, i string, n int) ([]byte, error) { return jsonMarshal(v) }

// ---- SQLite through database/sql ----

type table struct {
	t   sym.Table
	pk  bool
	ids map[string]bool // values of the primary key
}

type database struct {
	tables []*table
	open   bool
}

type txState struct {
	db   *database
	undo []func()
	done bool
	size int
}

var (
	dbFiles = map[string]*database{}
	dbs     = map[*sql.DB]*database{}
	txs     = map[*sql.Tx]*txState{}
)

//gosym:replace database/sql.Open
func sqlOpen(driver, fn string) (*sql.DB, error) {
	if driver != "sqlite" {
		return nil, newErr("sql: unknown driver " + driver)
	}
	if !dirOK(fn) {
		unsupported("database outside of the scratch directory")
	}
	d := dbFiles[fn]
	if d == nil {
		d = &database{}
		dbFiles[fn] = d
	}
	d.open = true
	h := new(sql.DB)
	dbs[h] = d
	return h, nil
}

type result struct{}

func (result) LastInsertId() (int64, error) { return 0, nil }
func (result) RowsAffected() (int64, error) { return 0, nil }

//gosym:replace (*database/sql.DB).Exec
func dbExec(h *sql.DB, q string, args ...any) (sql.Result, error) {
	d := dbs[h]
	if !d.open {
		return nil, newErr("sql: database is closed")
	}
	return result{}, d.exec(q, args, nil)
}

//gosym:replace (*database/sql.DB).Begin
func dbBegin(h *sql.DB) (*sql.Tx, error) {
	d := dbs[h]
	if !d.open {
		return nil, newErr("sql: database is closed")
	}
	t := new(sql.Tx)
	txs[t] = &txState{db: d}
	return t, nil
}

//gosym:replace (*database/sql.DB).Close
func dbClose(h *sql.DB) error {
	d := dbs[h]
	for _, t := range txs {
		if t.db == d && !t.done {
			t.rollback()
		}
	}
	d.open = false
	return nil
}

//gosym:replace (*database/sql.Tx).Exec
func txExec(h *sql.Tx, q string, args ...any) (sql.Result, error) {
	t := txs[h]
	if t.done {
		return nil, sql.ErrTxDone
	}
	t.size += len(q)
	return result{}, t.db.exec(q, args, t)
}

//gosym:replace (*database/sql.Tx).Commit
func txCommit(h *sql.Tx) error {
	t := txs[h]
	if t.done {
		return sql.ErrTxDone
	}
	// Rows are written at once, after the two pages of a table without rows.
	if diskLimit >= 0 && 8192+t.size > diskLimit {
		t.rollback()
		return newErr("database or disk is full")
	}
	t.done = true
	return nil
}

//gosym:replace (*database/sql.Tx).Rollback
func txRollback(h *sql.Tx) error {
	t := txs[h]
	if t.done {
		return sql.ErrTxDone
	}
	t.rollback()
	return nil
}

func (t *txState) rollback() {
	for i := len(t.undo) - 1; i >= 0; i-- {
		t.undo[i]()
	}
	t.done = true
}

// A token of SQL text: kind 'w' word, 'q' quoted by ", 's' quoted by ', 'n' number, or a punctuation byte.
type tok struct {
	k byte
	s string
}

func hexDigit(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func isWord(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80 || c == '$'
}

func lex(q string) ([]tok, error) {
	var r []tok
	i := 0
	for i < len(q) {
		c := q[i]
		switch {
		case c == 0:
			return r, nil // SQLite reads up to the first NUL.
		case c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f':
			i++
		case c == '"' || c == '\'':
			k := byte('q')
			if c == '\'' {
				k = 's'
			}
			s := ""
			from := i + 1
			i++
			for {
				if i >= len(q) {
					return nil, newErr("SQL logic error: unrecognized token")
				}
				b := q[i]
				if b == 0 {
					return nil, newErr("SQL logic error: unrecognized token")
				}
				if b == c {
					if i+1 < len(q) && q[i+1] == c {
						s += q[from : i+1]
						i += 2
						from = i
						continue
					}
					break
				}
				i++
			}
			s += q[from:i]
			i++
			r = append(r, tok{k, s})
		case c == '(' || c == ')' || c == ',' || c == ';' || c == '=' || c == '?':
			r = append(r, tok{c, ""})
			i++
		case (c == 'x' || c == 'X') && i+1 < len(q) && q[i+1] == '\'':
			s := ""
			i += 2
			for ; ; i += 2 {
				if i >= len(q) {
					return nil, newErr("SQL logic error: unrecognized token")
				}
				if q[i] == '\'' {
					break
				}
				if i+1 >= len(q) || hexDigit(q[i]) < 0 || hexDigit(q[i+1]) < 0 {
					return nil, newErr("SQL logic error: unrecognized token")
				}
				s += string([]byte{byte(hexDigit(q[i])<<4 | hexDigit(q[i+1]))})
			}
			i++
			r = append(r, tok{'x', s})
		case isWord(c) || c == '-' && i+1 < len(q) && q[i+1] >= '0' && q[i+1] <= '9':
			j := i + 1
			for j < len(q) && (isWord(q[j]) || q[j] == '.') {
				j++
			}
			k := byte('w')
			if c >= '0' && c <= '9' || c == '-' {
				k = 'n'
			}
			r = append(r, tok{k, q[i:j]})
			i = j
		default:
			return nil, newErr("SQL logic error: unrecognized token")
		}
	}
	return r, nil
}

func word(ts []tok, i int, w string) bool {
	return i < len(ts) && ts[i].k == 'w' && toLower(ts[i].s) == w
}

func punct(ts []tok, i int, p byte) bool { return i < len(ts) && ts[i].k == p }

func ident(ts []tok, i int) bool {
	return i < len(ts) && (ts[i].k == 'w' || ts[i].k == 'q' || ts[i].k == 's')
}

var errSyntax = newErr("SQL logic error: syntax error")

func (d *database) table(name string) *table {
	n := toLower(name)
	for _, t := range d.tables {
		if toLower(t.t.Name) == n {
			return t
		}
	}
	return nil
}

func (d *database) exec(q string, args []any, tx *txState) error {
	if len(args) > 0 && false {
		unsupported("SQL arguments")
	}
	ts, err := lex(q)
	if err != nil {
		return err
	}
	for len(ts) > 0 && ts[len(ts)-1].k == ';' {
		ts = ts[:len(ts)-1]
	}
	if len(ts) == 0 {
		return nil
	}
	for _, t := range ts {
		if t.k == ';' {
			unsupported("several SQL statements")
		}
	}
	switch {
	case word(ts, 0, "pragma"):
		return nil
	case word(ts, 0, "create") && word(ts, 1, "table"):
		return d.create(ts, tx)
	case word(ts, 0, "insert") && word(ts, 1, "into"):
		return d.insert(ts, args, tx)
	case word(ts, 0, "create") || word(ts, 0, "insert") || word(ts, 0, "begin") || word(ts, 0, "commit") || word(ts, 0, "drop"):
		unsupported("SQL statement")
	}
	return errSyntax
}

func (d *database) create(ts []tok, tx *txState) error {
	i := 2
	ifne := false
	if word(ts, 2, "if") && word(ts, 3, "not") && word(ts, 4, "exists") {
		i = 5
		ifne = true
	}
	if !ident(ts, i) {
		return errSyntax
	}
	t := &table{t: sym.Table{Name: ts[i].s}}
	if d.table(t.t.Name) != nil {
		if ifne {
			return nil
		}
		return newErr("SQL logic error: table already exists")
	}
	i++
	if !punct(ts, i, '(') {
		return errSyntax
	}
	i++
	for {
		if !ident(ts, i) {
			return errSyntax
		}
		name := ts[i].s
		i++
		typ := ""
		for i < len(ts) && ts[i].k == 'w' {
			if typ != "" {
				typ += " "
			}
			typ += toLower(ts[i].s)
			i++
		}
		if len(typ) >= 11 && typ[len(typ)-11:] == "primary key" {
			if len(t.t.Cols) != 0 {
				unsupported("primary key other than the first column")
			}
			t.pk = true
			typ = typ[:len(typ)-11]
		}
		for len(typ) > 0 && typ[len(typ)-1] == ' ' {
			typ = typ[:len(typ)-1]
		}
		ln := toLower(name)
		for _, c := range t.t.Cols {
			if toLower(c) == ln {
				return newErr("SQL logic error: duplicate column name")
			}
		}
		t.t.Cols = append(t.t.Cols, name)
		t.t.Types = append(t.t.Types, typ)
		if punct(ts, i, ',') {
			i++
			continue
		}
		if punct(ts, i, ')') {
			i++
			break
		}
		return errSyntax
	}
	if i != len(ts) {
		return errSyntax
	}
	if len(t.t.Cols) > 2000 {
		return newErr("SQL logic error: too many columns")
	}
	old := d.tables
	d.tables = append(old[:len(old):len(old)], t)
	if tx != nil {
		tx.undo = append(tx.undo, func() { d.tables = old })
	}
	return nil
}

func (d *database) insert(ts []tok, args []any, tx *txState) error {
	i := 2
	if !ident(ts, i) {
		return errSyntax
	}
	t := d.table(ts[i].s)
	if t == nil {
		return newErr("SQL logic error: no such table: " + ts[i].s)
	}
	i++
	var order []int
	if punct(ts, i, '(') {
		i++
		for {
			if !ident(ts, i) {
				return errSyntax
			}
			n := toLower(ts[i].s)
			k := -1
			for j, c := range t.t.Cols {
				if toLower(c) == n {
					k = j
				}
			}
			if k < 0 {
				return newErr("SQL logic error: table has no column named " + ts[i].s)
			}
			order = append(order, k)
			i++
			if punct(ts, i, ',') {
				i++
				continue
			}
			if !punct(ts, i, ')') {
				return errSyntax
			}
			i++
			break
		}
	} else {
		for j := range t.t.Cols {
			order = append(order, j)
		}
	}
	if !word(ts, i, "values") {
		return errSyntax
	}
	i++
	ai := 0
	for {
		if !punct(ts, i, '(') {
			return errSyntax
		}
		i++
		var row []sym.Cell
		for {
			if i >= len(ts) {
				return errSyntax
			}
			x := ts[i]
			if word(ts, i, "cast") && i+5 < len(ts) && ts[i+1].k == '(' && word(ts, i+3, "as") && word(ts, i+4, "text") && ts[i+5].k == ')' {
				x = ts[i+2]
				i += 5
			} else if x.k == 'x' {
				unsupported("BLOB value")
			}
			switch {
			case x.k == 'w' && toLower(x.s) == "null":
				row = append(row, sym.Cell{Null: true})
			case x.k == 'w':
				return newErr("SQL logic error: no such column: " + x.s)
			case x.k == 'q' || x.k == 's' || x.k == 'n' || x.k == 'x':
				row = append(row, sym.Cell{S: x.s})
			case x.k == '?':
				if ai >= len(args) {
					return newErr("missing argument")
				}
				if args[ai] == nil {
					row = append(row, sym.Cell{Null: true})
				} else {
					row = append(row, sym.Cell{S: one(args[ai])})
				}
				ai++
			default:
				return errSyntax
			}
			i++
			if punct(ts, i, ',') {
				i++
				continue
			}
			if !punct(ts, i, ')') {
				return errSyntax
			}
			i++
			break
		}
		if len(row) != len(order) {
			return newErr("SQL logic error: table " + t.t.Name + " has " + strconv.Itoa(len(order)) + " columns but " + strconv.Itoa(len(row)) + " values were supplied")
		}
		full := make([]sym.Cell, len(t.t.Cols))
		for j := range full {
			full[j].Null = true
		}
		for j, k := range order {
			full[k] = affinity(row[j], t.t.Types[k])
		}
		if t.pk {
			if t.ids[full[0].S] {
				return newErr("constraint failed: UNIQUE constraint failed")
			}
			if t.ids == nil {
				t.ids = map[string]bool{}
			}
			t.ids[full[0].S] = true
		}
		old := len(t.t.Rows)
		t.t.Rows = append(t.t.Rows, full)
		if tx != nil {
			tx.undo = append(tx.undo, func() {
				delete(t.ids, full[0].S)
				t.t.Rows = t.t.Rows[:old]
			})
		}
		if punct(ts, i, ',') {
			i++
			continue
		}
		break
	}
	if i != len(ts) {
		return errSyntax
	}
	return nil
}

// affinity converts text that looks like a number in a numeric column.
func affinity(c sym.Cell, typ string) sym.Cell {
	has := func(x string) bool {
		for i := 0; i+len(x) <= len(typ); i++ {
			if typ[i:i+len(x)] == x {
				return true
			}
		}
		return false
	}
	switch { // the rules of SQLite for the affinity of a declared type
	case has("int"):
		typ = "integer"
	case typ == "" || has("char") || has("clob") || has("text") || has("blob"):
		return c
	case has("real") || has("floa") || has("doub"):
		typ = "real"
	default:
		typ = "numeric"
	}
	if c.Null {
		return c
	}
	v := c.S
	for len(v) > 0 && (v[0] == ' ' || v[0] >= 9 && v[0] <= 13) {
		v = v[1:]
	}
	for len(v) > 0 && (v[len(v)-1] == ' ' || v[len(v)-1] >= 9 && v[len(v)-1] <= 13) {
		v = v[:len(v)-1]
	}
	if len(v) == 0 {
		return c
	}
	for i := 0; i < len(v); i++ {
		if (v[i] < '0' || v[i] > '9') && v[i] != '.' && v[i] != '-' && v[i] != '+' && v[i] != 'e' && v[i] != 'E' {
			return c
		}
	}
	if typ != "real" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			return sym.Cell{S: strconv.FormatInt(n, 10)}
		}
	}
	f, err := strconv.ParseFloat(v, 64)
	if err != nil && f == 0 {
		return c
	}
	if f == 0 { // stored as an integer
		return sym.Cell{S: "0"}
	}
	if typ != "real" && f >= -9e15 && f <= 9e15 && f == float64(int64(f)) {
		return sym.Cell{S: strconv.FormatInt(int64(f), 10)}
	}
	return sym.Cell{S: strconv.FormatFloat(f, 'g', -1, 64)}
}

//gosym:replace github.com/vearutop/flatjsonl/verifsym.SQLite
func readSQLite(fn string) []sym.Table {
	d := dbFiles[fn]
	if d == nil {
		return nil
	}
	for _, t := range txs {
		if t.db == d && !t.done {
			t.rollback()
		}
	}
	var r []sym.Table
	for _, t := range d.tables {
		r = append(r, t.t)
	}
	return r
}
