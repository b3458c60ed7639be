// Package verifrt holds models of library functions that the symbolic
// executor substitutes for the originals (see the //gosym:replace lines).
package verifrt

import (
	"io"
	"log"
	"strconv"
)

// RuntimeError is the dynamic type of Go runtime panics in the executor.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

// The functions below are implemented by the executor.
func syncPoint(x any)                                             { panic("native") }
func touchR(x any)                                                { panic("native") }
func touchW(x any)                                                { panic("native") }
func isConc(s string) bool                                        { panic("native") }
func isConcInt(x int) bool                                        { panic("native") }
func unsupported(s string)                                        { panic("native") }
func exit(s string)                                               { panic("native") }
func sleep(d int64)                                               { panic("native") }
func clock() int64                                                { panic("native") }
func swap(s any, i, j int)                                        { panic("native") }
func sliceLen(s any) int                                          { panic("native") }
func typeName(x any) string                                       { panic("native") }
func basic(x any) (kind int, s string, n int64)                   { panic("native") }
func lowerASCII(s string) (string, bool)                          { panic("native") }
func upperASCII(s string) (string, bool)                          { panic("native") }
func reflectVal(x any) (int, []string, []any)                     { panic("native") }
func poolPick(n int) int                                          { panic("native") }
func natFmt(spec string, k int, s string, n int64) (string, bool) { panic("native") }
func storeAs(err error, target any) bool                          { panic("native") }
func fromBits(b int64) float64                                    { panic("native") }

type wrapped struct {
	msg  string
	errs []error
}

func (w *wrapped) Error() string   { return w.msg }
func (w *wrapped) Unwrap() []error { return w.errs }

type wrapped1 struct {
	msg string
	err error
}

func (w *wrapped1) Error() string { return w.msg }
func (w *wrapped1) Unwrap() error { return w.err }

type plainErr struct{ msg string }

func (e *plainErr) Error() string { return e.msg }

func newErr(s string) error { return &plainErr{s} }

func fmtVal(v any, verb byte, flags, spec string, depth int) string {
	if verb == 'T' {
		return typeName(v)
	}
	if v == nil {
		if verb != 'v' && verb != 's' {
			return "%!" + string(rune(verb)) + "(<nil>)"
		}
		return "<nil>"
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' || verb == 'x' {
		s, ok := "", false
		switch x := v.(type) {
		case error:
			s, ok = x.Error(), true
		case interface{ String() string }:
			s, ok = x.String(), true
		case []byte:
			if verb != 'v' {
				s, ok = string(x), true
			}
		}
		if ok {
			return fmtBasic('s', s, 0, verb, flags, spec)
		}
	}
	k, s, n := basic(v)
	if k != 0 {
		return fmtBasic(k, s, n, verb, flags, spec)
	}
	if flags == "" && (verb == 'v' || verb == 's' || verb == 'd' || verb == 'q') {
		k, names, vals := reflectVal(v)
		switch k {
		case kSlice:
			r := "["
			for i, e := range vals {
				if i > 0 {
					r += " "
				}
				r += fmtVal(e, verb, flags, spec, depth+1)
			}
			return r + "]"
		case kMap:
			r := "map["
			for i, j := range sortedIdx(names) {
				if i > 0 {
					r += " "
				}
				r += names[j] + ":" + fmtVal(vals[j], verb, flags, spec, depth+1)
			}
			return r + "]"
		case kBytes:
			if x, ok := v.([]byte); ok {
				r := "["
				for i, e := range x {
					if i > 0 {
						r += " "
					}
					r += strconv.Itoa(int(e))
				}
				return r + "]"
			}
		}
	}
	return "<" + typeName(v) + ">"
}

func sortedIdx(names []string) []int {
	r := make([]int, len(names))
	for i := range r {
		r[i] = i
	}
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && names[r[j]] < names[r[j-1]]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func fmtBasic(k int, s string, n int64, verb byte, flags, spec string) string {
	if verb == 'w' {
		verb = 'v'
		spec = "%" + flags + "v"
	}
	if r, ok := natFmt(spec, k, s, n); ok {
		return r
	}
	if flags != "" && flags != "+" || flags == "+" && verb == 'd' {
		unsupported("flags " + flags + " of a value that is not concrete")
	}
	switch {
	case k == 's' && (verb == 's' || verb == 'v'):
		return s
	case k == 's' && verb == 'q':
		return strconv.Quote(s)
	case k == 'i' && (verb == 'd' || verb == 'v'):
		return strconv.FormatInt(n, 10)
	case k == 'i' && verb == 'x':
		return strconv.FormatInt(n, 16)
	case k == 'u' && (verb == 'd' || verb == 'v'):
		return strconv.FormatUint(uint64(n), 10)
	case k == 'u' && verb == 'x':
		return strconv.FormatUint(uint64(n), 16)
	case (k == 'i' || k == 'u') && verb == 'c':
		return string(rune(n))
	case k == 'b':
		if n != 0 {
			return "true"
		}
		return "false"
	}
	unsupported("verb " + string(rune(verb)) + " of a value that is not concrete")
	return ""
}

func pad(s string, w int, left, zero bool) string {
	for len(s) < w {
		switch {
		case left:
			s += " "
		case zero && len(s) > 0 && (s[0] == '-' || s[0] == '+'):
			s = s[:1] + "0" + s[1:]
		case zero:
			s = "0" + s
		default:
			s = " " + s
		}
	}
	return s
}

func format(f string, args []any) (string, []error) {
	var errs []error
	if !isConc(f) {
		unsupported("format string that is not concrete")
	}
	r := ""
	ai := 0
	for i := 0; i < len(f); {
		j := i
		for j < len(f) && f[j] != '%' {
			j++
		}
		r += f[i:j]
		if j >= len(f) {
			break
		}
		j++
		left, zero := false, false
		flags := ""
		for j < len(f) && (f[j] == '+' || f[j] == '-' || f[j] == '#' || f[j] == '0' || f[j] == ' ') {
			switch f[j] {
			case '-':
				left = true
			case '0':
				zero = true
			default:
				flags += f[j : j+1]
			}
			j++
		}
		index := func() {
			if j < len(f) && f[j] == '[' {
				n := 0
				for j++; j < len(f) && f[j] != ']'; j++ {
					n = n*10 + int(f[j]-'0')
				}
				j++
				ai = n - 1
			}
		}
		num := func() int {
			index()
			if j < len(f) && f[j] == '*' {
				j++
				if ai >= len(args) {
					unsupported("missing width")
				}
				_, _, n := basic(args[ai])
				ai++
				return int(n)
			}
			n := 0
			for j < len(f) && f[j] >= '0' && f[j] <= '9' {
				n = n*10 + int(f[j]-'0')
				j++
			}
			return n
		}
		w := num()
		if w < 0 {
			w, left = -w, true
		}
		prec := -1
		if j < len(f) && f[j] == '.' {
			j++
			prec = num()
		}
		index()
		if j >= len(f) {
			r += "%!(NOVERB)"
			break
		}
		verb := f[j]
		j++
		i = j
		if verb == '%' {
			r += "%"
			continue
		}
		if ai >= len(args) {
			r += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			if e, ok := a.(error); ok {
				errs = append(errs, e)
			}
		}
		spec := "%" + flags
		if prec >= 0 {
			spec += "." + strconv.Itoa(prec)
		}
		spec += string(rune(verb))
		if k, _, n := basicF(a); k == 'f' {
			if x, ok := natFmt(spec, k, "", n); ok {
				r += pad(x, w, left, zero)
				continue
			}
			fm := verb
			if verb == 'v' {
				fm = 'g'
			}
			r += pad(strconv.FormatFloat(fromBits(n), fm, prec, 64), w, left, zero)
			continue
		}
		s := fmtVal(a, verb, flags, spec, 0)
		if verb == 's' && prec >= 0 && len(s) > prec {
			s = s[:prec]
		}
		r += pad(s, w, left, zero)
	}
	return r, errs
}

func basicF(a any) (int, string, int64) {
	switch a.(type) {
	case float64, float32:
		return basic(a)
	}
	return 0, "", 0
}

//gosym:replace fmt.Sprintf
func sprintf(f string, args ...any) string {
	s, _ := format(f, args)
	return s
}

//gosym:replace fmt.Errorf
func errorf(f string, args ...any) error {
	s, errs := format(f, args)
	switch len(errs) {
	case 0:
		return &plainErr{s}
	case 1:
		return &wrapped1{s, errs[0]}
	}
	return &wrapped{s, errs}
}

func one(a any) string {
	if k, _, n := basicF(a); k == 'f' {
		return strconv.FormatFloat(fromBits(n), 'g', -1, 64)
	}
	return fmtVal(a, 'v', "", "%v", 0)
}

//gosym:replace fmt.Sprint
func sprint(args ...any) string {
	r := ""
	for i, a := range args {
		_, s1 := a.(string)
		if i > 0 && !s1 {
			if _, s0 := args[i-1].(string); !s0 {
				r += " "
			}
		}
		r += one(a)
	}
	return r
}

//gosym:replace fmt.Sprintln
func sprintln(args ...any) string {
	r := ""
	for i, a := range args {
		if i > 0 {
			r += " "
		}
		r += one(a)
	}
	return r + "\n"
}

//gosym:replace fmt.Append
func fmtAppend(b []byte, args ...any) []byte { return append(b, sprint(args...)...) }

//gosym:replace fmt.Appendf
func fmtAppendf(b []byte, f string, args ...any) []byte { return append(b, sprintf(f, args...)...) }

//gosym:replace fmt.Println
func fmtPrintln(args ...any) (int, error) { return 0, nil }

//gosym:replace fmt.Printf
func fmtPrintf(f string, args ...any) (int, error) { return 0, nil }

//gosym:replace fmt.Print
func fmtPrint(args ...any) (int, error) { return 0, nil }

// ---- errors ----

//gosym:replace errors.Is
func errorsIs(err, target error) bool {
	for err != nil {
		if typeName(err) == typeName(target) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

//gosym:replace errors.As
func errorsAs(err error, target any) bool {
	for err != nil {
		if storeAs(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && errorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

//gosym:replace errors.Join
func errorsJoin(errs ...error) error {
	var es []error
	s := ""
	for _, e := range errs {
		if e != nil {
			if len(es) > 0 {
				s += "\n"
			}
			s += e.Error()
			es = append(es, e)
		}
	}
	if len(es) == 0 {
		return nil
	}
	return &wrapped{s, es}
}

// ---- log ----

//gosym:replace log.Fatalf
func logFatalf(f string, args ...any) { exit(sprintf(f, args...)) }

//gosym:replace log.Fatal
func logFatal(args ...any) { exit(sprint(args...)) }

//gosym:replace log.Fatalln
func logFatalln(args ...any) { exit(sprintln(args...)) }

//gosym:replace log.Println
func logPrintln(args ...any) {}

//gosym:replace log.Printf
func logPrintf(f string, args ...any) {}

//gosym:replace log.Print
func logPrint(args ...any) {}

//gosym:replace os.Exit
func osExit(code int) { exit("exit " + strconv.Itoa(code)) }

// ---- sort ----

//gosym:replace sort.Slice
func sortSlice(x any, less func(i, j int) bool) { sortSliceStable(x, less) }

//gosym:replace sort.SliceStable
func sortSliceStable(x any, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(x, j, j-1)
		}
	}
}

// ---- strings ----

//gosym:replace strings.ToLower
func toLower(s string) string {
	if r, ok := lowerASCII(s); ok {
		return r
	}
	return mapRunes(s, 'l')
}

//gosym:replace strings.ToUpper
func toUpper(s string) string {
	if r, ok := upperASCII(s); ok {
		return r
	}
	return mapRunes(s, 'u')
}

//gosym:replace log.SetFlags
func logSetFlags(flag int) {}

//gosym:replace log.SetPrefix
func logSetPrefix(p string) {}

//gosym:replace log.SetOutput
func logSetOutput(w io.Writer) {}

//gosym:replace log.New
func logNew(w io.Writer, p string, flag int) *log.Logger { return new(log.Logger) }

//gosym:replace log.Default
func logDefault() *log.Logger { return new(log.Logger) }

//gosym:replace (*log.Logger).Printf
func loggerPrintf(l *log.Logger, f string, args ...any) {}

//gosym:replace (*log.Logger).Println
func loggerPrintln(l *log.Logger, args ...any) {}

//gosym:replace (*log.Logger).Print
func loggerPrint(l *log.Logger, args ...any) {}

//gosym:replace (*log.Logger).Fatalf
func loggerFatalf(l *log.Logger, f string, args ...any) { exit(sprintf(f, args...)) }

//gosym:replace (*log.Logger).Fatal
func loggerFatal(l *log.Logger, args ...any) { exit(sprint(args...)) }

//gosym:replace (*log.Logger).Fatalln
func loggerFatalln(l *log.Logger, args ...any) { exit(sprintln(args...)) }

// The environment is empty.
//
//gosym:replace os.Getenv
func osGetenv(k string) string { return "" }

//gosym:replace os.LookupEnv
func osLookupEnv(k string) (string, bool) { return "", false }
