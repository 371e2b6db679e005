package zzvnd

import (
	"encoding/binary"
	"io"
	"os"
	"strconv"
	"time"
)

// The functions below replace reflection-heavy standard library functions
// under the symbolic engine (they are their documented contracts). They are
// never called natively.

func vUnsupported(s string)                                        { panic("native: " + s) }
func vComparable(v any) bool                                       { panic("native") }
func vAsAssign(err error, target any) bool                         { panic("native") }
func vEncode(big bool, v any) ([]byte, bool)                       { panic("native") }
func vSize(v any) int                                              { panic("native") }
func vDecode(big bool, b []byte, v any)                            { panic("native") }
func vDigits(u uint64, n int) []byte                               { panic("native") }
func vIsBig(o binary.ByteOrder) bool                               { panic("native") }
func vTypeName(v any) string                                       { panic("native") }
func vBasic(v any) (kind int, i int64, u uint64, s string, b bool) { panic("native") }

func BinaryWrite(w io.Writer, order binary.ByteOrder, data any) error {
	b, ok := vEncode(vIsBig(order), data)
	if !ok {
		return &strErr{"binary.Write: some values are not fixed-sized in type " + vTypeName(data)}
	}
	_, err := w.Write(b)
	return err
}

func BinaryRead(r io.Reader, order binary.ByteOrder, data any) error {
	n := vSize(data)
	if n < 0 {
		return &strErr{"binary.Read: invalid type " + vTypeName(data)}
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	vDecode(vIsBig(order), b, data)
	return nil
}

func BinarySize(v any) int { return vSize(v) }

type strErr struct{ s string }

func (e *strErr) Error() string { return e.s }

type wrapErr struct {
	s   string
	err error
}

func (e *wrapErr) Error() string { return e.s }
func (e *wrapErr) Unwrap() error { return e.err }

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return errIs(err, target, vComparable(target))
}

func errIs(err, target error, cmp bool) bool {
	for {
		if cmp && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errIs(e, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func ErrorsAs(err error, target any) bool {
	for err != nil {
		if vAsAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func FormatUint(u uint64, base int) string {
	if base != 10 {
		vUnsupported("FormatUint base")
	}
	n := 1
	lim := uint64(10)
	for n < 20 && u >= lim {
		n++
		lim *= 10
	}
	return string(vDigits(u, n))
}

func FormatInt(i int64, base int) string {
	if i < 0 {
		return "-" + FormatUint(uint64(-i), base)
	}
	return FormatUint(uint64(i), base)
}

func Itoa(i int) string { return FormatInt(int64(i), 10) }

func AppendInt(dst []byte, i int64, base int) []byte {
	return append(dst, FormatInt(i, base)...)
}

func AppendUint(dst []byte, i uint64, base int) []byte {
	return append(dst, FormatUint(i, base)...)
}

// ---- fmt ----

func fmtValue(verb byte, plus, sharp bool, v any) string {
	if v == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return "%!s(<nil>)"
			}
			return "<nil>"
		}
		return "%!" + string(rune(verb)) + "(<nil>)"
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if e, ok := v.(error); ok {
			s := e.Error()
			if verb == 'q' {
				return strconv.Quote(s)
			}
			return s
		}
		if e, ok := v.(interface{ String() string }); ok {
			s := e.String()
			if verb == 'q' {
				return strconv.Quote(s)
			}
			return s
		}
	}
	if b, ok := v.([]byte); ok {
		switch verb {
		case 's':
			return string(b)
		case 'x':
			return hexs(b)
		case 'q':
			return strconv.Quote(string(b))
		}
	}
	kind, i, u, s, b := vBasic(v)
	switch kind {
	case 1: // signed
		switch verb {
		case 'd', 'v':
			return strconv.FormatInt(i, 10)
		case 'x':
			return strconv.FormatInt(i, 16)
		case 'c':
			return string(rune(i))
		case 'q':
			return strconv.QuoteRune(rune(i))
		}
	case 2: // unsigned
		switch verb {
		case 'd', 'v':
			return strconv.FormatUint(u, 10)
		case 'x':
			return strconv.FormatUint(u, 16)
		case 'c':
			return string(rune(u))
		}
	case 3:
		switch verb {
		case 'v', 's':
			return s
		case 'q':
			return strconv.Quote(s)
		case 'x':
			return hexs([]byte(s))
		}
	case 4:
		if verb == 'v' || verb == 't' {
			if b {
				return "true"
			}
			return "false"
		}
	}
	return "?" // the text of other values is not modelled
}

func hexs(b []byte) string {
	const d = "0123456789abcdef"
	r := make([]byte, 0, 2*len(b))
	for _, c := range b {
		r = append(r, d[c>>4], d[c&15])
	}
	return string(r)
}

func Sprintf(format string, args ...any) string {
	var out []byte
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out = append(out, c)
			continue
		}
		i++
		if i >= len(format) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		plus, sharp, zero := false, false, false
		width := 0
	flags:
		for i < len(format) {
			switch format[i] {
			case '+':
				plus = true
			case '#':
				sharp = true
			case '0':
				zero = true
			case '-', ' ':
			default:
				break flags
			}
			i++
		}
		for i < len(format) && (format[i] >= '0' && format[i] <= '9') {
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			for i < len(format) && (format[i] >= '0' && format[i] <= '9') {
				i++
			}
		}
		v := format[i]
		if v == '%' {
			out = append(out, '%')
			continue
		}
		if n >= len(args) {
			out = append(out, "%!"+string(rune(v))+"(MISSING)"...)
			continue
		}
		if v == 'w' {
			v = 'v'
		}
		s := fmtValue(v, plus, sharp, args[n])
		for k := len(s); k < width; k++ {
			if zero {
				out = append(out, '0')
			} else {
				out = append(out, ' ')
			}
		}
		out = append(out, s...)
		n++
	}
	if n < len(args) {
		out = append(out, "%!(EXTRA)"...)
	}
	return string(out)
}

func Errorf(format string, args ...any) error {
	s := Sprintf(format, args...)
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			i++
			if format[i] == 'w' {
				if n < len(args) {
					if e, ok := args[n].(error); ok {
						return &wrapErr{s, e}
					}
				}
			}
			if format[i] != '%' {
				n++
			}
		}
	}
	return &strErr{s}
}

func Sprint(args ...any) string {
	var out []byte
	for i, a := range args {
		if i > 0 {
			_, s1 := a.(string)
			_, s2 := args[i-1].(string)
			if !s1 && !s2 {
				out = append(out, ' ')
			}
		}
		out = append(out, fmtValue('v', false, false, a)...)
	}
	return string(out)
}

func Sprintln(args ...any) string {
	var out []byte
	for i, a := range args {
		if i > 0 {
			out = append(out, ' ')
		}
		out = append(out, fmtValue('v', false, false, a)...)
	}
	return string(append(out, '\n'))
}

func Fprintf(w io.Writer, format string, args ...any) (int, error) {
	return w.Write([]byte(Sprintf(format, args...)))
}
func Fprint(w io.Writer, args ...any) (int, error)   { return w.Write([]byte(Sprint(args...))) }
func Fprintln(w io.Writer, args ...any) (int, error) { return w.Write([]byte(Sprintln(args...))) }
func Printf(format string, args ...any) (int, error) { return 0, nil }
func Println(args ...any) (int, error)               { return 0, nil }
func Print(args ...any) (int, error)                 { return 0, nil }

// Fatal models zap's Fatal: the process exits with status 1.
func Fatal() { os.Exit(1) }

func PanicLog(msg string) { panic(msg) }

// RuntimeError is the engine's representation of Go runtime panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

var _ error = RuntimeError("")

// TimeSub is time.Time.Sub for times without a monotonic reading, without the
// division by which the library detects overflow.
func TimeSub(t, u time.Time) time.Duration {
	ds := t.Unix() - u.Unix()
	dn := int64(t.Nanosecond() - u.Nanosecond())
	if dn < 0 {
		ds, dn = ds-1, dn+1000000000
	}
	if ds > 9223372036 || ds == 9223372036 && dn > 854775807 {
		return 1<<63 - 1
	}
	if ds < -9223372037 || ds == -9223372037 && dn < 145224192 {
		return -1 << 63
	}
	return time.Duration(ds*1000000000 + dn)
}
