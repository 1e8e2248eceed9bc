// Package models holds Go models of functions without an SSA body (assembly,
// reflection) that the engine substitutes for the originals.
package models

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"time"

	"github.com/uber/prototool/internal/zzvp/vp"
)

//vp:model internal/bytealg.IndexByte
func bytealgIndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

//vp:model internal/bytealg.IndexByteString
func bytealgIndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//vp:model internal/bytealg.Count
func bytealgCount(b []byte, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

//vp:model internal/bytealg.CountString
func bytealgCountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

//vp:model internal/bytealg.Equal
func bytealgEqual(a, b []byte) bool { return string(a) == string(b) }

//vp:model bytes.Equal
func bytesEqual(a, b []byte) bool { return string(a) == string(b) }

//vp:model internal/bytealg.Compare
func bytealgCompare(a, b []byte) int { return cmpString(string(a), string(b)) }

//vp:model internal/bytealg.CompareString
func bytealgCompareString(a, b string) int { return cmpString(a, b) }

//vp:model strings.Compare
func stringsCompare(a, b string) int { return cmpString(a, b) }

//vp:model bytes.Compare
func bytesCompare(a, b []byte) int { return cmpString(string(a), string(b)) }

//vp:model runtime.cmpstring
func cmpString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

//vp:model strings.Index
func stringsIndex(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

//vp:model internal/stringslite.Index
func stringsliteIndex(s, sub string) int { return stringsIndex(s, sub) }

//vp:model bytes.Index
func bytesIndex(s, sub []byte) int { return stringsIndex(string(s), string(sub)) }

//vp:model strings.LastIndex
func stringsLastIndex(s, sub string) int {
	n := len(sub)
	for i := len(s) - n; i >= 0; i-- {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

//vp:model strings.Count
func stringsCount(s, sub string) int {
	if len(sub) == 0 {
		n := 0
		for range s {
			n++
		}
		return n + 1
	}
	n := 0
	for i := 0; i+len(sub) <= len(s); {
		if s[i:i+len(sub)] == sub {
			n++
			i += len(sub)
		} else {
			i++
		}
	}
	return n
}

//vp:model strings.Clone
func stringsClone(s string) string { return s }

//vp:model internal/stringslite.Clone
func stringsliteClone(s string) string { return s }

//vp:model internal/bytealg.MakeNoZero
func makeNoZero(n int) []byte { return make([]byte, n) }

func mkSwap(x interface{}) func(i, j int) {
	return func(i, j int) { vp.SliceSwap(x, i, j) }
}

// ---- fmt ----

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

//vp:model fmt.Errorf
func fmtErrorf(format string, args ...interface{}) error {
	msg := fmtSprintf(format, args...)
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, a := range args {
				if e, ok := a.(error); ok {
					return &wrapError{msg, e}
				}
			}
		}
	}
	return errors.New(msg)
}

//vp:model fmt.Sprintf
func fmtSprintf(format string, args ...interface{}) string {
	out := ""
	n := 0
	start := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			i++
			continue
		}
		out += format[start:i]
		i++
		plus, minus, zero, sharp := false, false, false, false
		width, prec := -1, -1
		for i < len(format) {
			switch format[i] {
			case '+':
				plus = true
				i++
				continue
			case '-':
				minus = true
				i++
				continue
			case '0':
				zero = true
				i++
				continue
			case '#':
				sharp = true
				i++
				continue
			}
			break
		}
		if i < len(format) && format[i] == '*' {
			if n < len(args) {
				width = int(vp.AsInt(args[n]))
			}
			n++
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			if width < 0 {
				width = 0
			}
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			out += "%!(NOVERB)"
			start = i
			break
		}
		verb := format[i]
		i++
		start = i
		if verb == '%' {
			out += "%"
			continue
		}
		if n >= len(args) {
			out += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		if prec >= 0 || sharp {
			vp.Unsupported("fmt flags")
		}
		s := one(verb, plus, args[n])
		n++
		for width > 0 && len(s) < width {
			if minus {
				s += " "
			} else if zero && verb != 's' && verb != 'v' {
				s = "0" + s
			} else {
				s = " " + s
			}
		}
		out += s
	}
	out += format[start:]
	if n < len(args) {
		out += "%!(EXTRA "
		for k, a := range args[n:] {
			if k > 0 {
				out += ", "
			}
			if a == nil {
				out += "<nil>"
			} else {
				out += vp.TypeName(a) + "=" + one('v', false, a)
			}
		}
		out += ")"
	}
	return out
}

func one(verb byte, plus bool, a interface{}) string {
	switch verb {
	case 'T':
		if a == nil {
			return "<nil>"
		}
		return vp.TypeName(a)
	case 't':
		if vp.Kind(a) == 1 {
			return strconv.FormatBool(vp.AsBool(a))
		}
		return "%!t(" + vp.TypeName(a) + "=" + one('v', false, a) + ")"
	case 'd':
		k := vp.Kind(a)
		if k == 2 || k == 3 {
			return Itoa(int(vp.AsInt(a)))
		}
		if a == nil {
			return "%!d(<nil>)"
		}
		if k == 5 {
			return list(verb, plus, a)
		}
		return "%!d(" + vp.TypeName(a) + "=" + one('v', false, a) + ")"
	case 'c':
		return string(rune(vp.AsInt(a)))
	case 'x', 'X', 'o', 'b':
		if b, ok := a.([]byte); ok && verb == 'x' {
			h := make([]byte, 0, 2*len(b))
			for _, c := range b {
				h = append(h, "0123456789abcdef"[c>>4], "0123456789abcdef"[c&15])
			}
			return string(h)
		}
		vp.Unsupported("fmt verb")
	case 'v', 's', 'q', 'w':
		if verb == 'w' {
			verb = 'v'
		}
		if a == nil {
			if verb == 'v' {
				return "<nil>"
			}
			return "%!" + string(rune(verb)) + "(<nil>)"
		}
		if e, ok := a.(error); ok {
			return quoteIf(verb, e.Error())
		}
		if e, ok := a.(fmt.Stringer); ok {
			return quoteIf(verb, e.String())
		}
		if b, ok := a.([]byte); ok && verb != 'v' {
			return quoteIf(verb, string(b))
		}
		switch vp.Kind(a) {
		case 1:
			if verb == 'v' {
				return strconv.FormatBool(vp.AsBool(a))
			}
			return "%!" + string(rune(verb)) + "(" + vp.TypeName(a) + "=" + strconv.FormatBool(vp.AsBool(a)) + ")"
		case 2, 3:
			if verb == 'v' {
				return Itoa(int(vp.AsInt(a)))
			}
			if verb == 's' {
				return "%!s(" + vp.TypeName(a) + "=" + Itoa(int(vp.AsInt(a))) + ")"
			}
			return strconv.QuoteRune(rune(vp.AsInt(a)))
		case 4:
			return quoteIf(verb, vp.AsString(a))
		case 5:
			return list(verb, plus, a)
		case 8:
			return vp.FormatFloat(a, 'g')
		}
	case 'f', 'g', 'e':
		return vp.FormatFloat(a, verb)
	}
	if n := vp.TypeName(a); len(n) > 4 && n[:4] == "map[" {
		return "map[\x00...]" // never compared: no message with a map is part of a property
	}
	vp.Unsupported("fmt of " + vp.TypeName(a))
	return ""
}

func list(verb byte, plus bool, a interface{}) string {
	s := "["
	for i := 0; i < vp.SliceLen(a); i++ {
		if i > 0 {
			s += " "
		}
		s += one(verb, plus, vp.SliceElem(a, i))
	}
	return s + "]"
}

func quoteIf(verb byte, s string) string {
	if verb == 'q' {
		return strconv.Quote(s)
	}
	return s
}

// Itoa is strconv.Itoa by repeated division.
func Itoa(n int) string { return strconv.Itoa(n) }

//vp:model fmt.Sprint
func fmtSprint(args ...interface{}) string {
	out := ""
	prevString := false
	for i, a := range args {
		isString := a != nil && vp.Kind(a) == 4
		if i > 0 && !isString && !prevString {
			out += " "
		}
		out += one('v', false, a)
		prevString = isString
	}
	return out
}

//vp:model fmt.Sprintln
func fmtSprintln(args ...interface{}) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			out += " "
		}
		out += one('v', false, a)
	}
	return out + "\n"
}

//vp:model fmt.Fprintf
func fmtFprintf(w io.Writer, format string, args ...interface{}) (int, error) {
	return w.Write([]byte(fmtSprintf(format, args...)))
}

//vp:model fmt.Fprint
func fmtFprint(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(fmtSprint(args...)))
}

//vp:model fmt.Fprintln
func fmtFprintln(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(fmtSprintln(args...)))
}

// ---- errors ----

//vp:model errors.Is
func errorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return err == target
}

//vp:model os.runtime_args
func osRuntimeArgs() []string { return []string{"prototool"} }

//vp:model syscall.runtime_envs
func syscallRuntimeEnvs() []string { return nil }

//vp:model internal/syscall/unix.fcntl
func unixFcntl(fd int32, cmd int32, arg int32) (int32, int32) { return -1, 38 }

//vp:model time.runtimeNano
func timeRuntimeNano() int64 { return 1 }

// Time does not pass: no timer fires.
//
//vp:model time.After
func timeAfter(d time.Duration) <-chan time.Time { return make(chan time.Time) }
