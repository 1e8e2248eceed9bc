// Package txt has harnesses for failures and their printing.
package txt

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"text/scanner"

	"github.com/uber/prototool/internal/text"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func fail(p string) *text.Failure {
	return &text.Failure{
		Filename: vp.String(p+"file", "aA./", 0, 3),
		Line:     vp.Int(p+"line", 0, 1<<31-1),
		Column:   vp.Int(p+"col", 0, 1<<31-1),
		LintID:   vp.String(p+"id", "AB_", 0, 2),
		Message:  vp.String(p+"msg", "mM ", 0, 2),
	}
}

// cmp is the documented order.
func less(a, b *text.Failure) bool {
	if a.Filename != b.Filename {
		return a.Filename < b.Filename
	}
	if a.Line != b.Line {
		return a.Line < b.Line
	}
	if a.Column != b.Column {
		return a.Column < b.Column
	}
	if a.LintID != b.LintID {
		return a.LintID < b.LintID
	}
	return a.Message < b.Message
}

// Two failures with any lines and columns up to 2^31, file names of up to three bytes of "aA./" and rules and messages of up to two of three bytes.
//
//vp:harness T01 reach=end
func SortTwo() {
	a, b := fail("a"), fail("b")
	l := []*text.Failure{a, b}
	text.SortFailures(l)
	vp.Assert(len(l) == 2, "nothing is dropped")
	vp.Assert(l[0] == a && l[1] == b || l[0] == b && l[1] == a, "both failures stay")
	vp.Assert(!less(l[1], l[0]), "the result is in order")
	if !less(a, b) && !less(b, a) {
		vp.Assert(l[0] == a, "equal failures keep their order")
	}
	vp.Reach("end")
}

// Two files, columns, rules and messages, three lines; n failures in any order.
func sortN(n int) {
	var l, o []*text.Failure
	for i := 0; i < n; i++ {
		p := string([]byte{byte('a' + i)})
		f := &text.Failure{
			Filename: "f",
			Line:     vp.Int(p+"line", 1, 3),
			Column:   vp.Int(p+"col", 1, 2),
			LintID:   vp.String(p+"id", "AB", 1, 1),
			Message:  "m" + p,
		}
		l = append(l, f)
		o = append(o, f)
	}
	text.SortFailures(l)
	for i := 1; i < n; i++ {
		vp.Assert(!less(l[i], l[i-1]), "the result is in order")
	}
	for _, f := range o {
		c := 0
		for _, g := range l {
			if f == g {
				c++
			}
		}
		vp.Assert(c == 1, "every failure stays exactly once")
	}
	vp.Reach("end")
}

// Three failures of one file with three lines, two columns, two rules.
//
//vp:harness T01 reach=end
func SortThree() { sortN(3) }

// Four failures of one file with three lines, two columns, two rules.
//
//vp:harness T01 reach=end tier=thorough
func SortFour() { sortN(4) }

// Up to two failures and up to two nil entries in any places of three.
//
//vp:harness T01 reach=end
func SortNil() {
	var l []*text.Failure
	n := 0
	for i := 0; i < 3; i++ {
		p := string([]byte{byte('a' + i)})
		if vp.Choice(p+"nil", 2) == 1 {
			l = append(l, nil)
		} else {
			l = append(l, &text.Failure{Filename: vp.String(p+"file", "ab", 0, 1)})
			n++
		}
	}
	text.SortFailures(l)
	c := 0
	for i, f := range l {
		if f != nil {
			c++
			if i > 0 && l[i-1] != nil {
				vp.Assert(!less(f, l[i-1]), "the result is in order")
			}
		} else {
			vp.Assert(c == 0, "missing failures come first")
		}
	}
	vp.Assert(c == n, "every failure stays")
	vp.Reach("end")
}

var names = []string{"filename", "line", "column", "id", "message"}

func want(f *text.Failure, fields []int) string {
	r := ""
	for i, k := range fields {
		part := ""
		switch k {
		case 0:
			part = f.Filename
			if part == "" {
				part = "<input>"
			}
		case 1, 2:
			n := f.Line
			if k == 2 {
				n = f.Column
			}
			if n == 0 {
				n = 1
			}
			part = strconv.Itoa(n)
		case 3:
			part = f.LintID
		case 4:
			part = f.Message
		}
		if part == "" {
			continue
		}
		r += part
		if i != len(fields)-1 {
			r += ":"
		}
	}
	if r != "" {
		r += "\n"
	}
	return r
}

func wide(p string) *text.Failure {
	return &text.Failure{
		Filename: vp.String(p+"file", "a:.", 0, 2),
		Line:     vp.Int(p+"line", 0, 12),
		Column:   vp.Int(p+"col", 0, 12),
		LintID:   vp.String(p+"id", "A", 0, 1),
		Message:  vp.String(p+"msg", "m:", 0, 2),
	}
}

func printed(f *text.Failure, ks []int) {
	spec := ""
	for i, k := range ks {
		if i > 0 {
			spec += ":"
		}
		spec += names[k]
	}
	fields, err := text.ParseColonSeparatedFailureFields(spec)
	vp.Assert(err == nil, "known names are accepted")
	if len(ks) == 0 {
		ks = []int{0, 1, 2, 4}
	}
	b := bytes.NewBuffer(nil)
	vp.Assert(f.Fprintln(b, fields...) == nil, "printing succeeds")
	vp.Assert(b.String() == want(f, ks), "the line shows the requested fields")
	if len(spec) == 0 {
		b := bytes.NewBuffer(nil)
		vp.Assert(f.Fprintln(b) == nil, "printing succeeds")
		vp.Assert(b.String() == want(f, ks), "no fields mean the default fields")
	}
	vp.Observe("line", b.String())
	vp.Reach("end")
}

// No field, or one or two in any order; lines and columns up to 12, names and messages up to 2 bytes.
//
//vp:harness T02 reach=end shards=31
func Print() {
	k := vp.Shard(31)
	var ks []int
	if k > 0 && k < 6 {
		ks = []int{k - 1}
	} else if k >= 6 {
		ks = []int{(k - 6) / 5, (k - 6) % 5}
	}
	printed(wide(""), ks)
}

func narrow() *text.Failure {
	return &text.Failure{
		Filename: vp.String("file", "f", 0, 1),
		Line:     vp.Int("line", 0, 2),
		Column:   vp.Int("col", 0, 2),
		LintID:   vp.String("id", "A", 0, 1),
		Message:  vp.String("msg", "m", 0, 1),
	}
}

// Every list of three fields; lines and columns up to 2, names and messages up to 1 byte.
//
//vp:harness T02 reach=end shards=125
func PrintThree() {
	k := vp.Shard(125)
	printed(narrow(), []int{k / 25, k / 5 % 5, k % 5})
}

// Every list of four fields; lines and columns up to 2, names and messages up to 1 byte.
//
//vp:harness T02 reach=end shards=625 tier=thorough
func PrintFour() {
	k := vp.Shard(625)
	printed(narrow(), []int{k / 125, k / 25 % 5, k / 5 % 5, k % 5})
}

// The plain form of a failure: lines and columns up to 12, names and messages up to 2 bytes.
//
//vp:harness T02 reach=end
func Plain() {
	f := wide("")
	file := f.Filename
	if file == "" {
		file = "<input>"
	}
	w := want(f, []int{0, 1, 2, 0})
	w = w[:len(w)-1-len(file)]
	if f.LintID != "" {
		w += f.LintID + " "
	}
	vp.Assert(f.String() == w+f.Message, "the plain form shows position, rule and message")
	vp.Reach("end")
}

// Every field name in every mix of upper and lower case, as the first or second of two.
//
//vp:harness T02 reach=end shards=5
func ParseCase() {
	k := vp.Shard(5)
	b := []byte(names[k])
	for i := range b {
		if vp.Bool("up" + strconv.Itoa(i)) {
			b[i] -= 32
		}
	}
	s := string(b)
	second := vp.Choice("second", 2) == 1
	i := 0
	if second {
		s = "message:" + s
		i = 1
	} else {
		s += ":message"
	}
	f, err := text.ParseColonSeparatedFailureFields(s)
	vp.Assert(err == nil, "case does not matter")
	vp.Assert(len(f) == 2 && f[i] == text.FailureField(k) && f[1-i] == text.FailureFieldMessage, "the fields are those named")
	vp.Assert(f[i].String() == names[k], "fields print as their names")
	vp.Reach("end")
}

// Every string of up to 5 (thorough: 6) bytes of an alphabet that can spell id, line and several separators.
//
//vp:harness T02 reach=bad,good
func ParseAny() {
	max := 5
	if vp.Tier() == 1 {
		max = 6
	}
	s := vp.String("s", "idLNe: ", 1, max)
	ok := true
	n := 0
	for _, w := range strings.Split(s, ":") {
		l := strings.ToLower(w)
		ok = ok && (l == "id" || l == "line")
		n++
	}
	f, err := text.ParseColonSeparatedFailureFields(s)
	vp.Assert((err == nil) == ok, "exactly lists of known names are accepted")
	if err == nil {
		vp.Assert(len(f) == n, "one field for each name")
		vp.Reach("good")
	} else {
		vp.Reach("bad")
	}
}

// Any position and message of one byte; with and without arguments.
//
//vp:harness T02 reach=end
func Make() {
	p := scanner.Position{Filename: vp.String("file", "ab", 0, 1), Line: vp.Int("line", 0, 3), Column: vp.Int("col", 0, 3)}
	a := vp.String("arg", "xy%", 0, 1)
	f := text.NewFailuref(p, "ID", "got %q %s.", a, a)
	vp.Assert(f.Filename == p.Filename && f.Line == p.Line && f.Column == p.Column && f.LintID == "ID", "a failure has the position and rule given")
	vp.Assert(f.Message == fmt.Sprintf("got \"%s\" %s.", a, a), "a failure has the message given")
	vp.Reach("end")
}
