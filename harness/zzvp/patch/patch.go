// Package patch applies unified diffs.
package patch

import (
	"strconv"
	"strings"
)

// Apply is what a unified diff makes out of a text, with the names of both
// sides; ok says that it is a diff of the text.
func Apply(in, d string) (out, from, to string, ok bool) {
	l := strings.SplitAfter(d, "\n")
	if len(l) < 4 || l[len(l)-1] != "" || !strings.HasPrefix(l[0], "--- ") || !strings.HasPrefix(l[1], "+++ ") {
		return "", "", "", false
	}
	from, to = name(l[0]), name(l[1])
	l = l[2 : len(l)-1]
	text := strings.SplitAfter(in, "\n")
	if text[len(text)-1] == "" {
		text = text[:len(text)-1]
	}
	at := 0
	for len(l) > 0 {
		// @@ -a,b +c,d @@
		f := strings.Fields(l[0])
		if len(f) != 4 || f[0] != "@@" || f[3] != "@@" || f[1][0] != '-' || f[2][0] != '+' {
			return "", "", "", false
		}
		start, old, ok := span(f[1][1:])
		if !ok {
			return "", "", "", false
		}
		_, add, ok := span(f[2][1:])
		if !ok || start < at || start > len(text) {
			return "", "", "", false
		}
		out += strings.Join(text[at:start], "")
		at = start
		l = l[1:]
		for old > 0 || add > 0 {
			if len(l) == 0 {
				return "", "", "", false
			}
			line := l[0][1:]
			kind := l[0][0]
			l = l[1:]
			if len(l) > 0 && l[0][0] == '\\' {
				line = strings.TrimSuffix(line, "\n")
				l = l[1:]
			}
			if kind == ' ' || kind == '-' {
				if at >= len(text) || text[at] != line {
					return "", "", "", false
				}
				at++
				old--
			}
			if kind == ' ' || kind == '+' {
				out += line
				add--
			}
			if kind != ' ' && kind != '-' && kind != '+' {
				return "", "", "", false
			}
		}
	}
	return out + strings.Join(text[at:], ""), from, to, true
}

// name is the name in a line of the head, without the time.
func name(l string) string {
	l = strings.TrimSuffix(l[4:], "\n")
	if i := strings.LastIndexByte(l, '\t'); i >= 0 {
		l = l[:i]
	}
	return l
}

// span gives the lines before a range, and their number.
func span(s string) (int, int, bool) {
	n, err := 1, error(nil)
	if i := strings.IndexByte(s, ','); i >= 0 {
		if n, err = strconv.Atoi(s[i+1:]); err != nil {
			return 0, 0, false
		}
		s = s[:i]
	}
	start, err := strconv.Atoi(s)
	if err != nil {
		return 0, 0, false
	}
	if n > 0 {
		start--
	}
	return start, n, true
}
