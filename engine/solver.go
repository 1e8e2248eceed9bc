package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives an SMT-LIB2 solver process over a pipe.
type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	nvar    int
	defd    map[int32]bool
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	argv    []string
	timeout int
	log     io.Writer
}

func NewSolver(ctx *Ctx, argv []string, timeoutMS int) (*Solver, error) {
	s := &Solver{ctx: ctx, argv: argv, timeout: timeoutMS}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inC, s.in, s.out = in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.nvar = 0
	s.defd = map[int32]bool{}
	if strings.Contains(s.argv[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	}
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() error {
	s.Close()
	return s.start()
}

func bvConst(w uint8, k uint64) string {
	if w == 0 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func ref(e *Expr) string {
	switch e.op {
	case OpConst:
		return bvConst(e.w, e.k)
	case OpVar:
		return "v" + strconv.Itoa(e.v.id)
	}
	return "n" + strconv.Itoa(int(e.id))
}

func (s *Solver) declVars() {
	for ; s.nvar < len(s.ctx.vars); s.nvar++ {
		v := s.ctx.vars[s.nvar]
		if v.w == 0 {
			fmt.Fprintf(s.in, "(declare-const v%d Bool)\n", v.id)
			continue
		}
		fmt.Fprintf(s.in, "(declare-const v%d (_ BitVec %d))\n", v.id, v.w)
		if v.dom != nil {
			// membership as a union of ranges
			var parts []string
			for x := 0; x < 256; {
				if v.dom[x>>6]>>(uint(x)&63)&1 == 0 {
					x++
					continue
				}
				y := x
				for y+1 < 256 && v.dom[(y+1)>>6]>>(uint(y+1)&63)&1 == 1 {
					y++
				}
				if x == y {
					parts = append(parts, fmt.Sprintf("(= v%d (_ bv%d 8))", v.id, x))
				} else {
					parts = append(parts, fmt.Sprintf("(and (bvuge v%d (_ bv%d 8)) (bvule v%d (_ bv%d 8)))", v.id, x, v.id, y))
				}
				x = y + 1
			}
			fmt.Fprintf(s.in, "(assert (or %s false))\n", strings.Join(parts, " "))
			continue
		}
		if v.lo > 0 {
			fmt.Fprintf(s.in, "(assert (bvuge v%d %s))\n", v.id, bvConst(v.w, v.lo))
		}
		if v.hi < mask(v.w) {
			fmt.Fprintf(s.in, "(assert (bvule v%d %s))\n", v.id, bvConst(v.w, v.hi))
		}
	}
}

func (s *Solver) define(e *Expr) {
	if e.op == OpConst || e.op == OpVar || s.defd[e.id] {
		return
	}
	// iterative post-order
	type fr struct {
		e *Expr
		i int
	}
	st := []fr{{e, 0}}
	for len(st) > 0 {
		t := &st[len(st)-1]
		if t.i < len(t.e.args) {
			a := t.e.args[t.i]
			t.i++
			if a.op != OpConst && a.op != OpVar && !s.defd[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := t.e
		st = st[:len(st)-1]
		if s.defd[x.id] {
			continue
		}
		s.defd[x.id] = true
		sortS := "Bool"
		if x.w > 0 {
			sortS = fmt.Sprintf("(_ BitVec %d)", x.w)
		}
		w := s.in
		fmt.Fprintf(w, "(define-fun n%d () %s ", x.id, sortS)
		switch x.op {
		case OpExtract:
			fmt.Fprintf(w, "((_ extract %d %d) %s)", int(x.k)+int(x.w)-1, x.k, ref(x.args[0]))
		case OpZExt:
			fmt.Fprintf(w, "((_ zero_extend %d) %s)", x.w-x.args[0].w, ref(x.args[0]))
		case OpSExt:
			fmt.Fprintf(w, "((_ sign_extend %d) %s)", x.w-x.args[0].w, ref(x.args[0]))
		default:
			w.WriteByte('(')
			w.WriteString(opNames[x.op])
			for _, a := range x.args {
				w.WriteByte(' ')
				w.WriteString(ref(a))
			}
			w.WriteByte(')')
		}
		w.WriteString(")\n")
	}
}

type Result int

const (
	RUnsat Result = iota
	RSat
	RUnknown
)

// Check decides the conjunction of cs. On sat it returns values of the
// variables in their support.
func (s *Solver) Check(cs []*Expr) (Result, map[int]uint64, error) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.declVars()
	var supp []int
	for _, c := range cs {
		s.define(c)
		supp = mergeInts(supp, s.ctx.Support(c))
	}
	fmt.Fprint(s.in, "(push 1)\n")
	for _, c := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", ref(c))
	}
	fmt.Fprint(s.in, "(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return RUnknown, nil, err
	}
	line, err := s.readLine()
	if err != nil {
		return RUnknown, nil, err
	}
	res := RUnknown
	var vals map[int]uint64
	switch line {
	case "sat":
		res = RSat
		s.Sat++
		vals = map[int]uint64{}
		if len(supp) > 0 {
			fmt.Fprint(s.in, "(get-value (")
			for _, v := range supp {
				fmt.Fprintf(s.in, "v%d ", v)
			}
			fmt.Fprint(s.in, "))\n")
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil {
				return RUnknown, nil, err
			}
			if err := parseValues(txt, vals); err != nil {
				return RUnknown, nil, fmt.Errorf("%v in %q", err, txt)
			}
		}
	case "unsat":
		res = RUnsat
		s.Unsat++
	case "unknown", "timeout":
		s.Unknown++
	default:
		return RUnknown, nil, fmt.Errorf("solver said %q", line)
	}
	fmt.Fprint(s.in, "(pop 1)\n")
	return res, vals, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			return "", fmt.Errorf("solver: %s", l)
		}
		return l, nil
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseValues(txt string, vals map[int]uint64) error {
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		return fmt.Errorf("error")
	}
	// tokens: ((v0 #x00) (v1 true) (v2 (_ bv3 8)))
	txt = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt)
	f := strings.Fields(txt)
	for i := 0; i < len(f); i++ {
		if len(f[i]) < 2 || f[i][0] != 'v' {
			continue
		}
		id, err := strconv.Atoi(f[i][1:])
		if err != nil {
			continue
		}
		if i+1 >= len(f) {
			return fmt.Errorf("short")
		}
		t := f[i+1]
		switch {
		case t == "true":
			vals[id] = 1
		case t == "false":
			vals[id] = 0
		case strings.HasPrefix(t, "#x"):
			n, err := strconv.ParseUint(t[2:], 16, 64)
			if err != nil {
				return err
			}
			vals[id] = n
		case strings.HasPrefix(t, "#b"):
			n, err := strconv.ParseUint(t[2:], 2, 64)
			if err != nil {
				return err
			}
			vals[id] = n
		case t == "(" && i+4 < len(f) && f[i+2] == "_" && strings.HasPrefix(f[i+3], "bv"):
			n, err := strconv.ParseUint(f[i+3][2:], 10, 64)
			if err != nil {
				return err
			}
			vals[id] = n
		default:
			return fmt.Errorf("value %q", t)
		}
		i++
	}
	return nil
}
