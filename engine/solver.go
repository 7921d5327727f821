package main

// A persistent SMT solver process driven over a pipe (QF_BV, incremental).

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     strings.Builder
	vars    []*Term // declared variables
	level   int
	queries int
	unk     int
	dur     time.Duration
	errs    []string
	sats    int
	unsats  int
	log     io.Writer
}

func solverCmd(kind string) (string, []string) {
	switch kind {
	case "z3old":
		return "z3", []string{"-in"}
	case "cvc5":
		return "cvc5", []string{"--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=20000"}
	}
	return "z3-new", []string{"-in"}
}

func NewSolver(kind string, timeoutMs int) (*Solver, error) {
	name, args := solverCmd(kind)
	s := &Solver{}
	s.cmd = exec.Command(name, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.buf.WriteString("(set-option :global-declarations true)\n")
	if kind == "cvc5" {
		s.buf.WriteString("(set-logic QF_BV)\n")
	} else {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", timeoutMs)
	}
	return s, nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) flush() {
	if s.buf.Len() == 0 {
		return
	}
	if s.log != nil {
		io.WriteString(s.log, s.buf.String())
	}
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		panic(engineError{"solver pipe: " + err.Error()})
	}
	s.buf.Reset()
}

func (s *Solver) Push() { s.buf.WriteString("(push 1)\n"); s.level++ }
func (s *Solver) Pop(n int) {
	if n > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", n)
		s.level -= n
	}
}
func (s *Solver) Assert(t *Term) {
	t.emit(&s.buf, &s.vars)
	s.buf.WriteString("(assert " + t.ref() + ")\n")
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(engineError{"solver died: " + err.Error() + " " + l})
	}
	return strings.TrimSpace(l)
}

// CheckWith decides satisfiability of the current stack plus extra (may be nil).
func (s *Solver) CheckWith(extra *Term) Result {
	t0 := time.Now()
	if extra != nil {
		extra.emit(&s.buf, &s.vars)
		s.buf.WriteString("(push 1)\n(assert " + extra.ref() + ")\n(check-sat)\n(pop 1)\n")
	} else {
		s.buf.WriteString("(check-sat)\n")
	}
	s.flush()
	r := s.read()
	s.queries++
	s.dur += time.Since(t0)
	switch r {
	case Sat:
		s.sats++
	case Unsat:
		s.unsats++
	default:
		s.unk++
	}
	return r
}

func (s *Solver) read() Result {
	for {
		l := s.readLine()
		switch {
		case l == "sat":
			return Sat
		case l == "unsat":
			return Unsat
		case l == "unknown" || l == "timeout":
			return Unknown
		case strings.HasPrefix(l, "(error"):
			s.errs = append(s.errs, l)
			panic(engineError{"solver: " + l})
		case l == "" || l == "success":
		default:
			panic(engineError{"solver output: " + l})
		}
	}
}

// Model returns values for all declared variables after asserting extra
// (nil for none); nil if not satisfiable.
func (s *Solver) Model(extra *Term) map[string]uint64 {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	if extra != nil {
		extra.emit(&s.buf, &s.vars)
		s.buf.WriteString("(push 1)\n(assert " + extra.ref() + ")\n(check-sat)\n")
	} else {
		s.buf.WriteString("(check-sat)\n")
	}
	s.flush()
	r := s.read()
	s.queries++
	m := map[string]uint64{}
	if r == Sat && len(s.vars) > 0 {
		s.buf.WriteString("(get-value (")
		for _, v := range s.vars {
			s.buf.WriteString(v.ref() + " ")
		}
		s.buf.WriteString("))\n")
		s.flush()
		s.parseModel(m)
	}
	if extra != nil {
		s.buf.WriteString("(pop 1)\n")
	}
	if r != Sat {
		if r == Unknown {
			s.unk++
		}
		return nil
	}
	return m
}

func (s *Solver) parseModel(m map[string]uint64) {
	depth := 0
	var sb strings.Builder
	for {
		l := s.readLine()
		if strings.HasPrefix(l, "(error") {
			panic(engineError{"solver: " + l})
		}
		inq := false
		for _, c := range l {
			if c == '|' {
				inq = !inq
			}
			if inq {
				continue
			}
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteString(l)
		sb.WriteByte(' ')
		if depth == 0 {
			break
		}
	}
	txt := sb.String()
	// entries: (|name| #xNN) or (|name| true)
	i := 0
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '|')
		if j < 0 {
			// unquoted simple symbols are printed without bars
			break
		}
		i += j + 1
		e := strings.IndexByte(txt[i:], '|')
		name := txt[i : i+e]
		i += e + 1
		for txt[i] == ' ' {
			i++
		}
		e = strings.IndexByte(txt[i:], ')')
		val := strings.TrimSpace(txt[i : i+e])
		i += e
		m[name] = parseVal(val)
	}
}

func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		x, _ := strconv.ParseUint(v[2:], 16, 64)
		return x
	case strings.HasPrefix(v, "#b"):
		x, _ := strconv.ParseUint(v[2:], 2, 64)
		return x
	case strings.HasPrefix(v, "(_ bv"):
		f := strings.Fields(v[5:])
		x, _ := strconv.ParseUint(f[0], 10, 64)
		return x
	}
	panic(engineError{"model value " + v})
}

// CheckModel decides stack+extra and returns a model when satisfiable.
func (s *Solver) CheckModel(extra *Term) (map[string]uint64, Result) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	extra.emit(&s.buf, &s.vars)
	s.buf.WriteString("(push 1)\n(assert " + extra.ref() + ")\n(check-sat)\n")
	s.flush()
	r := s.read()
	s.queries++
	var m map[string]uint64
	switch r {
	case Sat:
		s.sats++
		m = map[string]uint64{}
		if len(s.vars) > 0 {
			s.buf.WriteString("(get-value (")
			for _, v := range s.vars {
				s.buf.WriteString(v.ref() + " ")
			}
			s.buf.WriteString("))\n")
			s.flush()
			s.parseModel(m)
		}
	case Unsat:
		s.unsats++
	default:
		s.unk++
	}
	s.buf.WriteString("(pop 1)\n")
	return m, r
}
