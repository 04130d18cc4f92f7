package main

// One z3 process per worker, driven over a pipe.

import (
	"bufio"
	"fmt"
	"io"
	"net/url"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	declared map[*Term]bool
	vars     []*Term
	inPath   bool
	timeout  int // ms
	Queries  int
	Unknowns int
	Time     time.Duration
	Errors   []string
	bin      string
}

func NewSolver(bin string, timeoutMs int) (*Solver, error) {
	s := &Solver{timeout: timeoutMs, bin: bin}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-memory:3000")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeout)
	s.declared = map[*Term]bool{}
	s.inPath = false
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// Reset begins a new path.
func (s *Solver) Reset() {
	if s.inPath {
		s.in.WriteString("(pop 1)\n")
	}
	s.in.WriteString("(push 1)\n")
	s.inPath = true
	s.declared = map[*Term]bool{}
	s.vars = s.vars[:0]
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.declared[t] {
		return
	}
	s.declared[t] = true
	if t.op == OVar {
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", t.ref(), sortOf(t.w))
		s.vars = append(s.vars, t)
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), t.smt())
}

func (s *Solver) Assert(t *Term) {
	s.define(t)
	fmt.Fprintf(s.in, "(assert %s)\n", t.ref())
}

// Check asks whether the asserted constraints together with extra are
// satisfiable; on Sat it returns the values of all declared variables.
func (s *Solver) Check(extra *Term) (SatResult, map[string]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.define(extra)
	s.in.WriteString("(push 1)\n")
	fmt.Fprintf(s.in, "(assert %s)\n(check-sat)\n", extra.ref())
	if err := s.in.Flush(); err != nil {
		return s.fail(err.Error())
	}
	line, err := s.readLine()
	if err != nil {
		return s.fail(err.Error())
	}
	res := Unknown
	var model map[string]uint64
	switch line {
	case "sat":
		res = Sat
		model = map[string]uint64{}
		if len(s.vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range s.vars {
				s.in.WriteString(v.ref())
				s.in.WriteByte(' ')
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil {
				return s.fail(err.Error())
			}
			parseModel(txt, model)
		}
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		s.Unknowns++
	default:
		return s.fail(line)
	}
	s.in.WriteString("(pop 1)\n")
	return res, model
}

// fail: any error output makes the query inconclusive; the process is restarted.
func (s *Solver) fail(msg string) (SatResult, map[string]uint64) {
	s.Unknowns++
	if len(s.Errors) < 10 {
		s.Errors = append(s.Errors, msg)
	}
	s.Close()
	old := s.declared
	if err := s.start(); err == nil {
		_ = old
	}
	return Unknown, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		b, err := s.out.ReadByte()
		if err == io.EOF || err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if inBar {
			if b == '|' {
				inBar = false
			}
			continue
		}
		switch b {
		case '|':
			inBar = true
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseModel(txt string, m map[string]uint64) {
	// ((|a| #x00) (|b| true) (c #b1))
	i := 0
	n := len(txt)
	for i < n {
		if txt[i] != '|' {
			if txt[i] == '(' || txt[i] == ')' || txt[i] == ' ' || txt[i] == '\n' {
				i++
				continue
			}
			// unquoted symbol
			j := i
			for j < n && txt[j] != ' ' && txt[j] != ')' && txt[j] != '\n' {
				j++
			}
			name := txt[i:j]
			i = parseVal(txt, j, name, m)
			continue
		}
		j := strings.IndexByte(txt[i+1:], '|') + i + 1
		name, err := url.PathUnescape(txt[i+1 : j])
		if err != nil {
			name = txt[i+1 : j]
		}
		i = parseVal(txt, j+1, name, m)
	}
}

func parseVal(txt string, i int, name string, m map[string]uint64) int {
	for txt[i] == ' ' || txt[i] == '\n' {
		i++
	}
	j := i
	if txt[i] == '(' { // (_ bv5 8)
		j = strings.IndexByte(txt[i:], ')') + i + 1
		f := strings.Fields(strings.Trim(txt[i:j], "()"))
		if len(f) == 3 && strings.HasPrefix(f[1], "bv") {
			v, _ := strconv.ParseUint(f[1][2:], 10, 64)
			m[name] = v
		}
		return j
	}
	for txt[j] != ')' && txt[j] != ' ' && txt[j] != '\n' {
		j++
	}
	v := txt[i:j]
	switch {
	case v == "true":
		m[name] = 1
	case v == "false":
		m[name] = 0
	case strings.HasPrefix(v, "#x"):
		u, _ := strconv.ParseUint(v[2:], 16, 64)
		m[name] = u
	case strings.HasPrefix(v, "#b"):
		u, _ := strconv.ParseUint(v[2:], 2, 64)
		m[name] = u
	}
	return j
}
