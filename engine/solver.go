package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	MaxQuery                     time.Duration
}

type Solver struct {
	tc      *TC
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	gen     uint32
	stack   []*Term
	defined int
	ufs     map[string]bool
	vars    []*Term
	stats   SolverStats
	timeout int // ms
	bin     string
	err     error
}

var solverGen uint32

func NewSolver(tc *TC, bin string, timeoutMs int) *Solver {
	s := &Solver{tc: tc, bin: bin, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen++
	s.stack = nil
	s.defined = 0
	s.vars = nil
	s.ufs = map[string]bool{}
	s.cmd = exec.Command(s.bin, "-in", "-memory:3000")
	s.inPipe, _ = s.cmd.StdinPipe()
	op, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver: %v", err))
	}
	s.in = bufio.NewWriterSize(s.inPipe, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-logic QF_UFBV)\n", s.timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) emit(t *Term) {
	if t.op == OpConst || t.emGen == s.gen {
		return
	}
	t.emGen = s.gen
	for i := 0; i < int(t.n); i++ {
		s.emit(t.a[i])
	}
	s.defined++
	if t.op == OpVar {
		s.in.WriteString("(declare-const |" + t.name + "| " + sortName(t.w) + ")\n")
		s.vars = append(s.vars, t)
		return
	}
	if t.op == OpUF && !s.ufs[t.name] {
		s.ufs[t.name] = true
		s.in.WriteString("(declare-fun |" + t.name + "| (")
		for i := 0; i < int(t.n); i++ {
			s.in.WriteString(sortName(t.a[i].w) + " ")
		}
		s.in.WriteString(") " + sortName(t.w) + ")\n")
	}
	s.in.WriteString("(define-fun t" + strconv.Itoa(t.id) + " () " + sortName(t.w) + " ")
	s.in.WriteString(t.expr())
	s.in.WriteString(")\n")
}

func (s *Solver) sync(pc []*Term) {
	if s.defined > 400000 {
		s.restart()
	}
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if k < len(s.stack) {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-k)
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		s.emit(pc[k])
		s.in.WriteString("(push 1)\n(assert " + pc[k].ref() + ")\n")
		s.stack = append(s.stack, pc[k])
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// readSexp reads one balanced s-expression.
func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	bar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// Check decides pc ∧ extra. vars: variables whose values are wanted.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Res, Model) {
	t0 := time.Now()
	s.sync(pc)
	if extra != nil {
		s.emit(extra)
		s.in.WriteString("(push 1)\n(assert " + extra.ref() + ")\n")
	}
	for _, v := range vars {
		s.emit(v)
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	var l string
	var err error
	for {
		l, err = s.readLine()
		if err != nil || l != "" {
			break
		}
	}
	s.stats.Queries++
	res := Unknown
	var m Model
	if err != nil || strings.HasPrefix(l, "(error") {
		s.err = fmt.Errorf("solver: %v %s", err, l)
		s.stats.Unknown++
		s.restart()
		return Unknown, nil
	}
	switch l {
	case "sat":
		res = Sat
		s.stats.Sat++
		m = Model{}
		if len(vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vars {
				s.in.WriteString(v.ref() + " ")
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			sx, e := s.readSexp()
			if e != nil || strings.HasPrefix(strings.TrimSpace(sx), "(error") {
				s.err = fmt.Errorf("get-value: %v %s", e, sx)
				s.restart()
				return Unknown, nil
			}
			parseModel(sx, m)
		}
	case "unsat":
		res = Unsat
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	if extra != nil {
		s.in.WriteString("(pop 1)\n")
	}
	d := time.Since(t0)
	s.stats.Time += d
	if d > s.stats.MaxQuery {
		s.stats.MaxQuery = d
	}
	return res, m
}

func parseModel(sx string, m Model) {
	i := 0
	for {
		j := strings.IndexByte(sx[i:], '|')
		if j < 0 {
			return
		}
		i += j + 1
		k := strings.IndexByte(sx[i:], '|')
		name := sx[i : i+k]
		i += k + 1
		for sx[i] == ' ' || sx[i] == '\n' {
			i++
		}
		e := i
		if sx[e] == '(' { // (_ bvN w)
			for sx[e] != ')' {
				e++
			}
		} else {
			for sx[e] != ')' {
				e++
			}
		}
		v := strings.TrimSpace(sx[i:e])
		i = e
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			m[name], _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			m[name], _ = strconv.ParseUint(v[2:], 2, 64)
		case strings.HasPrefix(v, "(_ bv"):
			f := strings.Fields(v[5:])
			m[name], _ = strconv.ParseUint(f[0], 10, 64)
		default:
			panic("model value " + v)
		}
	}
}
