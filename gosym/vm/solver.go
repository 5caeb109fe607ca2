package vm

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one incremental SMT process; the stack of asserted constraints is
// kept in step with the VM's path condition (one push level per constraint).
type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	asserted []*Expr
	declared map[string]int
	defs     map[*Expr]bool // shared subterms defined globally
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	name     string
	args     []string
	dead     bool
	timeout  int
}

func NewSolver(bin string, timeoutMs int) (*Solver, error) {
	s := &Solver{name: bin, timeout: timeoutMs}
	if strings.Contains(bin, "cvc5") {
		s.args = []string{"--incremental", "--produce-models", "--lang=smt2"}
	} else {
		s.args = []string{"-in", "-smt2"}
	}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.name, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.declared = map[string]int{}
	s.defs = map[*Expr]bool{}
	s.asserted = nil
	s.dead = false
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if !strings.Contains(s.name, "cvc5") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) Close() {
	if s == nil || s.cmd == nil {
		return
	}
	fmt.Fprintf(s.in, "(exit)\n")
	s.in.Flush()
	s.inc.Close()
	s.cmd.Wait()
}

func (s *Solver) declare(e *Expr, seen map[*Expr]bool) {
	if seen[e] {
		return
	}
	seen[e] = true
	if e.Op == "var" {
		if _, ok := s.declared[e.Name]; !ok {
			s.declared[e.Name] = e.W
			if e.W == 0 {
				fmt.Fprintf(s.in, "(declare-const %s Bool)\n", e.Name)
			} else {
				fmt.Fprintf(s.in, "(declare-const %s (_ BitVec %d))\n", e.Name, e.W)
			}
		}
	}
	for _, a := range e.A {
		s.declare(a, seen)
	}
}

func (s *Solver) term(e *Expr) string {
	s.declare(e, map[*Expr]bool{})
	if e.treeSize(2000) > 1999 {
		return s.letTerm(e)
	}
	var sb strings.Builder
	e.smt(&sb)
	return sb.String()
}

// letTerm prints a large DAG with let-bound sharing.
func (s *Solver) letTerm(e *Expr) string {
	refs := map[*Expr]int{}
	var order []*Expr
	var walk func(*Expr)
	walk = func(x *Expr) {
		refs[x]++
		if refs[x] > 1 {
			return
		}
		for _, a := range x.A {
			walk(a)
		}
		order = append(order, x)
	}
	walk(e)
	names := map[*Expr]string{}
	var sb strings.Builder
	var pr func(x *Expr, top bool)
	pr = func(x *Expr, top bool) {
		if n, ok := names[x]; ok && !top {
			sb.WriteString(n)
			return
		}
		if len(x.A) == 0 {
			x.smt(&sb)
			return
		}
		switch x.Op {
		case "sext":
			fmt.Fprintf(&sb, "((_ sign_extend %d)", x.K)
		case "zext":
			fmt.Fprintf(&sb, "((_ zero_extend %d)", x.K)
		case "extract":
			fmt.Fprintf(&sb, "((_ extract %d 0)", x.W-1)
		default:
			sb.WriteString("(" + x.Op)
		}
		for _, a := range x.A {
			sb.WriteString(" ")
			pr(a, false)
		}
		sb.WriteString(")")
	}
	n := 0
	for _, x := range order {
		if x != e && refs[x] > 1 && len(x.A) > 0 {
			sb.WriteString(fmt.Sprintf("(let ((l!%d ", x.id))
			pr(x, true)
			sb.WriteString(")) ")
			names[x] = fmt.Sprintf("l!%d", x.id)
			n++
		}
	}
	pr(e, true)
	sb.WriteString(strings.Repeat(")", n))
	return sb.String()
}

func (s *Solver) sync(pc []*Expr) {
	n := 0
	for n < len(pc) && n < len(s.asserted) && pc[n] == s.asserted[n] {
		n++
	}
	if k := len(s.asserted) - n; k > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", k)
		s.asserted = s.asserted[:n]
	}
	for _, e := range pc[n:] {
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", s.term(e))
		s.asserted = append(s.asserted, e)
	}
}

type SatResult int

const (
	RUnsat SatResult = iota
	RSat
	RUnknown
)

// Check decides pc /\ extra; on sat it returns a model of the declared variables.
func (s *Solver) Check(pc []*Expr, extra *Expr) (SatResult, map[string]int64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.dead {
		s.Unknown++
		return RUnknown, nil
	}
	s.sync(pc)
	if extra != nil {
		t := s.term(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", t)
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	var model map[string]int64
	var res SatResult
	switch line {
	case "sat":
		res = RSat
		s.Sat++
		model = s.getModel()
	case "unsat":
		res = RUnsat
		s.Unsat++
	default:
		res = RUnknown
		s.Unknown++
		if line != "unknown" && line != "timeout" {
			// "(error" or end of stream: nothing this process says can be trusted any more
			s.dead = true
			if s.cmd.Process != nil {
				s.cmd.Process.Kill()
			}
			s.start()
			return res, nil
		}
	}
	if extra != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	return res, model
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "(error eof)"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) getModel() map[string]int64 {
	m := make(map[string]int64, len(s.declared))
	if len(s.declared) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for n := range s.declared {
		sb.WriteString(n)
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.in.WriteString(sb.String())
	s.in.Flush()
	depth := 0
	var txt strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return m
		}
		if b == '(' {
			depth++
		}
		if depth > 0 {
			txt.WriteByte(b)
		}
		if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	toks := strings.FieldsFunc(txt.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(toks); i += 2 {
		w, ok := s.declared[toks[i]]
		if !ok {
			s.dead = true
			return nil
		}
		v := toks[i+1]
		switch {
		case v == "true":
			m[toks[i]] = 1
		case v == "false":
			m[toks[i]] = 0
		case strings.HasPrefix(v, "#x"):
			u, _ := strconv.ParseUint(v[2:], 16, 64)
			m[toks[i]] = truncS(int64(u), w)
		case strings.HasPrefix(v, "#b"):
			u, _ := strconv.ParseUint(v[2:], 2, 64)
			m[toks[i]] = truncS(int64(u), w)
		}
	}
	return m
}
