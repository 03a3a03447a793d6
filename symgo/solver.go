package main

// A persistent SMT solver process driven over a pipe. The assertion stack of
// the process mirrors the current path condition: one push level per literal,
// and only the part that differs from the previous path is popped and pushed.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Solver struct {
	brief bool // no second attempt

	ctx     *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	sb      strings.Builder
	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	Max     time.Duration
	log     *os.File
	bin     string
	dumpN   int
	dump    []string // SMT-LIB scripts of sampled queries, for the second solver
	dumpRes []Result
	dumpEvr int
	rescues int
}

func NewSolver(ctx *Ctx, bin string) (*Solver, error) {
	s := &Solver{ctx: ctx, bin: bin}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout 10000)\n(set-logic QF_BV)\n")
	return s, nil
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(x string) {
	if _, err := io.WriteString(s.in, x); err != nil {
		panic(fmt.Sprintf("solver write: %v", err))
	}
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(fmt.Sprintf("solver read: %v", err))
	}
	l = strings.TrimSpace(l)
	if strings.HasPrefix(l, "(error") {
		panic("solver error: " + l)
	}
	return l
}

// sync brings the solver's stack to pc.
func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(&s.sb, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		n := pc[k].Define(&s.sb)
		fmt.Fprintf(&s.sb, "(push 1)\n(assert %s)\n", n)
		s.stack = append(s.stack, pc[k])
	}
}

// Check asks whether pc and every extra literal can hold together. vars are the
// variables of the path, whose values are returned on Sat.
func (s *Solver) Check(pc []*Term, vars []*Term, extra ...*Term) (Result, Model) {
	start := time.Now()
	defer func() {
		d := time.Since(start)
		s.Time += d
		if d > s.Max {
			s.Max = d
		}
	}()
	s.Queries++
	s.sync(pc)
	s.sb.WriteString("(push 1)\n")
	for _, v := range vars {
		v.Define(&s.sb)
	}
	for _, e := range extra {
		n := e.Define(&s.sb)
		fmt.Fprintf(&s.sb, "(assert %s)\n", n)
	}
	s.sb.WriteString("(check-sat)\n")
	s.send(s.sb.String())
	s.sb.Reset()
	r := s.line()
	res := Unknown
	var m Model
	switch r {
	case "sat":
		res = Sat
		s.NSat++
		m = Model{}
		if len(vars) > 0 {
			s.sb.WriteString("(get-value (")
			for _, v := range vars {
				s.sb.WriteString(smtName(v))
				s.sb.WriteByte(' ')
			}
			s.sb.WriteString("))\n")
			s.send(s.sb.String())
			s.sb.Reset()
			s.readModel(vars, m)
		}
	case "unsat":
		res = Unsat
		s.NUnsat++
	}
	s.send("(pop 1)\n")
	if res == Unknown && !s.brief {
		if res, m = s.rescue(script(pc, vars, extra), vars); res == Unknown {
			s.NUnk++
		} else if res == Sat {
			s.NSat++
		} else {
			s.NUnsat++
		}
	}
	if s.dumpEvr > 0 && s.Queries%s.dumpEvr == 0 && len(s.dump) < s.dumpN {
		s.dump = append(s.dump, script(pc, vars, extra))
		s.dumpRes = append(s.dumpRes, res)
	}
	return res, m
}

// rescue gives a query the solver did not answer to several solvers at once.
func (s *Solver) rescue(text string, vars []*Term) (Result, Model) {
	if s.rescues++; s.rescues > 3 {
		return Unknown, nil
	}
	if len(vars) > 0 {
		var sb strings.Builder
		sb.WriteString(text + "(get-value (")
		for _, v := range vars {
			sb.WriteString(smtName(v) + " ")
		}
		text = "(set-option :produce-models true)\n" + sb.String() + "))\n"
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	type answer struct {
		r Result
		m Model
	}
	cmds := [][]string{
		{"z3", "-in", "-smt2"}, {"z3-new", "-in", "-smt2", "smt.random_seed=7", "sat.random_seed=7"},
		{"cvc5", "--lang", "smt2", "-q", "--bitblast=eager"}, {"cvc5", "--lang", "smt2", "-q"},
	}
	answers := make(chan answer, len(cmds))
	for _, c := range cmds {
		go func() {
			a := answer{r: Unknown}
			defer func() { answers <- a }()
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(text)
			out, _ := cmd.Output()
			first, rest, _ := strings.Cut(strings.TrimSpace(string(out)), "\n")
			switch strings.TrimSpace(first) {
			case "unsat":
				a.r = Unsat
			case "sat":
				t := &Solver{out: bufio.NewReader(strings.NewReader(rest + "\n\n"))}
				m := Model{}
				defer func() { recover() }()
				if len(vars) > 0 {
					t.readModel(vars, m)
				}
				a = answer{Sat, m}
			}
		}()
	}
	for range cmds {
		if a := <-answers; a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}

func (s *Solver) readModel(vars []*Term, m Model) {
	// ((|a| #x0a) (|b| #b1) ...)
	depth := 0
	var sb strings.Builder
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic(fmt.Sprintf("solver read: %v", err))
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := sb.String()
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		panic("solver error: " + txt)
	}
	s.line()
	// values in order
	i := 0
	for _, v := range vars {
		// skip to the bar-quoted name end
		j := strings.IndexByte(txt[i:], '|')
		k := strings.IndexByte(txt[i+j+1:], '|')
		i = i + j + 1 + k + 1
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		e := i
		for txt[e] != ')' {
			e++
		}
		m[v] = parseBV(txt[i:e])
		i = e
	}
}

func parseBV(x string) uint64 {
	x = strings.TrimSpace(x)
	switch {
	case x == "true":
		return 1
	case x == "false":
		return 0
	case strings.HasPrefix(x, "#x"):
		v, _ := strconv.ParseUint(x[2:], 16, 64)
		return v
	case strings.HasPrefix(x, "#b"):
		v, _ := strconv.ParseUint(x[2:], 2, 64)
		return v
	}
	panic("bad value from solver: " + x)
}

// script renders one query as a self-contained SMT-LIB script.
func script(pc, vars, extra []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	seen := map[*Term]bool{}
	var def func(t *Term) string
	def = func(t *Term) string {
		if t.op == OConst {
			return constSMT(t)
		}
		if seen[t] {
			return smtName(t)
		}
		seen[t] = true
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", smtName(t), sortName(t.w))
			return smtName(t)
		}
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				def(x)
			}
		}
		old := t.defined
		t.defined = false
		var one strings.Builder
		keep := []*Term{}
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil && !x.defined && x.op != OConst {
				x.defined = true
				keep = append(keep, x)
			}
		}
		t.Define(&one)
		for _, x := range keep {
			x.defined = false
		}
		t.defined = old
		sb.WriteString(one.String())
		return smtName(t)
	}
	for _, v := range vars {
		def(v)
	}
	for _, t := range append(append([]*Term{}, pc...), extra...) {
		n := def(t)
		fmt.Fprintf(&sb, "(assert %s)\n", n)
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}
