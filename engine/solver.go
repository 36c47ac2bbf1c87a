package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// One z3 process per worker; the assertion stack mirrors the current path condition.

type Solver struct {
	ts      *Terms
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	gen     int32
	stack   []*Term // asserted terms, one push each
	sorts   map[string]bool
	queries int64
	sat     int64
	unsat   int64
	unknown int64
	spent   time.Duration
	timeout int // ms
	defs    int
	vars    map[string]*Term
}

func newSolver(ts *Terms, timeoutMS int) *Solver {
	s := &Solver{ts: ts, timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("/usr/bin/z3", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start z3: %v", err))
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.stack = nil
	s.defs = 0
	s.vars = map[string]*Term{}
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
}

func (s *Solver) close() {
	if s.cmd != nil {
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
	}
}

func (s *Solver) restart() { s.close(); s.start() }

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		s.define(t)
		return "|" + t.name + "|"
	}
	s.define(t)
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(t *Term) {
	if t.defGen == s.gen || t.op == OConst {
		return
	}
	if t.op == OVar {
		fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", t.name, sortOf(t.w))
		t.defGen = s.gen
		s.vars[t.name] = t
		return
	}
	var body string
	switch t.op {
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OExtract:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, s.ref(t.a))
	case ONot, OBvnot:
		body = fmt.Sprintf("(%s %s)", opNames[t.op], s.ref(t.a))
	case OIte:
		body = fmt.Sprintf("(ite %s %s %s)", s.ref(t.a), s.ref(t.b), s.ref(t.c))
	default:
		body = fmt.Sprintf("(%s %s %s)", opNames[t.op], s.ref(t.a), s.ref(t.b))
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), body)
	t.defGen = s.gen
	s.defs++
}

// check decides pc /\ extra. Returns "sat", "unsat" or "unknown"; on sat a model of vars.
func (s *Solver) check(pc []*Term, extra *Term, vars []*Term) (string, Model) {
	t0 := time.Now()
	defer func() { s.spent += time.Since(t0) }()
	s.queries++
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		r := s.ref(t)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, t)
	}
	if extra != nil {
		r := s.ref(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n(check-sat)\n", r)
	} else {
		fmt.Fprintf(s.in, "(push 1)\n(check-sat)\n")
	}
	res, err := s.line()
	if err != nil {
		s.restart()
		s.unknown++
		return "unknown", nil
	}
	if debugEngine && time.Since(t0) > 50*time.Millisecond && extra != nil {
		st := extra.String()
		if len(st) > 1500 {
			st = st[:1500]
		}
		fmt.Printf("SLOW %v %s %s\n", time.Since(t0), res, st)
	}
	var m Model
	if res == "sat" {
		m = Model{}
		if len(vars) > 0 {
			var sb strings.Builder
			for _, v := range vars {
				if v.defGen != s.gen {
					continue
				}
				sb.WriteString(" |" + v.name + "|")
			}
			if sb.Len() > 0 {
				fmt.Fprintf(s.in, "(get-value (%s))\n", sb.String())
				if err := s.readModel(m); err != nil {
					s.restart()
					s.unknown++
					return "unknown", nil
				}
			}
		}
		s.sat++
	} else if res == "unsat" {
		s.unsat++
	} else {
		s.unknown++
		res = "unknown"
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	return res, m
}

func (s *Solver) line() (string, error) {
	if err := s.in.Flush(); err != nil {
		return "", err
	}
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			panic("z3: " + l)
		}
		return l, nil
	}
}

func (s *Solver) readModel(m Model) error {
	if err := s.in.Flush(); err != nil {
		return err
	}
	depth := 0
	var sb strings.Builder
	inBar := false
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return err
		}
		sb.WriteByte(c)
		if inBar {
			if c == '|' {
				inBar = false
			}
			continue
		}
		switch c {
		case '|':
			inBar = true
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			break
		}
	}
	txt := sb.String()
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		panic("z3: " + txt)
	}
	// ((|name| #x00) (|b| true) ...)
	i := 0
	for i < len(txt) {
		if txt[i] == '|' || isSymStart(txt[i]) {
			var name string
			if txt[i] == '|' {
				j := strings.IndexByte(txt[i+1:], '|') + i + 1
				name = txt[i+1 : j]
				i = j + 1
			} else {
				j := i
				for txt[j] != ' ' && txt[j] != '\n' && txt[j] != ')' {
					j++
				}
				name = txt[i:j]
				i = j
			}
			for txt[i] == ' ' || txt[i] == '\n' {
				i++
			}
			j := i
			for txt[j] != ')' {
				j++
			}
			v := strings.TrimSpace(txt[i:j])
			var u uint64
			switch {
			case v == "true":
				u = 1
			case v == "false":
				u = 0
			case strings.HasPrefix(v, "#x"):
				u, _ = strconv.ParseUint(v[2:], 16, 64)
			case strings.HasPrefix(v, "#b"):
				u, _ = strconv.ParseUint(v[2:], 2, 64)
			default:
				panic("z3 model value: " + v)
			}
			m[name] = u
			i = j
			continue
		}
		i++
	}
	return nil
}

func isSymStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
}

var _ = io.EOF
