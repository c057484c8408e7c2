package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.Closer
	out     *bufio.Reader
	gen     int
	defs    int
	level   int
	vars    map[string]int
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	Errors  []string
	timeout int
	log     io.Writer
}

func newSolver(bin string, timeoutMS int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMS, vars: map[string]int{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.inc = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.defs = 0
	s.level = 0
	s.vars = map[string]int{}
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
}

func (s *Solver) close() {
	if s.cmd == nil {
		return
	}
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) send(t string) {
	if s.log != nil {
		io.WriteString(s.log, t)
	}
	s.in.WriteString(t)
}

// define makes sure e is known to the solver.
func (s *Solver) define(e *E) {
	if e.op == OConst || e.sent == s.gen {
		return
	}
	// iterative post-order
	type fr struct {
		e *E
		i int
	}
	st := []fr{{e, 0}}
	for len(st) > 0 {
		t := &st[len(st)-1]
		if t.e.op == OConst || t.e.sent == s.gen {
			st = st[:len(st)-1]
			continue
		}
		if t.i < len(t.e.args) {
			a := t.e.args[t.i]
			t.i++
			if a.op != OConst && a.sent != s.gen {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := t.e
		st = st[:len(st)-1]
		x.sent = s.gen
		s.defs++
		if x.op == OVar {
			s.vars[x.name] = x.sort
			s.send("(declare-fun " + x.name + " () " + sortName(x.sort) + ")\n")
			continue
		}
		var sb strings.Builder
		sb.WriteString("(define-fun n" + strconv.Itoa(x.id) + " () " + sortName(x.sort) + " ")
		x.body(&sb)
		sb.WriteString(")\n")
		s.send(sb.String())
	}
}

func (s *Solver) push() { s.send("(push 1)\n"); s.level++ }
func (s *Solver) pop()  { s.send("(pop 1)\n"); s.level-- }
func (s *Solver) assert(e *E) {
	s.define(e)
	s.send("(assert " + e.ref() + ")\n")
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error eof " + err.Error() + ")"
	}
	return strings.TrimSpace(l)
}

// check returns "sat", "unsat" or "unknown".
func (s *Solver) check() string {
	t0 := time.Now()
	s.send("(check-sat)\n")
	s.in.Flush()
	r := s.readLine()
	for r != "sat" && r != "unsat" && r != "unknown" && r != "timeout" {
		s.Errors = append(s.Errors, r)
		if strings.Contains(r, "eof") {
			r = "unknown"
			break
		}
		r = s.readLine()
	}
	s.Time += time.Since(t0)
	s.Queries++
	switch r {
	case "sat":
		s.Sat++
	case "unsat":
		s.Unsat++
	default:
		r = "unknown"
		s.Unknown++
	}
	return r
}

// values fetches the model values for the given variables.
func (s *Solver) values(vars []*E) Model {
	m := Model{}
	if len(vars) == 0 {
		return m
	}
	t0 := time.Now()
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		s.define(v)
		sb.WriteString(v.name)
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	var txt strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.Errors = append(s.Errors, "eof in get-value")
			return m
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
		}
		if b == '\n' || b == '\r' {
			b = ' '
		}
		txt.WriteByte(b)
		if depth == 0 && b == ')' {
			break
		}
	}
	s.out.ReadString('\n')
	s.Time += time.Since(t0)
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt.String()))
	if len(toks) > 1 && toks[1] == "error" {
		s.Errors = append(s.Errors, txt.String())
		return m
	}
	for i := 0; i < len(toks); i++ {
		if toks[i] != "(" && toks[i] != ")" {
			name := toks[i]
			i++
			if i >= len(toks) {
				break
			}
			switch {
			case toks[i] == "true":
				m[name] = V{u: 1}
			case toks[i] == "false":
				m[name] = V{u: 0}
			case strings.HasPrefix(toks[i], "#x"):
				b, _ := new(big.Int).SetString(toks[i][2:], 16)
				m[name] = mkV(b)
			case strings.HasPrefix(toks[i], "#b"):
				b, _ := new(big.Int).SetString(toks[i][2:], 2)
				m[name] = mkV(b)
			case toks[i] == "(" && i+2 < len(toks) && toks[i+1] == "_" && strings.HasPrefix(toks[i+2], "bv"):
				b, _ := new(big.Int).SetString(toks[i+2][2:], 10)
				m[name] = mkV(b)
				i += 4
			default:
				s.Errors = append(s.Errors, "value "+name+" "+toks[i])
			}
		}
	}
	return m
}

func mkV(b *big.Int) V {
	if b.IsUint64() {
		return V{u: b.Uint64()}
	}
	return V{b: b}
}
