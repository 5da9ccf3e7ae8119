package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver is a z3 process; definitions live at the base level, each query in its own scope.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inp     io.WriteCloser
	out     *bufio.Reader
	defs    []*Term // terms (and vars) defined
	Queries int64
	Sats    int64
	Unsats  int64
	Unknwn  int64
	Time    time.Duration
	timeout int
	log     *os.File
	bin     string
}

func NewSolver(timeoutMS int) *Solver {
	s := &Solver{timeout: timeoutMS, bin: "z3-new"}
	if _, err := exec.LookPath(s.bin); err != nil {
		s.bin = "z3"
	}
	if b := os.Getenv("VERIF_Z3"); b != "" {
		s.bin = b
	}
	if p := os.Getenv("VERIF_SMTLOG"); p != "" {
		s.log, _ = os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2", fmt.Sprintf("-t:%d", min(s.timeout, 4000)), "-memory:3000")
	var err error
	s.inp, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(s.inp, 1<<16)
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.defs = nil
	s.send("(set-option :produce-models true)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inp.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) Restart() {
	s.Close()
	for _, t := range s.defs {
		t.emitted = false
	}
	s.start()
}

func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	s.in.WriteString(x)
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || t.emitted {
		return
	}
	if t.op == OVar {
		s.send("(declare-const |" + t.name + "| " + sortStr(t.sort) + ")\n")
	} else {
		if t.a != nil {
			s.define(t.a)
		}
		if t.b != nil {
			s.define(t.b)
		}
		if t.c != nil {
			s.define(t.c)
		}
		s.send("(define-fun " + t.ref() + " () " + sortStr(t.sort) + " " + t.bodyStr() + ")\n")
	}
	t.emitted = true
	s.defs = append(s.defs, t)
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides the conjunction of lits and extra. On Sat the model of vars is returned.
func (s *Solver) Check(lits []*Term, extra *Term, vars []*Term) (Result, Model) {
	st := time.Now()
	defer func() { s.Time += time.Since(st) }()
	s.Queries++
	if len(s.defs) > 60000 {
		s.Restart()
	}
	for _, t := range lits {
		s.define(t)
	}
	if extra != nil {
		s.define(extra)
	}
	for _, v := range vars {
		s.define(v)
	}
	s.send("(push 1)\n")
	for _, t := range lits {
		s.send("(assert " + t.ref() + ")\n")
	}
	if extra != nil {
		s.send("(assert " + extra.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	for err == nil && line == "" {
		line, err = s.readLine()
	}
	if err != nil {
		s.Restart()
		s.Unknwn++
		return Unknown, nil
	}
	switch line {
	case "unsat":
		s.Unsats++
		s.send("(pop 1)\n")
		return Unsat, nil
	case "sat":
		m := Model{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.ref())
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil {
				s.Restart()
				s.Unknwn++
				return Unknown, nil
			}
			parseModel(txt, vars, m)
		}
		s.Sats++
		s.send("(pop 1)\n")
		return Sat, m
	default:
		s.Unknwn++
		if strings.HasPrefix(line, "(error") || os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", line)
		}
		s.Restart()
		return Unknown, nil
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// parseModel parses ((|v0| #x..) (|v1| true) ...)
func parseModel(txt string, vars []*Term, m Model) {
	i := 0
	for _, v := range vars {
		key := "(|" + v.name + "| "
		j := strings.Index(txt[i:], key)
		if j < 0 {
			continue
		}
		i += j + len(key)
		rest := txt[i:]
		switch {
		case strings.HasPrefix(rest, "true"):
			m[v.name] = 1
		case strings.HasPrefix(rest, "false"):
			m[v.name] = 0
		case strings.HasPrefix(rest, "#x"):
			e := strings.IndexByte(rest, ')')
			u, _ := strconv.ParseUint(rest[2:e], 16, 64)
			m[v.name] = u
		case strings.HasPrefix(rest, "#b"):
			e := strings.IndexByte(rest, ')')
			u, _ := strconv.ParseUint(rest[2:e], 2, 64)
			m[v.name] = u
		default:
			panic("cannot parse model value: " + rest)
		}
	}
}

// OneShot decides the conjunction in a fresh non-incremental process (other tactics apply
// there): the fallback for queries on which the incremental solver gave up.
func (s *Solver) OneShot(all, vars []*Term) (Result, Model) {
	st := time.Now()
	defer func() { s.Time += time.Since(st) }()
	s.Queries++
	var sb strings.Builder
	done := map[*Term]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if t == nil || t.op == OConst || done[t] {
			return
		}
		done[t] = true
		if t.op == OVar {
			sb.WriteString("(declare-const |" + t.name + "| " + sortStr(t.sort) + ")\n")
			return
		}
		def(t.a)
		def(t.b)
		def(t.c)
		sb.WriteString("(define-fun " + t.ref() + " () " + sortStr(t.sort) + " " + t.bodyStr() + ")\n")
	}
	for _, t := range all {
		def(t)
		sb.WriteString("(assert " + t.ref() + ")\n")
	}
	for _, v := range vars {
		def(v)
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.ref() + " ")
		}
		sb.WriteString("))\n")
	}
	secs := (s.timeout + 999) / 1000
	cmds := []*exec.Cmd{
		exec.Command(s.bin, "-in", "-smt2", fmt.Sprintf("-T:%d", secs), "-memory:3000"),
		exec.Command("z3", "-in", "-smt2", fmt.Sprintf("-T:%d", secs), "-memory:3000"),
		exec.Command("cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", secs*1000)),
	}
	ch := make(chan string, len(cmds))
	started := 0
	for i, cmd := range cmds {
		q := sb.String()
		if i == 2 {
			q = "(set-logic ALL)\n" + q
		}
		cmd.Stdin = strings.NewReader(q)
		var o strings.Builder
		cmd.Stdout = &o
		if cmd.Start() != nil {
			continue
		}
		started++
		go func(c *exec.Cmd) { c.Wait(); ch <- o.String() }(cmd)
	}
	txt := ""
	for n := 0; n < started; n++ {
		o := <-ch
		if strings.HasPrefix(o, "sat") || strings.HasPrefix(o, "unsat") {
			txt = o
			break
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	switch {
	case strings.HasPrefix(txt, "unsat"):
		s.Unsats++
		return Unsat, nil
	case strings.HasPrefix(txt, "sat"):
		s.Sats++
		m := Model{}
		parseModel(txt[4:], vars, m)
		return Sat, m
	}
	s.Unknwn++
	if p := os.Getenv("VERIF_UNKNOWN"); p != "" {
		os.WriteFile(fmt.Sprintf("%s/u%d.smt2", p, time.Now().UnixNano()), []byte(sb.String()), 0o644)
	}
	return Unknown, nil
}
