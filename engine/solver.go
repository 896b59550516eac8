package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one incremental SMT solver process.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     strings.Builder
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Errors  int
	Time    time.Duration
	dead    bool
	bin     string
	timeout int
}

type verdict int

const (
	vUnsat verdict = iota
	vSat
	vUnknown
)

func newSolver(bin string, timeoutMs int) (*Solver, error) {
	s := &Solver{bin: bin, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-memory:3000")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.dead = false
	s.buf.Reset()
	fmt.Fprintf(&s.buf, "(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func (s *Solver) write(str string) { s.buf.WriteString(str) }

func (s *Solver) flush() error {
	_, err := io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	if err != nil {
		s.dead = true
	}
	return err
}

// readLine reads one line of output.
func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "", err
	}
	return strings.TrimSpace(l), nil
}

// check runs check-sat on the assertions so far.
func (s *Solver) check() verdict {
	if s.dead {
		s.Queries++
		s.Unknown++
		return vUnknown
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.write("(check-sat)\n")
	// a solver that ignores its time limit is ended
	proc := s.cmd.Process
	dog := time.AfterFunc(time.Duration(2*s.timeout+5000)*time.Millisecond, func() { proc.Kill() })
	defer dog.Stop()
	if err := s.flush(); err != nil {
		s.Unknown++
		return vUnknown
	}
	bad := false
	for {
		l, err := s.readLine()
		if err != nil {
			s.Unknown++
			return vUnknown
		}
		switch {
		case l == "":
			continue
		case l == "sat":
			if bad {
				s.Unknown++
				return vUnknown
			}
			s.Sat++
			return vSat
		case l == "unsat":
			if bad {
				s.Unknown++
				return vUnknown
			}
			s.Unsat++
			return vUnsat
		case l == "unknown" || l == "timeout":
			s.Unknown++
			return vUnknown
		case strings.HasPrefix(l, "(error"):
			s.Errors++
			bad = true // an error line makes this answer inconclusive
		}
	}
}

// values reads back the model values of the given variables.
func (s *Solver) values(vars []*Term) (map[*Term]uint64, error) {
	res := map[*Term]uint64{}
	if len(vars) == 0 {
		return res, nil
	}
	byName := map[string]*Term{}
	s.write("(get-value (")
	for _, v := range vars {
		s.write(v.ref() + " ")
		byName[v.ref()] = v
	}
	s.write("))\n(echo \"end-of-values\")\n")
	if err := s.flush(); err != nil {
		return nil, err
	}
	var all strings.Builder
	for {
		l, err := s.readLine()
		if err != nil {
			return nil, err
		}
		if strings.Contains(l, "end-of-values") {
			break
		}
		all.WriteString(l)
		all.WriteByte(' ')
	}
	toks := strings.FieldsFunc(all.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	for i := 0; i+1 < len(toks); i += 2 {
		v, ok := byName[toks[i]]
		if !ok {
			return nil, fmt.Errorf("unexpected model token %q", toks[i])
		}
		val := toks[i+1]
		var x uint64
		var err error
		switch {
		case val == "true":
			x = 1
		case val == "false":
			x = 0
		case strings.HasPrefix(val, "#x"):
			x, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			x, err = strconv.ParseUint(val[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value %q", val)
		}
		if err != nil {
			return nil, err
		}
		res[v] = x
	}
	return res, nil
}
