package smt

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

// Solver is one SMT-LIB2 process. Constraints are kept as a stack of asserted
// terms so that consecutive paths sharing a prefix reuse it.
type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	name    string
	emitted map[*T]string
	refs    map[*T]bool
	stack   []*T
	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	MaxTime time.Duration
	Timeout time.Duration
	Log     io.Writer
	nlog    int
	// Deadline, when set, is when queries stop being answered: the process is
	// killed should it not answer by then (its own timeout is only checked at
	// some points of its work).
	Deadline time.Time
	Dead     bool
}

// ErrDeadline is returned by Check once Deadline has passed.
var ErrDeadline = errors.New("past the deadline")

func NewSolver(ctx *Ctx, bin string, args ...string) (*Solver, error) {
	s := &Solver{ctx: ctx, name: bin, Timeout: 60 * time.Second}
	s.cmd = exec.Command(bin, args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	s.inc = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.emitted = map[*T]string{}
	s.send("(set-option :global-declarations true)\n")
	s.send("(set-option :produce-models true)\n")
	if strings.Contains(bin, "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.Timeout.Milliseconds()))
	}
	s.send("(set-logic QF_BV)\n")
	return s, nil
}

func (s *Solver) send(x string) {
	if s.Log != nil {
		io.WriteString(s.Log, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func constStr(v uint64, w int) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

// ref emits definitions for t and returns a name for it.
func (s *Solver) ref(t *T) string {
	if t.Op == OpConst {
		return constStr(t.C, t.W)
	}
	if n, ok := s.emitted[t]; ok {
		return n
	}
	if t.Op == OpVar {
		n := "|" + t.Name + "|"
		s.send("(declare-const " + n + " " + sortName(t.W) + ")\n")
		s.emitted[t] = n
		return n
	}
	args := make([]string, len(t.A))
	for i, a := range t.A {
		args[i] = s.ref(a)
	}
	var e string
	switch t.Op {
	case OpExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.C>>16, t.C&0xffff, args[0])
	case OpZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.A[0].W, args[0])
	case OpSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, args[0])
	default:
		e = "(" + opNames[t.Op] + " " + strings.Join(args, " ") + ")"
	}
	n := "t" + strconv.Itoa(t.ID)
	s.send("(define-fun " + n + " () " + sortName(t.W) + " " + e + ")\n")
	s.emitted[t] = n
	return n
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*T) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", k))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		r := s.ref(pc[n])
		s.send("(push 1)\n(assert " + r + ")\n")
		s.stack = append(s.stack, pc[n])
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc ∧ extra. When sat and model is wanted, a model over the
// variables of pc and extra is returned.
func (s *Solver) Check(pc []*T, extra *T, wantModel bool) (res Result, m Model, err error) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
	}()
	if s.Dead {
		return Unknown, nil, ErrDeadline
	}
	if !s.Deadline.IsZero() {
		left := time.Until(s.Deadline)
		if left <= 0 {
			return Unknown, nil, ErrDeadline
		}
		proc := s.cmd.Process
		fired := false
		var mu sync.Mutex
		t := time.AfterFunc(left, func() { mu.Lock(); fired = true; mu.Unlock(); proc.Kill() })
		defer func() {
			t.Stop()
			mu.Lock()
			if fired {
				s.Dead = true
				res, m, err = Unknown, nil, ErrDeadline
			}
			mu.Unlock()
		}()
	}
	s.sync(pc)
	s.Queries++
	pop := false
	if extra != nil {
		r := s.ref(extra)
		s.send("(push 1)\n(assert " + r + ")\n")
		pop = true
	}
	s.send("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return Unknown, nil, err
	}
	l, err := s.readLine()
	if err != nil {
		return Unknown, nil, fmt.Errorf("solver died: %w", err)
	}
	switch l {
	case "sat":
		res = Sat
		s.NSat++
	case "unsat":
		res = Unsat
		s.NUnsat++
	case "unknown", "timeout":
		res = Unknown
		s.NUnk++
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", l)
	}
	if res == Sat && wantModel {
		set, seen := map[*T]bool{}, map[*T]bool{}
		for _, c := range pc {
			CollectVars(c, set, seen)
		}
		if extra != nil {
			CollectVars(extra, set, seen)
		}
		m = Model{}
		var vs []*T
		for v := range set {
			vs = append(vs, v)
		}
		for len(vs) > 0 {
			n := len(vs)
			if n > 200 {
				n = 200
			}
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vs[:n] {
				sb.WriteString(s.ref(v))
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			if err := s.in.Flush(); err != nil {
				return Unknown, nil, err
			}
			txt, err := s.readSexp()
			if err != nil {
				return Unknown, nil, err
			}
			if err := parseValues(txt, m); err != nil {
				return Unknown, nil, err
			}
			vs = vs[n:]
		}
	}
	if pop {
		s.send("(pop 1)\n")
	}
	return res, m, nil
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
			continue
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started && depth == 0 {
			// consume rest of line
			s.out.ReadString('\n')
			break
		}
	}
	t := sb.String()
	if strings.Contains(t, "(error") {
		return "", fmt.Errorf("solver error: %s", t)
	}
	return t, nil
}

func parseValues(txt string, m Model) error {
	i := 0
	skip := func() {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
	}
	skip()
	if i >= len(txt) || txt[i] != '(' {
		return fmt.Errorf("bad get-value answer %q", txt)
	}
	i++
	for {
		skip()
		if i < len(txt) && txt[i] == ')' {
			return nil
		}
		if i >= len(txt) || txt[i] != '(' {
			return fmt.Errorf("bad get-value answer %q", txt)
		}
		i++
		skip()
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for txt[j] != ' ' && txt[j] != '\n' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		skip()
		j := i
		depth := 0
		for {
			if txt[j] == '(' {
				depth++
			}
			if txt[j] == ')' {
				if depth == 0 {
					break
				}
				depth--
			}
			j++
		}
		v := strings.TrimSpace(txt[i:j])
		i = j + 1
		var u uint64
		var err error
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			u, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, err = strconv.ParseUint(v[2:], 2, 64)
		case strings.HasPrefix(v, "(_ bv"):
			f := strings.Fields(v[5:])
			u, err = strconv.ParseUint(f[0], 10, 64)
		default:
			err = fmt.Errorf("bad value %q", v)
		}
		if err != nil {
			return err
		}
		m[name] = u
	}
}
