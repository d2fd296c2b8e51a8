package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries   int64
	SatN      int64
	UnsatN    int64
	UnknownN  int64
	CacheHits int64
	Time      time.Duration
	Errors    int64
	Cross     int64
	CrossBad  int64
}

func (s *SolverStats) Add(o *SolverStats) {
	s.Queries += o.Queries
	s.SatN += o.SatN
	s.UnsatN += o.UnsatN
	s.UnknownN += o.UnknownN
	s.CacheHits += o.CacheHits
	s.Time += o.Time
	s.Errors += o.Errors
	s.Cross += o.Cross
	s.CrossBad += o.CrossBad
}

type cacheEnt struct {
	res  SatRes
	vals []uint64 // for the slice's vars in order
}

// Solver drives one SMT solver process.
type Solver struct {
	db        *TermDB
	cmd       *exec.Cmd
	in        *bufio.Writer
	inc       io.WriteCloser
	out       *bufio.Reader
	cache     map[string]cacheEnt
	Stats     SolverStats
	sentT     []*Term
	sentV     int
	timeoutMS int
	bin       string
	cross     *Solver // second solver for cross-checks
	crossMod  int64
}

func NewSolver(db *TermDB, bin string, timeoutMS int) *Solver {
	s := &Solver{db: db, cache: map[string]cacheEnt{}, timeoutMS: timeoutMS, bin: bin}
	s.start()
	return s
}

func (s *Solver) start() {
	var args []string
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", "-q", fmt.Sprintf("--tlimit-per=%d", s.timeoutMS)}
	} else {
		args = []string{"-in", "-smt2", fmt.Sprintf("-t:%d", s.timeoutMS)}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fatal("solver %s: %v", s.bin, err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.in.WriteString("(set-option :print-success false)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin, "cvc5") {
		s.in.WriteString("(set-logic ALL)\n")
	}
	for _, t := range s.sentT {
		t.sent = false
	}
	s.sentT = nil
	s.sentV = 0
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	if s.cross != nil {
		s.cross.Close()
	}
}

func (s *Solver) define(t *Term) {
	if t.sent || t.op == OpConst || t.op == OpVar {
		return
	}
	for _, a := range t.a {
		if a != nil {
			s.define(a)
		}
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body())
	t.sent = true
	s.sentT = append(s.sentT, t)
}

func (s *Solver) declVars() {
	for s.sentV < len(s.db.vars) {
		v := s.db.vars[s.sentV]
		fmt.Fprintf(s.in, "(declare-const v%d %s)\n", s.sentV, sortName(v.w))
		s.sentV++
	}
}

// Check decides the conjunction of cs. On Sat, vals holds values for vars (sorted var ids of cs).
func (s *Solver) Check(cs []*Term) (SatRes, []int32, []uint64) {
	var vars []int32
	ids := make([]int, 0, len(cs))
	for _, c := range cs {
		if c.IsFalse() {
			return Unsat, nil, nil
		}
		if c.IsTrue() {
			continue
		}
		vars = unionVars(vars, c.vars)
		ids = append(ids, int(c.id))
	}
	if len(ids) == 0 {
		return Sat, nil, nil
	}
	sort.Ints(ids)
	var kb strings.Builder
	prev := -1
	for _, i := range ids {
		if i != prev {
			kb.WriteString(strconv.FormatInt(int64(i), 36))
			kb.WriteByte(',')
		}
		prev = i
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.Stats.CacheHits++
		return e.res, vars, e.vals
	}
	t0 := time.Now()
	s.Stats.Queries++
	if len(s.sentT) > 400000 {
		s.restart()
	}
	res, vals := s.run(cs, vars)
	d := time.Since(t0)
	s.Stats.Time += d
	if slowQ > 0 && d > slowQ {
		for _, c := range cs {
			fmt.Fprintln(os.Stderr, "SLOW", d, res, c)
		}
	}
	switch res {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	if s.cross != nil && s.Stats.Queries%s.crossMod == 0 && res != Unknown {
		// the second solver shares the term universe but has its own definitions
		r2 := s.crossCheck(cs)
		if r2 != Unknown {
			s.Stats.Cross++
			if r2 != res {
				s.Stats.CrossBad++
				fmt.Fprintf(os.Stderr, "SOLVER DISAGREEMENT %v vs %v on %v\n", res, r2, cs)
			}
		}
	}
	s.cache[key] = cacheEnt{res, vals}
	if len(s.cache) > 3000000 {
		s.cache = map[string]cacheEnt{}
	}
	return res, vars, vals
}

// crossCheck sends one self-contained query to a second solver process.
func (s *Solver) crossCheck(cs []*Term) SatRes {
	c := s.cross
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	seen := map[*Term]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if seen[t] || t.op == OpConst {
			return
		}
		seen[t] = true
		if t.op == OpVar {
			fmt.Fprintf(&sb, "(declare-const v%d %s)\n", t.k, sortName(t.w))
			return
		}
		for _, a := range t.a {
			if a != nil {
				def(a)
			}
		}
		fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body())
	}
	for _, t := range cs {
		def(t)
		fmt.Fprintf(&sb, "(assert %s)\n", t.ref())
	}
	sb.WriteString("(check-sat)\n(pop 1)\n")
	c.in.WriteString(sb.String())
	c.in.Flush()
	line, err := c.out.ReadString('\n')
	if err != nil {
		c.restart()
		return Unknown
	}
	switch strings.TrimSpace(line) {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	case "unknown":
		return Unknown
	}
	fmt.Fprintln(os.Stderr, "cross solver:", line)
	return Unknown
}

func (s *Solver) restart() {
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
}

func (s *Solver) run(cs []*Term, vars []int32) (SatRes, []uint64) {
	s.declVars()
	for _, c := range cs {
		s.define(c)
	}
	s.in.WriteString("(push 1)\n")
	for _, c := range cs {
		if c.IsTrue() {
			continue
		}
		fmt.Fprintf(s.in, "(assert %s)\n", c.ref())
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.Stats.Errors++
		s.restart()
		return Unknown, nil
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.Stats.Errors++
		s.restart()
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	switch line {
	case "sat":
		s.in.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(s.in, "v%d ", v)
		}
		s.in.WriteString("))\n(pop 1)\n")
		s.in.Flush()
		txt, err := s.readSexp()
		if err != nil || strings.HasPrefix(txt, "(error") {
			s.Stats.Errors++
			s.restart()
			return Unknown, nil
		}
		vals := parseValues(txt, len(vars))
		if vals == nil {
			fmt.Fprintln(os.Stderr, "cannot parse model:", txt)
			s.Stats.Errors++
			return Unknown, nil
		}
		return Sat, vals
	case "unsat":
		s.in.WriteString("(pop 1)\n")
		return Unsat, nil
	case "unknown", "timeout":
		s.in.WriteString("(pop 1)\n")
		return Unknown, nil
	}
	fmt.Fprintln(os.Stderr, "solver:", line)
	s.Stats.Errors++
	s.restart()
	return Unknown, nil
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
			if depth == 0 && started {
				s.out.ReadString('\n')
				return sb.String(), nil
			}
		}
	}
}

// parseValues parses ((v0 #x41) (v1 true) ...) keeping order.
func parseValues(txt string, n int) []uint64 {
	r := make([]uint64, 0, n)
	i := 0
	// skip outer paren
	for i < len(txt) && txt[i] != '(' {
		i++
	}
	i++
	for i < len(txt) {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
		if i >= len(txt) || txt[i] == ')' {
			break
		}
		// (name value)
		j := i + 1
		for txt[j] != ' ' && txt[j] != '\n' {
			j++
		}
		for txt[j] == ' ' || txt[j] == '\n' {
			j++
		}
		k := j
		depth := 0
		for {
			if txt[k] == '(' {
				depth++
			}
			if txt[k] == ')' {
				if depth == 0 {
					break
				}
				depth--
			}
			k++
		}
		v := strings.TrimSpace(txt[j:k])
		var u uint64
		var err error
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			u, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, err = strconv.ParseUint(v[2:], 2, 64)
		case strings.HasPrefix(v, "(_ bv"):
			f := strings.Fields(v[5:])
			u, err = strconv.ParseUint(f[0], 10, 64)
		default:
			return nil
		}
		if err != nil {
			return nil
		}
		r = append(r, u)
		i = k + 1
	}
	if len(r) != n {
		return nil
	}
	return r
}

// slowQ is a development aid: queries slower than this are printed.
var slowQ, _ = time.ParseDuration(os.Getenv("SLOWQ"))
