package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// SolverStats are shared counters.
type SolverStats struct {
	Queries  int64 // sent to the SMT solver
	Sat      int64
	Unsat    int64
	Cached   int64 // answered from the query cache
	Domain   int64 // answered by exact 8-bit domain evaluation
	ModelHit int64 // feasible by the current model
	Nanos    int64
	Ints     int64 // decided with the integer encoding
}

// Solver drives one z3 process.
type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.Closer
	out      *bufio.Reader
	declared map[string]bool
	st       *SolverStats
	cache    map[string]*qres
	log      *os.File // optional query log
	ints     *Solver  // the integer solver
}

type qres struct {
	sat bool
	m   Model
}

func NewSolver(st *SolverStats) *Solver {
	s := &Solver{st: st, cache: map[string]*qres{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.declared = map[string]bool{}
	bin := os.Getenv("GOSYM_Z3")
	if bin == "" {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start z3: %v", err))
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.inc = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout 20000)\n(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.ints != nil {
		s.ints.Close()
		s.ints = nil
	}
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// solverError aborts the run as inconclusive.
type solverError struct{ msg string }

// Check decides the conjunction cs. It returns a model of its variables if sat.
func (s *Solver) Check(cs []*Term) (bool, Model) {
	ids := make([]int, 0, len(cs))
	for _, c := range cs {
		if c.isConst() {
			if c.k == 0 {
				return false, nil
			}
			continue
		}
		ids = append(ids, c.id)
	}
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, i := range ids {
		if i == last {
			continue
		}
		last = i
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		atomic.AddInt64(&s.st.Cached, 1)
		return r.sat, r.m
	}
	var vars []*Term
	for _, c := range cs {
		vars = mergeVars(vars, c.Vars())
	}
	t0 := time.Now()
	if sat, m, ok := s.checkInts(vars, cs); ok {
		if diffSolvers {
			s.diff(vars, cs, sat)
		}
		res := &qres{sat: sat, m: m}
		if sat {
			atomic.AddInt64(&s.st.Sat, 1)
		} else {
			atomic.AddInt64(&s.st.Unsat, 1)
		}
		atomic.AddInt64(&s.st.Queries, 1)
		atomic.AddInt64(&s.st.Ints, 1)
		atomic.AddInt64(&s.st.Nanos, int64(time.Since(t0)))
		s.cache[key] = res
		return res.sat, res.m
	}
	for _, v := range vars {
		if !s.declared[v.name] {
			s.declared[v.name] = true
			if v.w == 0 {
				fmt.Fprintf(s.in, "(declare-const |%s| Bool)\n", v.name)
			} else {
				fmt.Fprintf(s.in, "(declare-const |%s| (_ BitVec %d))\n", v.name, v.w)
			}
		}
	}
	s.in.WriteString("(push 1)\n")
	seen := map[int]bool{}
	for _, c := range cs {
		if c.isConst() || seen[c.id] {
			continue
		}
		seen[c.id] = true
		txt := c.SMT()
		s.in.WriteString("(assert ")
		s.in.WriteString(txt)
		s.in.WriteString(")\n")
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	ans := s.line()
	res := &qres{}
	switch ans {
	case "sat":
		res.sat = true
		res.m = Model{}
		if len(vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vars {
				s.in.WriteString("|" + v.name + "| ")
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			s.readModel(vars, res.m)
		}
		atomic.AddInt64(&s.st.Sat, 1)
	case "unsat":
		atomic.AddInt64(&s.st.Unsat, 1)
	case "unknown":
		sat, m, ok := s.fallback(vars, cs)
		if !ok {
			s.in.WriteString("(pop 1)\n")
			panic(solverError{"solver answered unknown"})
		}
		res.sat, res.m = sat, m
		if sat {
			atomic.AddInt64(&s.st.Sat, 1)
		} else {
			atomic.AddInt64(&s.st.Unsat, 1)
		}
	default:
		s.Close()
		s.start()
		panic(solverError{"solver answered " + ans})
	}
	s.in.WriteString("(pop 1)\n")
	atomic.AddInt64(&s.st.Queries, 1)
	atomic.AddInt64(&s.st.Nanos, int64(time.Since(t0)))
	if len(s.cache) > 400000 {
		s.cache = map[string]*qres{}
	}
	s.cache[key] = res
	return res.sat, res.m
}

var diffSolvers = os.Getenv("GOSYM_DIFF") != ""

// diff compares an answer with the bit-vector solvers.
func (s *Solver) diff(vars, cs []*Term, sat bool) {
	if got, _, ok := s.fallback(vars, cs); ok && got != sat {
		panic(solverError{"the integer and the bit-vector encoding disagree"})
	}
}

// fallback asks the other solvers about a query that z3 gave up on.
func (s *Solver) fallback(vars, cs []*Term) (bool, Model, bool) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	for _, v := range vars {
		if v.w == 0 {
			fmt.Fprintf(&sb, "(declare-const |%s| Bool)\n", v.name)
		} else {
			fmt.Fprintf(&sb, "(declare-const |%s| (_ BitVec %d))\n", v.name, v.w)
		}
	}
	seen := map[int]bool{}
	for _, c := range cs {
		if !c.isConst() && !seen[c.id] {
			seen[c.id] = true
			fmt.Fprintf(&sb, "(assert %s)\n", c.SMT())
		}
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString("|" + v.name + "| ")
		}
		sb.WriteString("))\n")
	}
	f, err := os.CreateTemp("", "gosym-*.smt2")
	if err != nil {
		return false, nil, false
	}
	f.WriteString(sb.String())
	f.Close()
	if os.Getenv("GOSYM_KEEP") == "" {
		defer os.Remove(f.Name())
	}
	type ans struct {
		out string
	}
	cmds := [][]string{
		{"cvc5", "--bv-solver=bitblast", "--bitblast=eager", "--produce-models", f.Name()},
		{"cvc5", "--produce-models", f.Name()},
		{"z3-new", f.Name()},
	}
	ch := make(chan ans, len(cmds))
	var procs []*exec.Cmd
	for _, c := range cmds {
		cmd := exec.Command("timeout", append([]string{"120"}, c...)...)
		procs = append(procs, cmd)
		go func() {
			out, _ := cmd.Output()
			ch <- ans{string(out)}
		}()
	}
	defer func() {
		for _, p := range procs {
			if p.Process != nil {
				p.Process.Signal(syscall.SIGTERM)
			}
		}
	}()
	for range cmds {
		a := <-ch
		l, rest, _ := strings.Cut(a.out, "\n")
		switch strings.TrimSpace(l) {
		case "unsat":
			return false, nil, true
		case "sat":
			m := Model{}
			if len(vars) > 0 {
				o := s.out
				s.out = bufio.NewReader(strings.NewReader(rest + "\n"))
				s.readModel(vars, m)
				s.out = o
			}
			return true, m, true
		}
	}
	return false, nil, false
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(solverError{"solver died: " + err.Error()})
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readModel(vars []*Term, m Model) {
	depth := 0
	var sb strings.Builder
	inq := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic(solverError{"solver died"})
		}
		sb.WriteByte(b)
		if b == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "(error") {
		panic(solverError{"solver error: " + txt})
	}
	s.out.ReadString('\n')
	i := 0
	for _, v := range vars {
		// entries come in the requested order
		n := "(" + quoteName(v.name) + " "
		j := strings.Index(txt[i:], n)
		if j < 0 {
			n = "(|" + v.name + "| "
			j = strings.Index(txt[i:], n)
			if j < 0 {
				panic(solverError{"cannot parse model for " + v.name + ": " + txt})
			}
		}
		i += j + len(n)
		e := strings.IndexByte(txt[i:], ')')
		val := strings.TrimSpace(txt[i : i+e])
		var x uint64
		var err error
		switch {
		case strings.HasPrefix(val, "(-"):
			x, err = strconv.ParseUint(strings.TrimSpace(val[2:]), 10, 64)
			x = -x
		case val[0] >= '0' && val[0] <= '9':
			x, err = strconv.ParseUint(val, 10, 64)
		case val == "true":
			x = 1
		case val == "false":
			x = 0
		case strings.HasPrefix(val, "#x"):
			x, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			x, err = strconv.ParseUint(val[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value")
		}
		if err != nil {
			panic(solverError{"cannot parse model value " + val})
		}
		m[v.name] = x
	}
}

func quoteName(n string) string {
	for i := 0; i < len(n); i++ {
		c := n[i]
		if !(c == '_' || c == '.' || c == '!' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return "|" + n + "|"
		}
	}
	if n[0] >= '0' && n[0] <= '9' {
		return "|" + n + "|"
	}
	return n
}
