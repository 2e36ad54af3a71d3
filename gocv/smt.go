package main

// Solver back end: one persistent SMT process per worker, one push/pop per query.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return []string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	stdin    io.WriteCloser
	declared map[string]bool
	defined  map[*Term]string
	log      *strings.Builder // declarations so far (for stand-alone scripts)
	dead     bool
}

type SolverStats struct {
	Queries, Cached, Unsat, Sat, Unknown int
	Time                                 time.Duration
	Fallback                             int
	Max                                  time.Duration
}

var stats SolverStats
var theSolver *Solver
var z3Path = "z3-new"
var debugSMT = os.Getenv("GOCV_SMT") != ""

func newSolver() *Solver {
	s := &Solver{declared: map[string]bool{}, defined: map[*Term]string{}, log: &strings.Builder{}}
	s.cmd = exec.Command(z3Path, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	s.stdin = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.send("(set-option :auto_config true)\n(set-option :smt.mbqi true)\n(set-option :smt.random_seed 1)\n")
	for _, n := range []string{"B", "V", "I", "SK", "MM"} {
		s.decl("(declare-sort " + n + " 0)\n")
		s.declared["sort:"+n] = true
	}
	return s
}

func (s *Solver) send(x string) {
	if debugSMT {
		os.Stderr.WriteString(x)
	}
	s.in.WriteString(x)
}
func (s *Solver) decl(x string) {
	s.log.WriteString(x)
	s.send(x)
}
func (s *Solver) close() {
	if s == nil {
		return
	}
	s.stdin.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) sort(t *Sort) string {
	switch t.Kind {
	case "un":
		if !s.declared["sort:"+t.Name] {
			s.declared["sort:"+t.Name] = true
			s.decl("(declare-sort " + t.Name + " 0)\n")
		}
	case "arr":
		return "(Array " + s.sort(t.Key) + " " + s.sort(t.Val) + ")"
	}
	return t.Name
}

func sym(n string) string { return "|" + strings.ReplaceAll(n, "|", "_") + "|" }

func (s *Solver) ref(t *Term) string { return s.refd(t) }

func (s *Solver) refd(t *Term) string {
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		if t.num.Sign() < 0 {
			return "(- " + t.num.String()[1:] + ")"
		}
		return t.num.String()
	case "bv":
		return fmt.Sprintf("(_ bv%s %d)", t.num.String(), t.sort.W)
	case "var":
		n := sym(t.name)
		if !s.declared[n] {
			s.declared[n] = true
			s.decl("(declare-const " + n + " " + s.sort(t.sort) + ")\n")
		}
		return n
	case "bvar":
		return sym(t.name)
	case "blit":
		n := blitSMT(t)
		if !s.declared[n] {
			s.declared[n] = true
			s.decl("(declare-const " + n + " B)\n")
		}
		return n
	}
	if !t.bound {
		if n, ok := s.defined[t]; ok {
			return n
		}
	}
	str := s.build(t)
	if t.bound || len(str) < 24 {
		return str
	}
	n := fmt.Sprintf("t%d", t.id)
	s.defined[t] = n
	s.decl("(define-fun " + n + " () " + s.sort(t.sort) + " " + str + ")\n")
	return n
}

func (s *Solver) fn(name string, args []*Term, res *Sort) string {
	var as []string
	for _, a := range args {
		as = append(as, s.sort(a.sort))
	}
	n := sym(name)
	if !s.declared["fn:"+n] {
		s.declared["fn:"+n] = true
		s.decl("(declare-fun " + n + " (" + strings.Join(as, " ") + ") " + s.sort(res) + ")\n")
	}
	return n
}

func (s *Solver) build(t *Term) string {
	var a []string
	for _, x := range t.args {
		if (t.op == "forall" || t.op == "exists") && x.op == "bvar" && x != t.args[len(t.args)-1] {
			a = append(a, "("+sym(x.name)+" "+s.sort(x.sort)+")")
			continue
		}
		a = append(a, s.refd(x))
	}
	j := strings.Join(a, " ")
	switch t.op {
	case "app":
		if len(t.args) == 0 {
			return s.refd(Var(t.name, t.sort))
		}
		switch t.name {
		case "setunion":
			return "((_ map or) " + j + ")"
		case "setminus":
			return "((_ map and) " + a[0] + " ((_ map not) " + a[1] + "))"
		case "setinter":
			return "((_ map and) " + j + ")"
		}
		return "(" + s.fn(t.name, t.args, t.sort) + " " + j + ")"
	case "cat":
		// right-nested binary concatenation
		f := s.fn2("bcat")
		r := a[len(a)-1]
		for i := len(a) - 2; i >= 0; i-- {
			r = "(" + f + " " + a[i] + " " + r + ")"
		}
		return r
	case "bunit":
		return "(" + s.fn("bunit", t.args, SB) + " " + j + ")"
	case "zeros":
		return "(" + s.fn("zeros", t.args, SB) + " " + j + ")"
	case "forall", "exists":
		return "(" + t.op + " (" + strings.Join(a[:len(a)-1], " ") + ") " + a[len(a)-1] + ")"
	case "extract":
		lo := int(t.num.Int64())
		return fmt.Sprintf("((_ extract %d %d) %s)", lo+t.sort.W-1, lo, j)
	case "zext":
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.sort.W-t.args[0].sort.W, j)
	case "bv2nat":
		return "(bv2nat " + j + ")"
	case "int2bv":
		return fmt.Sprintf("((_ int2bv %d) %s)", t.sort.W, j)
	case "constarr":
		return "((as const " + s.sort(t.sort) + ") " + j + ")"
	case "concat", "+", "*", "-", "and", "or", "not", "=>", "=", "<=", "ite", "select", "store", "div", "mod",
		"bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvnot", "bvshl", "bvlshr", "bvudiv", "bvurem", "bvult", "bvule", "bvslt", "bvsle":
		return "(" + t.op + " " + j + ")"
	}
	panic("smt build op " + t.op)
}
func (s *Solver) fn2(name string) string {
	n := sym(name)
	if !s.declared["fn:"+n] {
		s.declared["fn:"+n] = true
		s.decl("(declare-fun " + n + " (B B) B)\n")
	}
	return n
}

// closure: all facts of all terms mentioned, plus literal/sentinel distinctness.
func closure(ts []*Term) (facts []*Term, blits, sens []*Term) {
	seen := map[*Term]bool{}
	fs := map[*Term]bool{}
	stack := append([]*Term{}, ts...)
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[t] {
			continue
		}
		seen[t] = true
		if t.op == "blit" {
			blits = append(blits, t)
			f := mk("=", "", nil, SBool, mk("app", "blen", nil, SInt, t), IntC(int64(len(t.name))))
			if !fs[f] {
				fs[f] = true
				facts = append(facts, f)
			}
		}
		if isSent(t) {
			sens = append(sens, t)
		}
		stack = append(stack, t.args...)
		for _, f := range t.facts {
			if !fs[f] {
				fs[f] = true
				facts = append(facts, f)
				stack = append(stack, f)
			}
		}
	}
	sort.Slice(facts, func(i, j int) bool { return facts[i].id < facts[j].id })
	sort.Slice(blits, func(i, j int) bool { return blits[i].id < blits[j].id })
	sort.Slice(sens, func(i, j int) bool { return sens[i].id < sens[j].id })
	return
}

var queryCache = map[string]Result{}

// check decides the conjunction of ts.
func check(ts []*Term, timeoutMS int) Result {
	var cs []*Term
	for _, t := range ts {
		if t == False {
			return Unsat
		}
		if t != True {
			cs = append(cs, t)
		}
	}
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = c.id
	}
	sort.Ints(ids)
	k := fmt.Sprint(ids, timeoutMS)
	if r, ok := queryCache[k]; ok {
		stats.Cached++
		return r
	}
	var r Result
	switch {
	case timeoutMS >= obMS:
		// an obligation: the incremental solver first, briefly
		r = checkRaw(cs, 1500)
		if r == Unknown {
			if c2 := elimCounts(cs); c2 != nil {
				cs = c2
				r = checkRaw(cs, 1500)
			}
		}
		if r == Unknown {
			r = fallback(cs, obMS/1000+5)
		}
	case timeoutMS == candMS:
		// a candidate loop invariant: most of those that do not hold stay undecided
		r = checkRaw(cs, 1500)
		if r == Unknown {
			r = fallback(cs, candMS/1000)
		}
	default:
		r = checkRaw(cs, timeoutMS)
	}
	queryCache[k] = r
	return r
}

// elimCounts replaces the numbers of iterations that the constraints determine (a <= n and n <= a, the
// latter possibly for n >= 1 only) by their values, so that the terms over them are normalised again.
func elimCounts(cs []*Term) []*Term {
	m := countValues(cs, nonneg)
	if m == nil {
		return nil
	}
	var out []*Term
	for _, c := range cs {
		out = append(out, Subst(c, m))
	}
	for v, a := range m { // nothing is lost
		out = append(out, Eq(v, a))
	}
	return out
}
func countValues(cs []*Term, known func(*Term) bool) map[*Term]*Term {
	type bounds struct{ lo, hi []*Term }
	bs := map[*Term]*bounds{}
	var vars []*Term
	add := func(c, only *Term) {
		if c.op != "<=" {
			return
		}
		d := Sub(c.args[1], c.args[0]) // >= 0
		l := toLin(d)
		for _, v := range l.ks {
			if v.op != "var" || !nonnegVar[v] || only != nil && v != only {
				continue
			}
			b := bs[v]
			if b == nil {
				b = &bounds{}
				bs[v] = b
				vars = append(vars, v)
			}
			switch k := l.m[v]; {
			case k.IsInt64() && k.Int64() == 1 && only == nil:
				b.lo = append(b.lo, Sub(v, d))
			case k.IsInt64() && k.Int64() == -1:
				b.hi = append(b.hi, Add(v, d))
			}
		}
	}
	for _, c := range cs {
		add(c, nil)
		if c.op == "=>" && c.args[0].op == "<=" && c.args[0].args[0] == IntC(1) {
			var f func(t *Term)
			f = func(t *Term) {
				if t.op == "and" {
					for _, a := range t.args {
						f(a)
					}
				}
				add(t, c.args[0].args[1])
			}
			f(c.args[1])
		}
	}
	m := map[*Term]*Term{}
	for _, v := range vars {
	pairs:
		for _, a := range bs[v].lo {
			for _, b := range bs[v].hi {
				if a == b && known(a) && !mentions(a, v) {
					m[v] = a
					break pairs
				}
			}
		}
	}
	if len(m) == 0 {
		return nil
	}
	// the values may mention other such numbers
	for i := 0; i < 4; i++ {
		for v, a := range m {
			m[v] = Subst(a, m)
			if mentions(m[v], v) {
				return nil
			}
		}
	}
	return m
}

func checkRaw(cs []*Term, timeoutMS int) Result {
	if theSolver == nil || theSolver.dead {
		theSolver = newSolver()
	}
	s := theSolver
	t0 := time.Now()
	facts, blits, sens := closure(cs)
	var body strings.Builder
	for _, f := range facts {
		body.WriteString("(assert " + s.ref(f) + ")\n")
	}
	// literals of equal length are distinct by content; all literals are pairwise distinct
	if len(blits) > 1 {
		body.WriteString("(assert (distinct")
		for _, b := range blits {
			body.WriteString(" " + s.ref(b))
		}
		body.WriteString("))\n")
	}
	if len(sens) > 1 {
		body.WriteString("(assert (distinct")
		for _, b := range sens {
			body.WriteString(" " + s.ref(b))
		}
		body.WriteString("))\n")
	}
	for _, c := range cs {
		body.WriteString("(assert " + s.ref(c) + ")\n")
	}
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(push 1)\n", timeoutMS))
	s.send(body.String())
	s.send("(check-sat)\n(pop 1)\n(echo \"done\")\n")
	s.in.Flush()
	res := Unknown
	done := make(chan bool, 1)
	go func() {
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				s.dead = true
				break
			}
			line = strings.TrimSpace(line)
			switch line {
			case "unsat":
				res = Unsat
			case "sat":
				res = Sat
			case "unknown", "timeout":
				res = Unknown
			case "done":
				done <- true
				return
			default:
				if strings.Contains(line, "error") {
					fmt.Fprintln(os.Stderr, "SMT:", line)
					if debugErr != "" {
						os.WriteFile(debugErr, []byte(s.log.String()+body.String()), 0644)
					}
					res = Unknown
				}
			}
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(time.Duration(timeoutMS)*time.Millisecond*2 + 5*time.Second):
		s.dead = true
		s.cmd.Process.Kill()
		res = Unknown
	}
	if s.dead {
		s.close()
		theSolver = nil
	}
	d := time.Since(t0)
	stats.Queries++
	stats.Time += d
	if d > stats.Max {
		stats.Max = d
	}
	if slowMS > 0 && d > time.Duration(slowMS)*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow query %v %s\n", d, res)
		if debugErr != "" && s.log != nil {
			os.WriteFile(debugErr, []byte(s.log.String()+body.String()+"(check-sat)\n"), 0644)
		}
	}
	switch res {
	case Unsat:
		stats.Unsat++
	case Sat:
		stats.Sat++
	default:
		stats.Unknown++
	}
	return res
}

var debugErr = os.Getenv("GOCV_DUMP")
var slowMS, _ = strconv.Atoi(os.Getenv("GOCV_SLOWQ"))

// fallback asks fresh processes of several solvers when the incremental one has no answer.
func fallback(cs []*Term, secs int) Result {
	s := &Solver{declared: map[string]bool{}, defined: map[*Term]string{}, log: &strings.Builder{}}
	s.in = bufio.NewWriter(io.Discard)
	for _, n := range []string{"B", "V", "I", "SK", "MM"} {
		s.decl("(declare-sort " + n + " 0)\n")
		s.declared["sort:"+n] = true
	}
	facts, blits, sens := closure(cs)
	var body strings.Builder
	for _, f := range facts {
		body.WriteString("(assert " + s.ref(f) + ")\n")
	}
	for _, l := range [][]*Term{blits, sens} {
		if len(l) > 1 {
			body.WriteString("(assert (distinct")
			for _, b := range l {
				body.WriteString(" " + s.ref(b))
			}
			body.WriteString("))\n")
		}
	}
	for _, c := range cs {
		body.WriteString("(assert " + s.ref(c) + ")\n")
	}
	f, err := os.CreateTemp("", "gocv*.smt2")
	if err != nil {
		return Unknown
	}
	defer os.Remove(f.Name())
	f.WriteString(s.log.String() + body.String() + "(check-sat)\n")
	f.Close()
	t0 := time.Now()
	ch := make(chan Result, 3)
	var cmds []*exec.Cmd
	for _, a := range [][]string{{"z3-new", fmt.Sprintf("-T:%d", secs), f.Name()}, {"z3-new", "smt.random_seed=7", "smt.arith.solver=2", fmt.Sprintf("-T:%d", secs), f.Name()}, {"cvc5", "--arrays-exp", fmt.Sprintf("--tlimit=%d", secs*1000), f.Name()}} {
		c := exec.Command(a[0], a[1:]...)
		cmds = append(cmds, c)
		go func() {
			o, _ := c.Output()
			switch strings.TrimSpace(strings.SplitN(string(o), "\n", 2)[0]) {
			case "unsat":
				ch <- Unsat
			case "sat":
				ch <- Sat
			default:
				ch <- Unknown
			}
		}()
	}
	res := Unknown
	for range cmds {
		if r := <-ch; r != Unknown {
			res = r
			break
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	stats.Fallback++
	stats.Time += time.Since(t0)
	if slowMS > 0 || verbose {
		fmt.Fprintf(os.Stderr, "fallback %v %s\n", time.Since(t0), res)
	}
	return res
}
