package main

// Parser of the contract language.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type Node struct {
	op   string // ident num str call sel index slice bin un ite forall exists
	s    string
	kids []*Node
	vars [][2]string // quantifier variables: name, sort
}

type tok struct {
	k string // id num str op eof
	s string
}

func lexExpr(src string) ([]tok, error) {
	var out []tok
	r := []rune(src)
	ops := []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "++", "::", "&^"}
	for i := 0; i < len(r); {
		c := r[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i
			for j < len(r) && (unicode.IsLetter(r[j]) || unicode.IsDigit(r[j]) || r[j] == '_' || r[j] == '$') {
				j++
			}
			out = append(out, tok{"id", string(r[i:j])})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(r) && (unicode.IsDigit(r[j]) || r[j] == 'x' || r[j] >= 'a' && r[j] <= 'f' || r[j] >= 'A' && r[j] <= 'F') {
				j++
			}
			out = append(out, tok{"num", string(r[i:j])})
			i = j
		case c == '"':
			j := i + 1
			for j < len(r) && r[j] != '"' {
				j++
			}
			if j >= len(r) {
				return nil, fmt.Errorf("unterminated string in %q", src)
			}
			out = append(out, tok{"str", string(r[i+1 : j])})
			i = j + 1
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(string(r[i:]), o) {
					out = append(out, tok{"op", o})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""}), nil
}

type parser struct {
	ts  []tok
	i   int
	src string
}

func (p *parser) peek() tok { return p.ts[p.i] }
func (p *parser) next() tok { t := p.ts[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	return p.peek().k == "op" && p.peek().s == s
}
func (p *parser) expect(s string) {
	if t := p.next(); t.s != s || t.k == "str" {
		panic(fmt.Errorf("expected %q, got %q in %q", s, t.s, p.src))
	}
}

func parseExpr(src string) (n *Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	ts, err := lexExpr(src)
	if err != nil {
		return nil, err
	}
	p := &parser{ts: ts, src: src}
	n = p.expr(0)
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing %q in %q", p.peek().s, src)
	}
	return n, nil
}

var prec = map[string]int{"?": 1, "<==>": 2, "==>": 3, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6,
	"+": 7, "-": 7, "|": 7, "^": 7, "++": 7, "*": 8, "/": 8, "%": 8, "<<": 8, ">>": 8, "&": 8, "&^": 8}

func (p *parser) expr(min int) *Node {
	l := p.unary()
	for {
		t := p.peek()
		op := t.s
		if t.k == "str" || t.k == "num" || t.k == "eof" || (t.k == "id" && op != "in") {
			return l
		}
		pr, ok := prec[op]
		if !ok || pr < min {
			return l
		}
		p.next()
		switch op {
		case "?":
			a := p.expr(1)
			p.expect(":")
			b := p.expr(1)
			l = &Node{op: "ite", kids: []*Node{l, a, b}}
		case "==>":
			l = &Node{op: "bin", s: op, kids: []*Node{l, p.expr(pr)}}
		default:
			l = &Node{op: "bin", s: op, kids: []*Node{l, p.expr(pr + 1)}}
		}
	}
}

func (p *parser) unary() *Node {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*" || t.s == "&") {
		p.next()
		return &Node{op: "un", s: t.s, kids: []*Node{p.unary()}}
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(n *Node) *Node {
	for {
		switch {
		case p.is("."):
			p.next()
			t := p.next()
			if t.k != "id" {
				panic(fmt.Errorf("selector expected in %q", p.src))
			}
			n = &Node{op: "sel", s: t.s, kids: []*Node{n}}
		case p.is("("):
			p.next()
			c := &Node{op: "call", kids: []*Node{n}}
			for !p.is(")") {
				c.kids = append(c.kids, p.expr(0))
				if p.is(",") {
					p.next()
				}
			}
			p.next()
			n = c
		case p.is("["):
			p.next()
			var lo, hi *Node
			if !p.is(":") {
				lo = p.expr(2)
			}
			if p.is(":") {
				p.next()
				if !p.is("]") {
					hi = p.expr(2)
				}
				p.expect("]")
				n = &Node{op: "slice", kids: []*Node{n, lo, hi}}
			} else {
				p.expect("]")
				n = &Node{op: "index", kids: []*Node{n, lo}}
			}
		default:
			return n
		}
	}
}

func (p *parser) primary() *Node {
	t := p.next()
	switch t.k {
	case "num":
		return &Node{op: "num", s: t.s}
	case "str":
		return &Node{op: "str", s: t.s}
	case "id":
		if t.s == "forall" || t.s == "exists" {
			n := &Node{op: t.s}
			for {
				v := p.next()
				so := p.next()
				n.vars = append(n.vars, [2]string{v.s, so.s})
				if p.is(",") {
					p.next()
					continue
				}
				break
			}
			p.expect("::")
			n.kids = []*Node{p.expr(1)}
			return n
		}
		return &Node{op: "ident", s: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
	}
	panic(fmt.Errorf("unexpected %q in %q", t.s, p.src))
}

// ---------- declarations

type Clause struct {
	kind   string // ensures requires assume let cover stable define lemma have induct
	ivar   string // induct: the variable, its bounds, and the conclusion
	induct []*Node
	tags   []string
	name   string
	expr   *Node
	src    string
	line   string

	vname, vsort string // loop invariants: the variable of the loop
	params       []int  // loop forms: the values of P to try
	down         *Node  // loop forms: the number of iterations, for a form over those left
}

type SetupStep struct {
	kind string // var call assume recv attr arg
	lhs  []string
	typ  string
	fn   string
	args []*Node
	expr *Node
	src  string
}

type Contract struct {
	loopinvs []*Clause
	forms    []*Clause
	key      string
	params   []string
	results  []string
	use      bool
	trusted  string
	bounded  string
	setup    []SetupStep
	clauses  []*Clause
	lets     map[string]*Node
	draws    [][2]string
	yields   []yield
	unmarsh  [2]*Node // effect: on success decode [1] into [0]
	opens    []string
	modif    []string
	opts     map[string]string
	file     string
	props    []string
}
type yield struct {
	res, typ string
	attrs    map[string]*Node
}

type Macro struct {
	name   string
	params []string
	psorts []string
	res    string
	body   *Node
	opaque string // package in which an opaque function is expanded
}

type FactRule struct {
	name   string
	params []string
	body   *Node
}

type Spec struct {
	contracts map[string]*Contract
	order     []*Contract
	macros    map[string]*Macro
	setups    map[string][]string
	facts     map[string][]*FactRule
	absTypes  map[string]map[string]string
	invs      map[string]*Node
	invSrc    map[string]string
	known     []string
	factDepth int
	standing  []string          // assumptions stated in the contracts
	levels    map[string]string // level of a property when it is not proof
}

func splitNames(s string) []string {
	var o []string
	for _, f := range strings.Split(s, ",") {
		if f = strings.TrimSpace(f); f != "" {
			o = append(o, f)
		}
	}
	return o
}

// logical lines: a line that starts with whitespace deeper than its clause continues it when it begins
// with a continuation mark "|" ; simpler: lines ending with \ continue.
func readLogical(path string) ([]string, []int, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	var out []string
	var nums []int
	cur := ""
	start := 0
	for i, l := range strings.Split(string(b), "\n") {
		if k := strings.Index(l, "#"); k >= 0 && (k == 0 || l[k-1] == ' ' || l[k-1] == '\t') {
			l = l[:k]
		}
		l = strings.TrimRight(l, " \t")
		if cur == "" {
			start = i + 1
		}
		if strings.HasSuffix(l, "\\") {
			cur += strings.TrimSuffix(l, "\\") + " "
			continue
		}
		cur += l
		if strings.TrimSpace(cur) != "" {
			out = append(out, cur)
			nums = append(nums, start)
		}
		cur = ""
	}
	return out, nums, nil
}

func loadSpec(dir string) (*Spec, error) {
	sp := &Spec{contracts: map[string]*Contract{}, macros: map[string]*Macro{}, setups: map[string][]string{}, facts: map[string][]*FactRule{},
		absTypes: map[string]map[string]string{}, invs: map[string]*Node{}, invSrc: map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		lines, nums, err := readLogical(f)
		if err != nil {
			return nil, err
		}
		var ct *Contract
		var setupName string
		for i, l := range lines {
			where := fmt.Sprintf("%s:%d", filepath.Base(f), nums[i])
			indented := l[0] == ' ' || l[0] == '\t'
			t := strings.TrimSpace(l)
			word, rest := t, ""
			if k := strings.IndexAny(t, " \t"); k >= 0 {
				word, rest = t[:k], strings.TrimSpace(t[k:])
			}
			if err := sp.line(f, where, indented, word, rest, &ct, &setupName); err != nil {
				return nil, fmt.Errorf("%s: %v", where, err)
			}
		}
	}
	// resolve setup blocks
	for _, c := range sp.order {
		var out []SetupStep
		for _, s := range c.setup {
			if s.kind == "block" {
				ls, ok := sp.setups[s.fn]
				if !ok {
					return nil, fmt.Errorf("%s: no setup %q", c.key, s.fn)
				}
				for _, l := range ls {
					st, err := parseSetup(l)
					if err != nil {
						return nil, fmt.Errorf("%s: %v", c.key, err)
					}
					out = append(out, st)
				}
				continue
			}
			out = append(out, s)
		}
		c.setup = out
	}
	return sp, nil
}

func parseSetup(t string) (SetupStep, error) {
	word, rest := t, ""
	if k := strings.IndexAny(t, " \t"); k >= 0 {
		word, rest = t[:k], strings.TrimSpace(t[k:])
	}
	s := SetupStep{kind: word, src: t}
	var err error
	switch word {
	case "var", "world":
		k := strings.IndexAny(rest, " \t")
		s.lhs = splitNames(rest[:k])
		s.typ = strings.TrimSpace(rest[k:])
	case "call":
		k := strings.Index(rest, "=")
		s.lhs = splitNames(rest[:k])
		e, er := parseExpr(strings.TrimSpace(rest[k+1:]))
		if er != nil {
			return s, er
		}
		if e.op != "call" {
			return s, fmt.Errorf("call expected: %s", t)
		}
		s.expr = e
		s.args = e.kids[1:]
	case "assume", "recv", "havoc":
		s.expr, err = parseExpr(rest)
	case "attr", "let", "ref":
		k := strings.Index(rest, "=")
		s.lhs = []string{strings.TrimSpace(rest[:k])}
		s.expr, err = parseExpr(rest[k+1:])
	case "setup":
		s.kind = "block"
		s.fn = rest
	default:
		return s, fmt.Errorf("unknown setup step %q", t)
	}
	return s, err
}

func (sp *Spec) line(file, where string, indented bool, word, rest string, pct **Contract, psetup *string) error {
	if !indented {
		*psetup = ""
		*pct = nil
		switch word {
		case "contract", "lemma":
			// contract key (params) (results)
			k := strings.Index(rest, " (")
			if k < 0 {
				return fmt.Errorf("contract needs parameters")
			}
			c := &Contract{key: strings.TrimSpace(rest[:k]), lets: map[string]*Node{}, opts: map[string]string{}, file: filepath.Base(file)}
			r := strings.TrimSpace(rest[k:])
			j := strings.Index(r, ")")
			c.params = splitNames(r[1:j])
			r = strings.TrimSpace(r[j+1:])
			if r != "" {
				c.results = splitNames(strings.Trim(r, "()"))
			}
			id := c.key
			if word == "lemma" {
				c.opts["lemma"] = "1"
			}
			if sp.contracts[id] != nil {
				return fmt.Errorf("duplicate contract %s", id)
			}
			sp.contracts[id] = c
			sp.order = append(sp.order, c)
			*pct = c
		case "def", "opaque", "func":
			return sp.macro(word, rest)
		case "fact":
			k := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			name := strings.TrimSpace(rest[:k])
			e := strings.Index(rest, ":")
			body, err := parseExpr(rest[e+1:])
			if err != nil {
				return err
			}
			sp.facts[name] = append(sp.facts[name], &FactRule{name, splitNames(rest[k+1 : j]), body})
		case "assumption":
			sp.standing = append(sp.standing, rest)
		case "level":
			f := strings.Fields(rest)
			if sp.levels == nil {
				sp.levels = map[string]string{}
			}
			sp.levels[f[0]] = f[1]
		case "setup":
			*psetup = rest
			sp.setups[rest] = []string{}
		case "abstract":
			// abstract crypto.KWP kek
			f := strings.Fields(rest)
			m := map[string]string{}
			for _, a := range f[1:] {
				m[a] = "B"
			}
			sp.absTypes[f[0]] = m
		case "invariant":
			k := strings.Index(rest, ":")
			e, err := parseExpr(rest[k+1:])
			if err != nil {
				return err
			}
			sp.invs[strings.TrimSpace(rest[:k])] = e
			sp.invSrc[strings.TrimSpace(rest[:k])] = strings.TrimSpace(rest[k+1:])
		default:
			return fmt.Errorf("unknown declaration %q", word)
		}
		return nil
	}
	if *psetup != "" {
		sp.setups[*psetup] = append(sp.setups[*psetup], word+" "+rest)
		return nil
	}
	c := *pct
	if c == nil {
		return fmt.Errorf("clause outside a contract: %s %s", word, rest)
	}
	switch word {
	case "use":
		c.use = true
	case "trusted":
		c.trusted = rest
	case "bounded":
		c.bounded = rest
	case "setup", "var", "call", "recv", "attr", "world", "havoc", "ref":
		s, err := parseSetup(word + " " + rest)
		if err != nil {
			return err
		}
		c.setup = append(c.setup, s)
	case "opens":
		c.opens = splitNames(rest)
	case "modifies":
		c.modif = splitNames(rest)
	case "props":
		c.props = splitNames(rest)
	case "draws":
		for _, d := range strings.Fields(rest) {
			k := strings.Index(d, ":")
			c.draws = append(c.draws, [2]string{d[:k], d[k+1:]})
		}
	case "option":
		k := strings.IndexAny(rest, " \t")
		if k < 0 {
			c.opts[rest] = "1"
		} else {
			c.opts[rest[:k]] = strings.TrimSpace(rest[k:])
		}
	case "yields":
		// yields c crypto.Cryptor kek = expr
		f := strings.Fields(rest)
		k := strings.Index(rest, "=")
		y := yield{res: f[0], typ: f[1], attrs: map[string]*Node{}}
		e, err := parseExpr(rest[k+1:])
		if err != nil {
			return err
		}
		y.attrs[f[2]] = e
		c.yields = append(c.yields, y)
	case "decodes":
		// decodes target from expr
		k := strings.Index(rest, " from ")
		a, err := parseExpr(rest[:k])
		if err != nil {
			return err
		}
		b, err := parseExpr(rest[k+6:])
		if err != nil {
			return err
		}
		c.unmarsh = [2]*Node{a, b}
	case "let":
		k := strings.Index(rest, "=")
		e, err := parseExpr(rest[k+1:])
		if err != nil {
			return err
		}
		c.lets[strings.TrimSpace(rest[:k])] = e
	case "loopinv":
		// loopinv name [(v sort)]: expr over iter (the iteration number) and v (any variable of that sort)
		cl := &Clause{kind: word, line: where, src: rest}
		k := strings.Index(rest, ":")
		h := strings.TrimSpace(rest[:k])
		if j := strings.Index(h, "("); j >= 0 {
			f := strings.Fields(strings.Trim(h[j:], "()"))
			cl.vname, cl.vsort = f[0], f[1]
			h = strings.TrimSpace(h[:j])
		}
		cl.name = h
		e, err := parseExpr(rest[k+1:])
		if err != nil {
			return err
		}
		cl.expr = e
		c.loopinvs = append(c.loopinvs, cl)
	case "loopform":
		// loopform name lo hi [down T]: expr over P in lo..hi and iter, the iteration number (or left, the
		// number of iterations left of T): the start of a byte-string variable of a loop
		cl := &Clause{kind: word, line: where, src: rest}
		k := strings.Index(rest, ": ")
		f := strings.Fields(rest[:k])
		cl.name = f[0]
		lo, _ := strconv.Atoi(f[1])
		hi, _ := strconv.Atoi(f[2])
		for i := lo; i <= hi; i++ {
			cl.params = append(cl.params, i)
		}
		if len(f) > 4 && f[3] == "down" {
			e, err := parseExpr(strings.Join(f[4:], " "))
			if err != nil {
				return err
			}
			cl.down = e
		}
		e, err := parseExpr(rest[k+1:])
		if err != nil {
			return err
		}
		cl.expr = e
		c.forms = append(c.forms, cl)
	case "ensures", "requires", "assume", "cover", "stable", "each", "given", "define", "lemma", "have", "induct":
		cl := &Clause{kind: word, line: where}
		r := rest
		if strings.HasPrefix(r, "[") {
			k := strings.Index(r, "]")
			cl.tags = splitNames(r[1:k])
			r = strings.TrimSpace(r[k+1:])
		}
		if k := strings.Index(r, ": "); k > 0 && isIdent(r[:k]) {
			cl.name = r[:k]
			r = strings.TrimSpace(r[k+2:])
		} else {
			cl.name = fmt.Sprintf("%s%d", word, len(c.clauses))
		}
		cl.src = r
		if word == "induct" { // induct [tags] name: VAR LO HI: P(VAR)
			k := strings.Index(r, ":")
			if k < 0 || len(strings.Fields(r[:k])) != 3 {
				return fmt.Errorf("induct wants VAR LO HI: P")
			}
			f := strings.Fields(r[:k])
			for _, src := range []string{f[1], f[2], fmt.Sprintf("forall %s Int :: %s <= %s && %s <= %s ==> (%s)", f[0], f[1], f[0], f[0], f[2], r[k+1:])} {
				e, err := parseExpr(src)
				if err != nil {
					return err
				}
				cl.induct = append(cl.induct, e)
			}
			cl.ivar = f[0]
			r = r[k+1:]
		}
		e, err := parseExpr(r)
		if err != nil {
			return err
		}
		cl.expr = e
		c.clauses = append(c.clauses, cl)
	default:
		return fmt.Errorf("unknown clause %q", word)
	}
	return nil
}

func isIdent(s string) bool {
	for _, r := range s {
		if !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '-') {
			return false
		}
	}
	return s != ""
}

// def f(a, b) = expr | opaque f(a:B, b:B) Bool @crypto = expr | func f(B, Int) Bool
func (sp *Spec) macro(word, rest string) error {
	if k, e := strings.Index(rest, "("), strings.Index(rest, "="); e >= 0 && (k < 0 || e < k) {
		rest = rest[:e] + "() " + rest[e:]
	}
	k := strings.Index(rest, "(")
	j := strings.Index(rest, ")")
	m := &Macro{name: strings.TrimSpace(rest[:k])}
	for _, p := range splitNames(rest[k+1 : j]) {
		if i := strings.Index(p, ":"); i >= 0 {
			m.params = append(m.params, strings.TrimSpace(p[:i]))
			m.psorts = append(m.psorts, strings.TrimSpace(p[i+1:]))
		} else {
			m.params = append(m.params, p)
			m.psorts = append(m.psorts, p)
		}
	}
	r := strings.TrimSpace(rest[j+1:])
	if word == "func" {
		m.res = r
		m.opaque = "-"
		sp.macros[m.name] = m
		return nil
	}
	e := strings.Index(r, "=")
	head := strings.TrimSpace(r[:e])
	if word == "opaque" {
		f := strings.Fields(head)
		m.res = f[0]
		m.opaque = strings.TrimPrefix(f[1], "@")
	}
	b, err := parseExpr(r[e+1:])
	if err != nil {
		return err
	}
	m.body = b
	sp.macros[m.name] = m
	return nil
}
