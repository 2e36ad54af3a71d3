package main

// A unit is the verification of one function against its contract.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Ob struct {
	Name   string   `json:"name"`
	Kind   string   `json:"kind"`
	Tags   []string `json:"tags,omitempty"`
	Paths  int      `json:"paths"`
	Result string   `json:"result"` // discharged refuted unknown
	Detail string   `json:"detail,omitempty"`
	MS     int64    `json:"ms"`
}

type Unit struct {
	key    string
	ct     *Contract
	prop   string
	obs    map[string]*Ob
	order  []string
	env    *Env
	env0   *Env
	covers map[string]bool
	paths  int
	stopOn bool
}

var kindTags = map[string][]string{
	"panic": {"C26"}, "overflow": {"C26"}, "frame": {"C25"}, "alias": {"C21", "C22"},
}

func (u *Unit) relevant(tags []string) bool {
	if u.prop == "" || len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if t == u.prop {
			return true
		}
	}
	return false
}

func (u *Unit) ob(name, kind string, tags []string) *Ob {
	o := u.obs[name]
	if o == nil {
		o = &Ob{Name: name, Kind: kind, Tags: tags, Result: "discharged"}
		u.obs[name] = o
		u.order = append(u.order, name)
	}
	return o
}

func (u *Unit) obligation(x *Exec, st *State, kind, what string, pos token.Pos, c *Term) {
	tags := kindTags[kind]
	if kind == "panic" || kind == "overflow" {
		tags = append(append([]string{}, tags...), splitNames(u.ct.opts["panics"])...)
	}
	if !u.relevant(tags) {
		return
	}
	u.prove(x, st, kind+": "+what+" at "+x.prog.pos(pos), kind, tags, c)
}

func (u *Unit) prove(x *Exec, st *State, name, kind string, tags []string, c *Term) bool {
	o := u.ob(name, kind, tags)
	o.Paths++
	if o.Result == "refuted" {
		return false
	}
	t0 := time.Now()
	r := Unsat
	if c != True && !st.infeasible() && !st.known[c] {
		r = check(append(append([]*Term{}, st.pc...), Not(x.skolem(c))), obMS)
		if d := time.Since(t0); slowMS > 0 && d > time.Duration(slowMS)*time.Millisecond {
			fmt.Fprintf(os.Stderr, "slow obligation %v %s: %s\n", d, name, c)
		}
	}
	o.MS += time.Since(t0).Milliseconds()
	if r == Unsat {
		return true
	}
	o.Result = "unknown"
	if r == Sat {
		o.Result = "refuted"
	}
	if verbose {
		fmt.Fprintf(os.Stderr, "FAILED %s %s (%s)\n  goal: %s\n  pc:\n", u.key, name, r, c)
		for _, p := range st.pc {
			fmt.Fprintf(os.Stderr, "    %s\n", p)
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "solver: %s\ngoal: %s\npath condition:\n", r, c)
	for _, p := range st.pc {
		s := p.String()
		if len(s) > 400 {
			s = s[:400] + "…"
		}
		fmt.Fprintf(&sb, "  %s\n", s)
	}
	if sb.Len() < 8000 {
		o.Detail = sb.String()
	} else {
		o.Detail = sb.String()[:8000]
	}
	return false
}

// skolem replaces the variables of the universal quantifiers of a goal by new constants, so that the
// facts of the terms in it are stated for them.
func (x *Exec) skolem(c *Term) *Term {
	switch c.op {
	case "forall":
		m := map[*Term]*Term{}
		saved := x.fidx
		x.fidx = nil
		for _, v := range c.args[:len(c.args)-1] {
			m[v] = x.fresh("any", v.sort)
		}
		x.fidx = saved
		return x.skolem(Subst(c.args[len(c.args)-1], m))
	case "=>":
		return Imp(c.args[0], x.skolem(c.args[1]))
	case "and", "or":
		var as []*Term
		for _, a := range c.args {
			as = append(as, x.skolem(a))
		}
		if c.op == "and" {
			return And(as...)
		}
		return Or(as...)
	}
	return c
}

var verbose = os.Getenv("GOCV_V") != ""

type UnitResult struct {
	Key         string            `json:"key"`
	Prop        string            `json:"prop"`
	Obs         []*Ob             `json:"obs"`
	Undecided   string            `json:"undecided,omitempty"`
	Inlined     []string          `json:"inlined,omitempty"`
	Used        []string          `json:"used,omitempty"`
	Models      []string          `json:"models,omitempty"`
	Assumptions []string          `json:"assumptions,omitempty"`
	Loops       map[string]string `json:"loops,omitempty"`
	Bounded     string            `json:"bounded,omitempty"`
	Paths       int               `json:"paths"`
	MS          int64             `json:"ms"`
	SolverMS    int64             `json:"solver_ms"`
	Queries     int               `json:"queries"`
}

func keysOfMap(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func newExec(P *Program, u *Unit) *Exec {
	return &Exec{prog: P, unit: u, maxSteps: 400000, opens: map[string]bool{}, noUse: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{},
		models: map[string]bool{}, assumes: map[string]bool{}, loopsN: map[string]string{}}
}

func pkgOfKey(k string) string {
	if i := strings.Index(k, ".("); i >= 0 {
		return k[:i]
	}
	return k[:strings.LastIndex(k, ".")]
}

func verify(P *Program, key, prop string) (res *UnitResult) {
	t0 := time.Now()
	ct := P.spec.contracts[key]
	if theSolver != nil {
		theSolver.close()
		theSolver = nil
	}
	s0 := stats
	u := &Unit{key: key, ct: ct, prop: prop, obs: map[string]*Ob{}, covers: map[string]bool{}}
	x := newExec(P, u)
	res = &UnitResult{Key: key, Prop: prop, Bounded: ct.bounded}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case Unsupported:
				res.Undecided = "outside the verifier's reach: " + e.msg
				if len(x.callS) > 0 {
					res.Undecided += " (in " + strings.Join(x.callS, " > ") + ")"
				}
			case SpecErr:
				res.Undecided = "contract cannot be evaluated: " + e.msg
			default:
				if os.Getenv("GOCV_PANIC") != "" {
					panic(r)
				}
				res.Undecided = fmt.Sprintf("internal error: %v", r)
			}
		}
		decide = nil
		x.curSt = nil
		for _, n := range u.order {
			res.Obs = append(res.Obs, u.obs[n])
		}
		for n, ok := range u.covers {
			if !ok {
				o := u.ob("cover: "+n, "cover", nil)
				o.Result = "refuted"
				o.Detail = "no execution reaches the covered situation"
				res.Obs = append(res.Obs, o)
			}
		}
		res.Inlined, res.Used, res.Models, res.Assumptions = keysOfMap(x.inlined), keysOfMap(x.used), keysOfMap(x.models), keysOfMap(x.assumes)
		res.Loops = x.loopsN
		res.Paths = u.paths
		res.MS = time.Since(t0).Milliseconds()
		res.SolverMS = (stats.Time - s0.Time).Milliseconds()
		res.Queries = stats.Queries - s0.Queries
	}()
	u.run(x)
	return
}

func (u *Unit) run(x *Exec) {
	P, ct := x.prog, u.ct
	fkey := ct.key
	if f, ok := ct.opts["of"]; ok { // a second contract of the same function
		fkey = f
	}
	fn := P.lookupFn(fkey)
	if fn == nil && ct.opts["optional"] != "" {
		return // a contract of an internal function that a change may remove
	}
	if fn == nil {
		unsupported("function %s not found", fkey)
	}
	x.noUse[fkey] = true
	if v, ok := ct.opts["feas"]; ok { // milliseconds spent on the feasibility of a path
		saved := feasMS
		feasMS, _ = strconv.Atoi(v)
		defer func() { feasMS = saved }()
	}
	for _, o := range ct.opens {
		x.opens[o] = true
	}
	for _, k := range splitNames(ct.opts["len"]) {
		if x.fixLen == nil {
			x.fixLen = map[string]int64{}
		}
		i := strings.Index(k, "=")
		n, _ := strconv.Atoi(k[i+1:])
		x.fixLen[k[:i]] = int64(n)
	}
	for _, k := range splitNames(ct.opts["inline"]) {
		x.noUse[k] = true
	}
	if len(ct.params) != len(fn.Params) {
		unsupported("contract of %s has %d parameters, the function has %d", fkey, len(ct.params), len(fn.Params))
	}
	st := P.base.clone()
	x.setDecide(st)
	e0 := &Env{x: x, cur: st, vars: map[string]EV{}, lets: ct.lets, attrs: map[string]map[string]*Term{}, expand: pkgOfKey(fkey), ct: ct, drawVars: map[string]*Term{}}
	if v, ok := ct.opts["expand"]; ok {
		e0.expand = v
	}
	for _, d := range ct.draws {
		e0.drawVars[d[0]] = nil
	}
	envs := []*Env{e0}
	var recv *Node
	attrs := map[string]*Node{}
	x.unit = nil // the setup itself gives no obligations
	for _, s := range ct.setup {
		var next []*Env
		for _, e := range envs {
			x.setDecide(e.cur)
			switch s.kind {
			case "recv":
				recv = s.expr
				next = append(next, e)
			case "attr":
				attrs[s.lhs[0]] = s.expr
				next = append(next, e)
			default:
				next = append(next, x.setupStep(e, s, ct)...)
			}
		}
		envs = next
	}
	x.unit = u
	if len(envs) == 0 {
		u.ob("setup", "cover", nil).Result = "refuted"
		u.obs["setup"].Detail = "the setup has no execution"
		return
	}
	if !u.hasRelevant() {
		return
	}
	for _, c := range ct.clauses {
		if c.kind == "cover" && u.relevant(c.tags) {
			u.covers[c.name] = false
		}
	}
	for _, e := range envs {
		u.runFrom(x, e, fn, recv, attrs)
	}
	if u.paths == 0 {
		o := u.ob("some execution returns", "cover", nil)
		o.Result = "refuted"
		o.Detail = "no execution of the function returns"
	}
}

func (u *Unit) hasRelevant() bool {
	if only := u.ct.opts["only"]; only != "" && u.prop != "" && u.prop != only {
		return false
	}
	if u.prop == "" || u.prop == "C26" || u.prop == "C25" {
		return true
	}
	for _, c := range u.ct.clauses {
		if c.kind != "assume" && c.kind != "requires" && u.relevant(c.tags) {
			return true
		}
	}
	for _, p := range u.ct.props {
		if p == u.prop {
			return true
		}
	}
	return false
}

func (u *Unit) runFrom(x *Exec, e *Env, fn *ssa.Function, recv *Node, attrs map[string]*Node) {
	ct := u.ct
	st := e.cur
	x.setDecide(st)
	var args []Value
	for i, p := range fn.Params {
		name := ct.params[i]
		if v, ok := e.vars[name]; ok { // given by the setup
			vv := v.v
			if types.IsInterface(p.Type()) && v.t != nil && !types.IsInterface(v.t) {
				if _, isTerm := vv.(*Term); !isTerm || scalarSort(v.t) != SI {
					vv = IfaceV{v.t, vv}
				}
			}
			args = append(args, vv)
			continue
		}
		if i == 0 && recv != nil {
			v := e.eval(recv)
			pv, ok := v.v.(PtrV)
			if !ok {
				if _, isPtr := p.Type().Underlying().(*types.Pointer); isPtr {
					o := x.newObj(st, "receiver", p.Type().Underlying().(*types.Pointer).Elem(), v.v)
					pv = notNil(o)
					args = append(args, pv)
				} else {
					args = append(args, v.v)
				}
			} else {
				args = append(args, pv)
			}
			e.vars[name] = EV{v: args[0], t: p.Type()}
			continue
		}
		v := x.symValue(st, p.Type(), name, true)
		args = append(args, v)
		e.vars[name] = EV{v: v, t: p.Type()}
	}
	if len(attrs) > 0 {
		m := map[string]*Term{}
		for k, n := range attrs {
			m[k] = e.tm(n)
		}
		e.attrs[ct.params[0]] = m
	}
	// names of spare caller memory in modifies are parameter names
	for _, c := range ct.clauses {
		if c.kind == "requires" || c.kind == "assume" {
			st.assume(e.boolean(c.expr))
		}
	}
	u.lemmas(x, e, st)
	if !x.feasible(st, True) {
		return
	}
	old := st.clone()
	old.events, old.draws = st.events, st.draws
	for o, m := range objMeta {
		if m.caller {
			if v, ok := st.heap[o]; ok {
				m.init = v
			}
		}
	}
	e.old = old
	e.evBase, e.drawBase, e.gapBase = len(st.events), len(st.draws), len(st.gapEv)
	st.ghost["rndfail"] = False
	u.env = e
	x.setDecide(st)
	if ct.use {
		u.usable(x, st, fn, args)
	}
	outs := x.callFn(st, fn, args, nil, 0)
	for _, o := range outs {
		if o.kind != OReturn {
			unsupported("abnormal outcome")
		}
		x.setDecide(o.st)
		if o.st.infeasible() {
			continue
		}
		u.post(x, e, fn, o)
	}
}

// lemmas proves the lemmas of a contract from the definitions it states (and from nothing else) and
// assumes the conclusions of the lemmas, but not of the steps to them, in st. Definitions are recursive
// equations and choices of a witness, so that functions with these properties exist.
func (u *Unit) lemmas(x *Exec, e *Env, st *State) {
	var ctx *State
	for _, c := range u.ct.clauses {
		if c.kind != "define" && c.kind != "lemma" && c.kind != "have" && c.kind != "induct" {
			continue
		}
		if ctx == nil {
			ctx = x.prog.base.clone()
		}
		at := func(n *Node, v *Term) *Term {
			le := *e
			le.vars = map[string]EV{}
			for k, w := range e.vars {
				le.vars[k] = w
			}
			if v != nil {
				le.vars[c.ivar] = EV{v: v, t: tInt}
			}
			return le.boolean(n)
		}
		x.setDecide(ctx)
		switch c.kind {
		case "define":
			ctx.assume(at(c.expr, nil))
		case "lemma", "have":
			g := at(c.expr, nil)
			if u.relevant(c.tags) {
				u.prove(x, ctx, "lemma "+c.name+": "+c.src, "lemma", c.tags, g)
			}
			ctx.assume(g)
			if c.kind == "lemma" {
				st.assume(g)
			}
		case "induct":
			lo, hi := e.tm(c.induct[0]), e.tm(c.induct[1])
			if u.relevant(c.tags) {
				u.prove(x, ctx, "lemma "+c.name+", first: "+c.src, "lemma", c.tags, Imp(Le(lo, hi), at(c.expr, lo)))
				k := x.fresh(c.ivar, SInt)
				u.prove(x, ctx, "lemma "+c.name+", step: "+c.src, "lemma", c.tags, Imp(And(Le(lo, k), Lt(k, hi), at(c.expr, k)), at(c.expr, Add(k, IntC(1)))))
			}
			ctx.assume(at(c.induct[2], nil))
		}
	}
	x.setDecide(st)
}

// usable checks that the contract as callers see it admits a normal and a failing outcome.
func (u *Unit) usable(x *Exec, st *State, fn *ssa.Function, args []Value) {
	s := st.clone()
	x.quiet++
	env := u.env
	u.env = nil
	x.useAttrs = env.attrs
	rs := x.applyContract(s, u.ct, fn, args, nil)
	x.useAttrs = nil
	u.env = env
	x.quiet--
	x.setDecide(st)
	sig := fn.Signature.Results()
	want := 1
	if sig.Len() > 0 && typeName(sig.At(sig.Len()-1).Type()) == "error" {
		want = 2
	}
	o := u.ob("callers see every outcome of the contract", "cover", nil)
	if len(rs) < want && u.ct.opts["total"] == "" {
		o.Result = "refuted"
		o.Detail = fmt.Sprintf("the contract admits %d of %d outcomes", len(rs), want)
	}
}

func (u *Unit) post(x *Exec, e0 *Env, fn *ssa.Function, o Outcome) {
	ct := u.ct
	if check(o.st.pc, 500) == Unsat {
		return // no such execution
	}
	u.paths++
	ne := *e0
	e := &ne
	e.cur = o.st
	e.vars = map[string]EV{}
	for k, v := range e0.vars {
		e.vars[k] = v
	}
	bindResults(e, ct, fn, o.ret)
	e.drawVars = map[string]*Term{}
	for i, d := range ct.draws {
		var t *Term
		if k := e.drawBase + i; k < len(o.st.draws) {
			t = o.st.draws[k]
		}
		e.drawVars[d[0]] = t
	}
	for _, c := range ct.clauses {
		if !u.relevant(c.tags) {
			continue
		}
		switch c.kind {
		case "ensures":
			x.undefNote = ""
			g := u.evalClause(x, e, c)
			ok := u.prove(x, o.st, "ensures "+c.name+": "+c.src, "ensures", c.tags, g)
			if !ok && x.undefNote != "" && u.obs["ensures "+c.name+": "+c.src].Detail != "" {
				u.obs["ensures "+c.name+": "+c.src].Detail += "\nnote: " + x.undefNote
			}
		case "cover":
			if !u.covers[c.name] {
				g := u.evalClause(x, e, c)
				if g != False && check(append(append([]*Term{}, o.st.pc...), g), feasMS) != Unsat {
					u.covers[c.name] = true
				}
			}
		}
	}
	if ct.unmarsh[0] != nil {
		n, _ := parseExpr(`err == nil ==> nevk("Unmarshal") == 1 && evk("Unmarshal", 0).target == $T && evk("Unmarshal", 0).data == $D`)
		substNode(n, "$T", ct.unmarsh[0])
		substNode(n, "$D", ct.unmarsh[1])
		u.prove(x, o.st, "decodes into the target", "ensures", nil, u.evalClause(x, e, &Clause{name: "decodes", expr: n, src: "decodes"}))
	}
	if u.relevant(u.frameTags()) {
		u.frame(x, e, o.st)
	}
}

func (u *Unit) frameTags() []string {
	return append(append([]string{}, kindTags["frame"]...), splitNames(u.ct.opts["frame"])...)
}

func (x *Exec) invNote(v EV) string {
	if iv, ok := v.v.(IfaceV); ok {
		v.t = iv.Dyn
	}
	if p, ok := v.t.Underlying().(*types.Pointer); ok {
		n := absName(p.Elem())
		return n + ": " + x.prog.spec.invSrc[n]
	}
	return ""
}

func substNode(n *Node, name string, by *Node) {
	for i, k := range n.kids {
		if k == nil {
			continue
		}
		if k.op == "ident" && k.s == name {
			n.kids[i] = by
		} else {
			substNode(k, name, by)
		}
	}
}

// evalClause evaluates a clause; an expression without a value on this path is false.
func (u *Unit) evalClause(x *Exec, e *Env, c *Clause) (r *Term) {
	defer func() {
		if rr := recover(); rr != nil {
			if s, ok := rr.(SpecErr); ok {
				if s.undef {
					x.undefNote = s.msg
					r = False
					return
				}
				panic(SpecErr{c.line + " " + c.name + ": " + s.msg, false})
			}
			panic(rr)
		}
	}()
	return e.boolean(c.expr)
}

func bindResults(e *Env, ct *Contract, fn *ssa.Function, ret Value) {
	rs := fn.Signature.Results()
	if rs.Len() != len(ct.results) {
		unsupported("contract of %s has %d results, the function has %d", ct.key, len(ct.results), rs.Len())
	}
	for i, n := range ct.results {
		v := ret
		if rs.Len() > 1 {
			v = ret.(TupleV).E[i]
		}
		e.vars[n] = EV{v: v, t: rs.At(i).Type()}
	}
}

// frame: memory of the caller is unchanged unless the contract lists it.
func (u *Unit) frame(x *Exec, e *Env, st *State) {
	for o, m := range objMeta {
		if !m.caller {
			continue
		}
		if _, ok := e.old.heap[o]; !ok && !strings.HasPrefix(m.name, "identity") {
			continue
		}
		root := m.name
		if i := strings.IndexAny(root, ".["); i >= 0 {
			root = root[:i]
		}
		skip := false
		for _, n := range u.ct.modif {
			if n == m.name || n == root {
				skip = true
			}
		}
		if skip {
			continue
		}
		now, ok := st.heap[o]
		if !ok {
			continue
		}
		u.prove(x, st, "frame: memory of "+m.name+" unchanged", "frame", u.frameTags(), x.sameValue(m.init, now))
	}
}

func (x *Exec) sameValue(a, b Value) *Term {
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok && p.sort == q.sort {
			return Eq(p, q)
		}
	case StructV:
		if q, ok := b.(StructV); ok && len(p.F) == len(q.F) {
			var cs []*Term
			for i := range p.F {
				cs = append(cs, x.sameValue(p.F[i], q.F[i]))
			}
			return And(cs...)
		}
	case ArrayV:
		if q, ok := b.(ArrayV); ok && len(p.E) == len(q.E) {
			var cs []*Term
			for i := range p.E {
				cs = append(cs, x.sameValue(p.E[i], q.E[i]))
			}
			return And(cs...)
		}
	case SymArr:
		if q, ok := b.(SymArr); ok {
			var cs []*Term
			for i := range p.Leaves {
				cs = append(cs, Eq(p.Leaves[i], q.Leaves[i]))
			}
			return And(cs...)
		}
	case MapC:
		if q, ok := b.(MapC); ok {
			cs := []*Term{Eq(p.Dom, q.Dom)}
			for i := range p.Leaves {
				cs = append(cs, Eq(p.Leaves[i], q.Leaves[i]))
			}
			return And(cs...)
		}
	case SliceV:
		if q, ok := b.(SliceV); ok {
			if p.Base.Obj != q.Base.Obj {
				return And(p.Nil, q.Nil)
			}
			return And(Eq(p.Nil, q.Nil), Eq(p.Off, q.Off), Eq(p.Len, q.Len))
		}
	case PtrV:
		if q, ok := b.(PtrV); ok {
			return Bool(p.Obj == q.Obj)
		}
	case MapV:
		if q, ok := b.(MapV); ok {
			return Bool(p.Obj == q.Obj)
		}
	case IfaceV:
		if q, ok := b.(IfaceV); ok {
			return x.sameValue(p.Val, q.Val)
		}
	case OpaqueV, FuncV, AbsV:
		return True
	}
	return False
}

// event obligations: clauses that must hold at every storage call.
func (u *Unit) atEvent(x *Exec, st *State, ev *Event) {
	if u == nil || x.quiet > 0 || u.env == nil {
		return
	}
	for _, c := range u.ct.clauses {
		if (c.kind != "each" && c.kind != "stable") || !u.relevant(c.tags) {
			continue
		}
		e := *u.env
		e.cur = st
		e.vars = map[string]EV{}
		for k, v := range u.env.vars {
			e.vars[k] = v
		}
		for _, r := range u.ct.results {
			e.vars[r] = EV{v: (*Term)(nil)}
		}
		e.drawVars = map[string]*Term{}
		for i, d := range u.ct.draws {
			var t *Term
			if k := e.drawBase + i; k < len(st.draws) {
				t = st.draws[k]
			}
			e.drawVars[d[0]] = t
		}
		if c.kind == "each" {
			e.vars["this"] = EV{ev: ev}
		}
		saved := x.curSt
		x.setDecide(st)
		g := u.evalClause(x, &e, c)
		u.prove(x, st, c.kind+" "+c.name+": "+c.src, c.kind, c.tags, g)
		x.setDecide(saved)
	}
}

// ---------- setup

func (x *Exec) typeByName(s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "..."):
		return types.NewSlice(x.typeByName(s[3:]))
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(x.typeByName(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(x.typeByName(s[2:]))
	case strings.HasPrefix(s, "map[string]"):
		return types.NewMap(tString, x.typeByName(s[11:]))
	}
	switch s {
	case "struct{}":
		return types.NewStruct(nil, nil)
	case "interface{}", "any":
		return types.NewInterfaceType(nil, nil)
	}
	if i := strings.LastIndex(s, "."); i >= 0 {
		if sp := x.prog.pkgs[s[:i]]; sp != nil {
			if t := sp.Type(s[i+1:]); t != nil {
				return t.Type()
			}
		}
		if p := x.prog.prog.ImportedPackage(s[:i]); p != nil {
			if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
	} else if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	unsupported("type %s not found", s)
	return nil
}

func (x *Exec) setupStep(e *Env, s SetupStep, ct *Contract) []*Env {
	st := e.cur
	switch s.kind {
	case "var":
		t := x.typeByName(s.typ)
		for _, n := range s.lhs {
			e.vars[n] = EV{v: x.symValue(st, t, n, true), t: t}
		}
	case "let":
		e.vars[s.lhs[0]] = e.eval(s.expr)
	case "ref": // a pointer to a new variable holding the value
		v := e.eval(s.expr)
		o := x.newObj(st, s.lhs[0], v.t, v.v)
		e.vars[s.lhs[0]] = EV{v: notNil(o), t: types.NewPointer(v.t)}
	case "assume":
		st.assume(e.boolean(s.expr))
		if !x.feasible(st, True) {
			return nil
		}
	case "havoc":
		x.havocState(st, e.eval(s.expr).v, map[int]bool{})
	case "call":
		f := s.expr.kids[0]
		var fn *ssa.Function
		var args []Value
		if f.op == "sel" && f.kids[0].op == "ident" {
			if sp := x.prog.pkgs[f.kids[0].s]; sp != nil && e.vars[f.kids[0].s].v == nil {
				fn = sp.Func(f.s)
				if fn == nil {
					unsupported("function %s.%s not found", f.kids[0].s, f.s)
				}
			}
		}
		if fn == nil && f.op == "sel" {
			r := e.eval(f.kids[0])
			rt := r.t
			pv := r.v
			if _, ok := rt.Underlying().(*types.Pointer); !ok {
				rt = types.NewPointer(rt)
				o := x.newObj(st, "recv", r.t, r.v)
				pv = notNil(o)
			}
			ms := x.prog.prog.MethodSets.MethodSet(rt)
			sel := ms.Lookup(x.prog.pkgs[pkgOfKey(absName(rt.Underlying().(*types.Pointer).Elem()))].Pkg, f.s)
			if sel == nil {
				unsupported("method %s not found", f.s)
			}
			fn = x.prog.prog.MethodValue(sel)
			args = append(args, pv)
		}
		if fn == nil {
			unsupported("setup call")
		}
		for i, a := range s.args {
			v := e.eval(a)
			pt := fn.Params[len(args)].Type()
			vv := v.v
			if types.IsInterface(pt) && v.t != nil && !types.IsInterface(v.t) {
				if _, isTerm := vv.(*Term); !isTerm || scalarSort(v.t) != SI {
					vv = IfaceV{v.t, vv}
				}
			}
			_ = i
			args = append(args, vv)
		}
		rs := x.callStatic(st, fn, args, nil, nil, 0)
		var out []*Env
		for _, r := range rs {
			if r.st.infeasible() {
				continue
			}
			n := *e
			n.cur = r.st
			n.vars = map[string]EV{}
			for k, v := range e.vars {
				n.vars[k] = v
			}
			sig := fn.Signature.Results()
			for i, l := range s.lhs {
				v := r.ret
				if sig.Len() > 1 {
					v = r.ret.(TupleV).E[i]
				}
				if l != "_" {
					n.vars[l] = EV{v: v, t: sig.At(i).Type()}
				}
			}
			n.attrs = map[string]map[string]*Term{}
			out = append(out, &n)
		}
		return out
	default:
		unsupported("setup step %s", s.kind)
	}
	return []*Env{e}
}

// havocState replaces the contents of maps reachable from v by arbitrary contents.
func (x *Exec) havocState(st *State, v Value, seen map[int]bool) Value {
	switch w := v.(type) {
	case StructV:
		n := StructV{}
		for _, f := range w.F {
			n.F = append(n.F, x.havocState(st, f, seen))
		}
		return n
	case MapC:
		n := MapC{K: w.K, E: w.E, Dom: x.fresh("havoc.dom", w.Dom.sort)}
		for _, l := range w.Leaves {
			n.Leaves = append(n.Leaves, x.fresh("havoc.val", l.sort))
		}
		return n
	case PtrV:
		if w.Obj >= 0 && !seen[w.Obj] {
			seen[w.Obj] = true
			st.heap[w.Obj] = x.havocState(st, st.heap[w.Obj], seen)
		}
		return w
	case MapV:
		if w.Obj >= 0 && !seen[w.Obj] {
			seen[w.Obj] = true
			st.heap[w.Obj] = x.havocState(st, st.heap[w.Obj], seen)
		}
		return w
	case BoltDB:
		return BoltDB{Data: x.havocState(st, w.Data, seen).(MapC), Buckets: w.Buckets}
	}
	return v
}

// ---------- use of a contract at a call

func stripOk(n *Node, ok bool) []*Node {
	if n.op == "bin" && n.s == "==>" {
		l := n.kids[0]
		if l.op == "bin" && l.kids[0].op == "ident" && l.kids[0].s == "err" && l.kids[1].op == "ident" && l.kids[1].s == "nil" {
			if (l.s == "==") == ok {
				return stripOk(n.kids[1], ok)
			}
			return nil
		}
		return []*Node{n}
	}
	if n.op == "bin" && n.s == "&&" {
		return append(stripOk(n.kids[0], ok), stripOk(n.kids[1], ok)...)
	}
	return []*Node{n}
}

func (x *Exec) applyContract(st *State, ct *Contract, fn *ssa.Function, args []Value, c interface{ Pos() token.Pos }) []stRet {
	e := &Env{x: x, cur: st, vars: map[string]EV{}, lets: ct.lets, expand: "-", ct: ct, drawVars: map[string]*Term{}, attrs: map[string]map[string]*Term{}}
	if u := x.unit; u != nil && u.env != nil {
		e.expand = u.env.expand
		if pkgOfKey(ct.key) != e.expand {
			e.expand = "-"
		}
		if _, ok := u.ct.opts["expand"]; ok {
			e.expand = u.env.expand
		} else {
			e.expand = "-"
		}
	}
	if x.useAttrs != nil {
		e.attrs = x.useAttrs
	}
	if len(ct.params) != len(args) {
		unsupported("contract of %s has %d parameters", ct.key, len(ct.params))
	}
	for i, p := range ct.params {
		e.vars[p] = EV{v: args[i], t: fn.Params[i].Type()}
	}
	for _, cl := range ct.clauses {
		if cl.kind == "requires" {
			g := e.boolean(cl.expr)
			if x.quiet == 0 && x.unit != nil && x.unit.relevant(cl.tags) {
				x.unit.prove(x, st, "requires "+cl.name+" of "+ct.key+": "+cl.src, "requires", cl.tags, g)
			}
			st.assume(g)
		}
	}
	sig := fn.Signature.Results()
	hasErr := sig.Len() > 0 && typeName(sig.At(sig.Len()-1).Type()) == "error"
	old := st.clone()
	var outs []stRet
	modes := []bool{true}
	if hasErr {
		modes = []bool{true, false}
	}
	for _, ok := range modes {
		s := old.clone()
		x.setDecide(s)
		ne := *e
		ne.cur, ne.old = s, old
		ne.vars = map[string]EV{}
		for k, v := range e.vars {
			ne.vars[k] = v
		}
		ne.drawBase, ne.evBase, ne.gapBase = len(s.draws), len(s.events), len(s.gapEv)
		ne.rndfail = False
		ne.drawVars = map[string]*Term{}
		for _, d := range ct.draws {
			ne.drawVars[d[0]] = nil
			if ok {
				ln, err := parseExpr(d[1])
				if err != nil {
					specErr("%v", err)
				}
				t := SetLen(x.fresh("draw."+d[0], SB), ne.toInt(ne.eval(ln)))
				s.draws = append(s.draws, t)
				ne.drawVars[d[0]] = t
			}
		}
		if !ok {
			if len(ct.draws) > 0 {
				ne.rndfail = x.fresh("rndfail", SBool)
				g := s.ghost["rndfail"]
				if g == nil {
					g = False
				}
				s.ghost["rndfail"] = Or(g, ne.rndfail)
			}
		}
		bound := map[string]bool{}
		if hasErr {
			ev := INil
			if !ok {
				ev = nil
				for _, cl := range ct.clauses {
					if cl.kind != "ensures" && cl.kind != "given" {
						continue
					}
					for _, n := range stripOk(cl.expr, false) {
						if n.op == "bin" && n.s == "==" && n.kids[0].op == "ident" && n.kids[0].s == ct.results[sig.Len()-1] && n.kids[1].op != "nil" {
							ev = ne.tm(n.kids[1])
							s.assume(Not(Eq(ev, INil)))
						}
					}
				}
				if ev == nil {
					ev = x.privErr(s, "err."+fn.Name())
				}
			}
			ne.vars[ct.results[sig.Len()-1]] = EV{v: ev, t: sig.At(sig.Len() - 1).Type()}
			bound[ct.results[sig.Len()-1]] = true
		}
		for _, y := range ct.yields {
			for i, r := range ct.results {
				if r != y.res || bound[r] {
					continue
				}
				t := sig.At(i).Type()
				var v Value
				_, isPtr := t.Underlying().(*types.Pointer)
				switch {
				case ok:
					at := map[string]Value{}
					for k, n := range y.attrs {
						at[k] = ne.tm(n)
					}
					v = AbsV{y.typ, at}
					if isPtr {
						v = notNil(x.newObj(s, y.typ, t.Underlying().(*types.Pointer).Elem(), v))
					}
				case isPtr:
					v = PtrV{Nil: True, Obj: -1}
				default:
					v = x.zero(s, t)
				}
				ne.vars[r] = EV{v: v, t: t}
				bound[r] = true
			}
		}
		// results defined by equations
		var conj []*Node
		for _, cl := range ct.clauses {
			if cl.kind == "ensures" || cl.kind == "given" {
				if cl.kind == "given" {
					x.note("contract of " + ct.key + ": " + cl.name + " is shown by other units, see DESIGN.md")
				}
				conj = append(conj, stripOk(cl.expr, ok)...)
			}
		}
		for _, n := range conj {
			if n.op == "bin" && n.s == "==" && n.kids[0].op == "ident" && !bound[n.kids[0].s] {
				for i, r := range ct.results {
					if r != n.kids[0].s {
						continue
					}
					t := sig.At(i).Type()
					if scalarSort(t) == nil && !isBytes(t) {
						continue
					}
					if n.kids[1].op == "ident" && n.kids[1].s == "nil" {
						ne.vars[r] = EV{v: x.zero(s, t), t: t}
					} else {
						tv := ne.tm(n.kids[1])
						if isBytes(t) {
							ne.vars[r] = EV{v: x.newBytes(s, r, tv), t: t}
						} else {
							ne.vars[r] = EV{v: tv, t: t}
						}
					}
					bound[r] = true
				}
			}
		}
		for i, r := range ct.results {
			if !bound[r] {
				t := sig.At(i).Type()
				var v Value
				v = x.symValue(s, t, r, false)
				for _, n := range conj {
					if n.op == "call" && n.kids[0].s == "isnil" && n.kids[1].op == "ident" && n.kids[1].s == r {
						switch v.(type) {
						case SliceV:
							v = nilSlice()
						case MapV, PtrV:
							v = x.zero(s, t)
						}
					}
				}
				ne.vars[r] = EV{v: v, t: t}
			}
		}
		for _, n := range conj {
			func() {
				defer func() {
					if rr := recover(); rr != nil {
						if se, isS := rr.(SpecErr); isS && se.undef && !ok {
							return // says nothing about a failed call
						}
						panic(rr)
					}
				}()
				g := ne.boolean(n)
				s.assume(g)
				if os.Getenv("GOCV_DBGC") != "" {
					fmt.Fprintf(os.Stderr, "contract %s ok=%v assume %v inf=%v feas=%v\n", ct.key, ok, g, s.infeasible(), x.feasible(s, True))
				}
			}()
		}
		if ok && ct.unmarsh[0] != nil {
			x.setDecide(s)
			x.decodeInto(s, ne.eval(ct.unmarsh[0]), ne.tm(ct.unmarsh[1]))
			if iv := ne.invariant(ne.eval(ct.unmarsh[0])); iv != True {
				x.note("a record that authenticates was sealed by the library and satisfies the invariant of its type (proved where records are sealed): " + x.invNote(ne.eval(ct.unmarsh[0])))
				s.assume(iv)
			}
		} else if ct.unmarsh[0] != nil {
			x.clobberTarget(s, ne.eval(ct.unmarsh[0]))
		}
		if s.infeasible() || !x.feasible(s, True) {
			continue
		}
		var ret Value
		if sig.Len() == 1 {
			ret = ne.vars[ct.results[0]].v
		} else {
			tv := TupleV{}
			for _, r := range ct.results {
				tv.E = append(tv.E, ne.vars[r].v)
			}
			ret = tv
		}
		outs = append(outs, stRet{s, ret})
	}
	if len(outs) == 0 && x.feasible(old, True) {
		x.note("no outcome of the contract of " + ct.key + " is possible at a call")
		if check(old.pc, 2000) == Sat {
			unsupported("the contract of %s has no possible outcome at a call that can happen", ct.key)
		}
	}
	return outs
}

func abstractType(t types.Type) map[string]string {
	if theSpec == nil {
		return nil
	}
	n := absName(t)
	if n == "" {
		return nil
	}
	return theSpec.absTypes[n]
}

var theSpec *Spec
