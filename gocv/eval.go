package main

// Evaluation of contract expressions over engine states.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EV struct {
	v  Value
	t  types.Type
	ev *Event
	st *State // state to read memory from (nil: the evaluation's current state)
}

type Env struct {
	x        *Exec
	cur, old *State
	vars     map[string]EV
	lets     map[string]*Node
	attrs    map[string]map[string]*Term // ghost attributes of a receiver given by its setup
	expand   string
	drawBase int
	gapBase  int
	evBase   int
	depth    int
	drawVars map[string]*Term
	ct       *Contract
	rndfail  *Term
}

type SpecErr struct {
	msg   string
	undef bool // the expression has no value on this path (e.g. a missing draw)
}

func (s SpecErr) Error() string { return s.msg }
func specErr(f string, a ...interface{}) EV {
	panic(SpecErr{fmt.Sprintf(f, a...), false})
}
func undef(f string, a ...interface{}) EV {
	panic(SpecErr{fmt.Sprintf(f, a...), true})
}

func (e *Env) with(st *State) *Env {
	n := *e
	n.cur = st
	return &n
}

func sortByName(s string) *Sort {
	switch s {
	case "B", "string", "bytes":
		return SB
	case "Bool", "bool":
		return SBool
	case "Int", "int":
		return SInt
	case "I", "error":
		return SI
	case "SK":
		return SK
	case "SetB":
		return Arr(SB, SBool)
	case "V":
		return SV
	}
	if strings.HasPrefix(s, "BV") {
		n, _ := strconv.Atoi(s[2:])
		return BV(n)
	}
	if strings.HasPrefix(s, "Arr") { // ArrB: Int -> B
		return Arr(SInt, sortByName(s[3:]))
	}
	panic(SpecErr{"unknown sort " + s, false})
}

var tString = types.Typ[types.String]
var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]

// tm evaluates to a term.
func (e *Env) tm(n *Node) *Term { return e.term(e.eval(n)) }

func (e *Env) term(v EV) *Term {
	st := e.cur
	if v.st != nil {
		st = v.st
	}
	switch w := v.v.(type) {
	case *Term:
		return w
	case SliceV:
		if v.t != nil && !isBytes(v.t) {
			specErr("slice of %s used as a value", v.t)
		}
		return e.x.content(st, w)
	case IfaceV:
		return e.x.boxIface(st, w)
	case nil:
		specErr("no value")
	}
	specErr("not a term: %T", v.v)
	return nil
}

func (e *Env) boolean(n *Node) *Term {
	t := e.tm(n)
	if t.sort != SBool {
		specErr("boolean expected, got %s", t.sort.Name)
	}
	return t
}

// lazyImp evaluates a ==> b; b is evaluated under a, and not at all when a cannot hold.
func (e *Env) lazyImp(a *Term, b *Node) *Term {
	if a == False {
		return True
	}
	if a.bound {
		var r *Term
		func() {
			defer func() {
				if rr := recover(); rr != nil {
					if s, ok := rr.(SpecErr); ok && s.undef {
						r = False
						return
					}
					panic(rr)
				}
			}()
			r = e.boolean(b)
		}()
		return Imp(a, r)
	}
	if !e.x.feasible(e.cur, a) {
		return True
	}
	st := e.cur.clone()
	st.assume(a)
	saved := e.x.curSt
	e.x.setDecide(st)
	defer e.x.setDecide(saved)
	var r *Term
	func() {
		defer func() {
			if rr := recover(); rr != nil {
				if s, ok := rr.(SpecErr); ok && s.undef {
					e.x.undefNote = s.msg
					r = False
					return
				}
				panic(rr)
			}
		}()
		r = e.with(st).boolean(b)
	}()
	return Imp(a, r)
}

func (e *Env) eval(n *Node) EV {
	switch n.op {
	case "num":
		v, ok := new(big.Int).SetString(n.s, 0)
		if !ok {
			return specErr("bad number %s", n.s)
		}
		return EV{v: IntBig(v)}
	case "str":
		return EV{v: BLit(n.s), t: tString}
	case "ident":
		return e.ident(n.s)
	case "forall", "exists":
		ne := *e
		ne.vars = map[string]EV{}
		for k, v := range e.vars {
			ne.vars[k] = v
		}
		var bs []*Term
		for _, v := range n.vars {
			b := BVar(v[0], sortByName(v[1]))
			bs = append(bs, b)
			var t types.Type
			if b.sort == SB {
				t = tString
			}
			ne.vars[v[0]] = EV{v: b, t: t}
		}
		body := ne.boolean(n.kids[0])
		if n.op == "forall" {
			return EV{v: Forall(bs, body), t: tBool}
		}
		return EV{v: Exists(bs, body), t: tBool}
	case "ite":
		c := e.boolean(n.kids[0])
		if c == True {
			return e.eval(n.kids[1])
		}
		if c == False {
			return e.eval(n.kids[2])
		}
		a, b := e.eval(n.kids[1]), e.eval(n.kids[2])
		p, q := e.unify(a, b)
		return EV{v: Ite(c, p, q), t: a.t}
	case "un":
		switch n.s {
		case "!":
			return EV{v: Not(e.boolean(n.kids[0])), t: tBool}
		case "-":
			return EV{v: Sub(IntC(0), e.tm(n.kids[0]))}
		case "*":
			return e.deref(e.eval(n.kids[0]))
		}
		return specErr("unary %s", n.s)
	case "bin":
		return e.bin(n)
	case "sel":
		return e.sel(n)
	case "index":
		a := e.eval(n.kids[0])
		i := e.eval(n.kids[1])
		st := e.state(a)
		switch w := a.v.(type) {
		case SliceV:
			var et types.Type
			if a.t != nil {
				et = a.t.Underlying().(*types.Slice).Elem()
			}
			ev := e.x.sliceElem(st, w, e.toInt(i))
			if t, ok := ev.(*Term); ev == nil || ok && t == nil {
				return undef("element of an empty slice")
			}
			return EV{v: ev, t: et, st: a.st}
		case *Term:
			if w.sort == SB {
				return EV{v: BNth(w, e.toInt(i))}
			}
			if w.sort.Kind == "arr" {
				return EV{v: Select(w, e.term(i))}
			}
		case MapV:
			mt := a.t.Underlying().(*types.Map)
			if w.Obj < 0 {
				return undef("index of nil map")
			}
			v, _ := e.x.mapGet(st, e.x.mapC(st, w), e.term(i))
			return EV{v: v, t: mt.Elem(), st: a.st}
		}
		return specErr("index of %T", a.v)
	case "slice":
		a := e.tm(n.kids[0])
		lo := IntC(0)
		hi := BLen(a)
		if n.kids[1] != nil {
			lo = e.toInt(e.eval(n.kids[1]))
		}
		if n.kids[2] != nil {
			hi = e.toInt(e.eval(n.kids[2]))
		}
		return EV{v: BSub(a, lo, hi), t: tString}
	case "call":
		return e.call(n)
	}
	return specErr("cannot evaluate %s", n.op)
}

func (e *Env) state(v EV) *State {
	if v.st != nil {
		return v.st
	}
	return e.cur
}

func (e *Env) toInt(v EV) *Term {
	t := e.term(v)
	if t.sort.Kind == "bv" {
		return BV2Int(t)
	}
	return t
}

func (e *Env) ident(s string) EV {
	if v, ok := e.vars[s]; ok {
		if t, ok := v.v.(*Term); ok && t == nil {
			return undef("%s has no value on this path", s)
		}
		return v
	}
	if d, ok := e.drawVars[s]; ok {
		if d == nil {
			return undef("random draw %s was not made", s)
		}
		return EV{v: d, t: tString}
	}
	if l, ok := e.lets[s]; ok {
		if e.depth > 50 {
			return specErr("recursive let %s", s)
		}
		n := *e
		n.depth++
		return n.eval(l)
	}
	switch s {
	case "nil":
		return EV{v: INil}
	case "true":
		return EV{v: True, t: tBool}
	case "false":
		return EV{v: False, t: tBool}
	case "rndfailed":
		if e.rndfail != nil {
			return EV{v: e.rndfail}
		}
		if g := e.cur.ghost["rndfail"]; g != nil {
			return EV{v: g}
		}
		return EV{v: False}
	case "emptyset":
		return EV{v: ConstArr(Arr(SB, SBool), False)}
	case "honest":
		return EV{v: honest}
	}
	if m, ok := e.x.prog.spec.macros[s]; ok && len(m.params) == 0 {
		return e.applyMacro(m, nil)
	}
	return specErr("unknown name %s", s)
}

func (e *Env) gapKind(kind string) bool {
	for _, g := range e.cur.gapEv[e.gapBase:] {
		if g.Ev.Kind == kind || g.Draw && kind == "draw" {
			return true
		}
	}
	return false
}

var honest = Var("honest", SBool)

func (e *Env) pkgMember(pkg, name string) (EV, bool) {
	sp := e.x.prog.pkgs[pkg]
	if sp == nil {
		return EV{}, false
	}
	switch m := sp.Members[name].(type) {
	case *ssa.NamedConst:
		v := e.x.constVal(e.cur, m.Value)
		_ = constant.MakeBool
		return EV{v: v, t: m.Type()}, true
	case *ssa.Global:
		p := e.x.prog.globalPtr(e.x, e.cur, m).(PtrV)
		return EV{v: e.x.load(e.cur, p), t: m.Type().(*types.Pointer).Elem()}, true
	}
	return EV{}, false
}

func (e *Env) sel(n *Node) EV {
	b := n.kids[0]
	if b.op == "ident" {
		_, isVar := e.vars[b.s]
		_, isLet := e.lets[b.s]
		if !isVar && !isLet {
			if v, ok := e.pkgMember(b.s, n.s); ok {
				return v
			}
		}
		if isVar {
			if at, ok := e.attrs[b.s]; ok {
				if t, ok := at[n.s]; ok {
					return EV{v: t, t: tString}
				}
			}
		}
	}
	return e.field(e.eval(b), n.s)
}

func (e *Env) field(a EV, name string) EV {
	if a.ev != nil {
		if name == "kind" {
			return EV{v: BLit(a.ev.Kind), t: tString}
		}
		v, ok := a.ev.Args[name]
		if !ok {
			return undef("event %s has no %s", a.ev.Kind, name)
		}
		return EV{v: v}
	}
	st := e.state(a)
	if p, ok := a.v.(PtrV); ok {
		return e.field(e.deref(EV{v: p, t: a.t, st: a.st}), name)
	}
	if iv, ok := a.v.(IfaceV); ok {
		return e.field(EV{v: iv.Val, t: iv.Dyn, st: a.st}, name)
	}
	switch w := a.v.(type) {
	case AbsV:
		v, ok := w.Attr[name]
		if !ok {
			return undef("abstract value of %s has no %s", w.Typ, name)
		}
		return EV{v: v, st: a.st}
	case StructV:
		if a.t == nil {
			return specErr("field %s of untyped struct", name)
		}
		u := a.t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return EV{v: w.F[i], t: u.Field(i).Type(), st: a.st}
			}
		}
		return specErr("no field %s in %s", name, a.t)
	}
	_ = st
	return specErr("field %s of %T", name, a.v)
}

func (e *Env) deref(a EV) EV {
	if iv, ok := a.v.(IfaceV); ok {
		return e.deref(EV{v: iv.Val, t: iv.Dyn, st: a.st})
	}
	p, ok := a.v.(PtrV)
	if !ok {
		return specErr("dereference of %T", a.v)
	}
	if p.Obj < 0 {
		return undef("dereference of nil")
	}
	var t types.Type
	if a.t != nil {
		t = a.t.Underlying().(*types.Pointer).Elem()
	}
	return EV{v: e.x.load(e.state(a), p), t: t, st: a.st}
}

func (e *Env) isNil(a EV) *Term {
	switch w := a.v.(type) {
	case SliceV:
		return w.Nil
	case MapV:
		return w.Nil
	case PtrV:
		return w.Nil
	case IfaceV:
		return False
	case *Term:
		if w.sort == SI {
			return Eq(w, INil)
		}
	}
	specErr("isnil of %T", a.v)
	return nil
}

// unify two values to terms of one sort (integer literals adapt to bit vectors).
func (e *Env) unify(a, b EV) (*Term, *Term) {
	p, q := e.term(a), e.term(b)
	if p.sort == q.sort {
		return p, q
	}
	if p.sort.Kind == "bv" && q.op == "int" {
		return p, BVBig(p.sort.W, q.num)
	}
	if q.sort.Kind == "bv" && p.op == "int" {
		return BVBig(q.sort.W, p.num), q
	}
	if p.sort.Kind == "bv" && q.sort == SInt {
		return BV2Int(p), q
	}
	if q.sort.Kind == "bv" && p.sort == SInt {
		return p, BV2Int(q)
	}
	if p.sort.Kind == "bv" && q.sort.Kind == "bv" {
		if p.sort.W < q.sort.W {
			return ZExt(p, q.sort.W), q
		}
		return p, ZExt(q, p.sort.W)
	}
	specErr("sorts %s and %s", p.sort.Name, q.sort.Name)
	return nil, nil
}

// eq is specification equality: contents of byte slices, fields of structs, elements of small arrays.
func (e *Env) eq(a, b EV) *Term {
	if t, ok := b.v.(*Term); ok && t == INil {
		return e.isNilAny(a)
	}
	if t, ok := a.v.(*Term); ok && t == INil {
		return e.isNilAny(b)
	}
	if sa, ok := a.v.(StructV); ok {
		sb, ok := b.v.(StructV)
		if !ok {
			specErr("comparison of struct with %T", b.v)
		}
		ua := a.t.Underlying().(*types.Struct)
		var cs []*Term
		for i := range sa.F {
			cs = append(cs, e.eq(EV{v: sa.F[i], t: ua.Field(i).Type(), st: a.st}, EV{v: sb.F[i], t: ua.Field(i).Type(), st: b.st}))
		}
		return And(cs...)
	}
	if ma, ok := a.v.(MapV); ok {
		mb, ok := b.v.(MapV)
		if !ok {
			specErr("comparison of map with %T", b.v)
		}
		ks := keySort(a.t.Underlying().(*types.Map).Key())
		cs := []*Term{Eq(ma.Nil, mb.Nil), Eq(e.domOf(a), e.domOf(b))}
		if ma.Obj >= 0 && mb.Obj >= 0 {
			ca, cb := e.x.mapC(e.state(a), ma), e.x.mapC(e.state(b), mb)
			for i := range ca.Leaves {
				k := BVar("k", ks)
				cs = append(cs, Forall([]*Term{k}, Imp(Select(ca.Dom, k), Eq(Select(ca.Leaves[i], k), Select(cb.Leaves[i], k)))))
			}
		}
		return And(cs...)
	}
	if sa, ok := a.v.(SliceV); ok && a.t != nil && !isBytes(a.t) {
		sb := b.v.(SliceV)
		k := BVar("i", SInt)
		ea, eb := e.x.toLeavesSafe(e.state(a), e.x.sliceElem(e.state(a), sa, k), a.t), e.x.toLeavesSafe(e.state(b), e.x.sliceElem(e.state(b), sb, k), a.t)
		var cs []*Term
		for i := range ea {
			cs = append(cs, Eq(ea[i], eb[i]))
		}
		return And(Eq(sa.Len, sb.Len), Forall([]*Term{k}, Imp(And(Le(IntC(0), k), Lt(k, sa.Len)), And(cs...))))
	}
	if pa, ok := a.v.(PtrV); ok {
		if pb, ok := b.v.(PtrV); ok {
			return e.x.eqValue(e.cur, pa, pb, a.t, b.t)
		}
	}
	p, q := e.unify(a, b)
	return Eq(p, q)
}

func (x *Exec) toLeavesSafe(st *State, v Value, t types.Type) []*Term {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return x.toLeaves(st, v, s.Elem())
	}
	return x.toLeaves(st, v, t)
}

func (e *Env) isNilAny(a EV) *Term { return e.isNil(a) }

func (e *Env) domOf(a EV) *Term {
	m, ok := a.v.(MapV)
	if !ok {
		specErr("keys of %T", a.v)
	}
	if m.Obj < 0 {
		ks := keySort(a.t.Underlying().(*types.Map).Key())
		return ConstArr(Arr(ks, SBool), False)
	}
	return e.x.mapC(e.state(a), m).Dom
}

func (e *Env) bin(n *Node) EV {
	b := func(t *Term) EV { return EV{v: t, t: tBool} }
	l, r := n.kids[0], n.kids[1]
	switch n.s {
	case "==>":
		return b(e.lazyImp(e.boolean(l), r))
	case "<==>":
		return b(Eq(e.boolean(l), e.boolean(r)))
	case "&&":
		p := e.boolean(l)
		if p == False {
			return b(False)
		}
		q := e.lazyImp(p, r) // evaluated under p
		if q.op == "=>" && q.args[0] == p {
			q = q.args[1]
		}
		return b(And(p, q))
	case "||":
		p := e.boolean(l)
		if p == True {
			return b(True)
		}
		if p.bound {
			return b(Or(p, e.boolean(r)))
		}
		return b(Or(p, e.lazyImp(Not(p), r)))
	case "==":
		return b(e.eq(e.eval(l), e.eval(r)))
	case "!=":
		return b(Not(e.eq(e.eval(l), e.eval(r))))
	case "in":
		k := e.eval(l)
		s := e.eval(r)
		if _, ok := s.v.(MapV); ok {
			return b(Select(e.domOf(s), e.term(k)))
		}
		return b(Select(e.term(s), e.term(k)))
	case "++":
		return EV{v: Cat(e.tm(l), e.tm(r)), t: tString}
	}
	p, q := e.unify(e.eval(l), e.eval(r))
	bv := p.sort.Kind == "bv"
	switch n.s {
	case "<":
		if bv {
			return b(bvCmp("bvult", p, q))
		}
		return b(Lt(p, q))
	case "<=":
		if bv {
			return b(bvCmp("bvule", p, q))
		}
		return b(Le(p, q))
	case ">":
		if bv {
			return b(bvCmp("bvult", q, p))
		}
		return b(Lt(q, p))
	case ">=":
		if bv {
			return b(bvCmp("bvule", q, p))
		}
		return b(Le(q, p))
	case "+":
		if bv {
			return EV{v: bvBin("bvadd", p, q)}
		}
		return EV{v: Add(p, q)}
	case "-":
		if bv {
			return EV{v: bvBin("bvsub", p, q)}
		}
		return EV{v: Sub(p, q)}
	case "*":
		if bv {
			return EV{v: bvBin("bvmul", p, q)}
		}
		return EV{v: Mul(p, q)}
	case "/":
		return EV{v: DivT(p, q)}
	case "%":
		return EV{v: ModT(p, q)}
	case "&":
		return EV{v: bvBin("bvand", p, q)}
	case "|":
		return EV{v: bvBin("bvor", p, q)}
	case "^":
		return EV{v: bvBin("bvxor", p, q)}
	case "<<":
		return EV{v: bvBin("bvshl", p, q)}
	}
	return specErr("operator %s", n.s)
}

func (e *Env) args(n *Node) []EV {
	var out []EV
	for _, k := range n.kids[1:] {
		out = append(out, e.eval(k))
	}
	return out
}

// typeArg resolves "data.SealedAccess" given as an expression.
func (e *Env) typeArg(n *Node) types.Type {
	if n.op == "sel" && n.kids[0].op == "ident" {
		if sp := e.x.prog.pkgs[n.kids[0].s]; sp != nil {
			if t := sp.Type(n.s); t != nil {
				return t.Type()
			}
		}
	}
	if n.op == "ident" {
		switch n.s {
		case "string":
			return tString
		case "bytes":
			return types.NewSlice(types.Typ[types.Byte])
		}
	}
	specErr("type expected")
	return nil
}

func (e *Env) call(n *Node) EV {
	f := n.kids[0]
	if f.op != "ident" {
		return specErr("call of a non-name")
	}
	x := e.x
	a := n.kids[1:]
	B := func(t *Term) EV { return EV{v: t, t: tBool} }
	switch f.s {
	case "old":
		if e.old == nil {
			return specErr("old outside a postcondition")
		}
		ne := e.with(e.old)
		v := ne.eval(a[0])
		if _, ok := v.v.(*Term); !ok && v.st == nil {
			v.st = e.old
		}
		return v
	case "len":
		v := e.eval(a[0])
		switch w := v.v.(type) {
		case SliceV:
			return EV{v: w.Len}
		case *Term:
			if w.sort == SB {
				return EV{v: BLen(w)}
			}
		case MapV:
			if w.Obj < 0 {
				return EV{v: IntC(0)}
			}
			return EV{v: x.mapLen(e.state(v), w)}
		}
		return specErr("len of %T", v.v)
	case "isnil":
		return B(e.isNil(e.eval(a[0])))
	case "content":
		return EV{v: e.tm(a[0]), t: tString}
	case "keys":
		return EV{v: e.domOf(e.eval(a[0]))}
	case "zero":
		v := e.eval(a[0])
		return B(e.isZero(v))
	case "onlyfields": // all other fields of the struct are zero
		v := e.eval(a[0])
		sv, ok := v.v.(StructV)
		if !ok {
			specErr("onlyfields of %T", v.v)
		}
		u := v.t.Underlying().(*types.Struct)
		var cs []*Term
	fields:
		for i := range sv.F {
			for _, n := range a[1:] {
				if n.s == u.Field(i).Name() {
					continue fields
				}
			}
			cs = append(cs, e.isZero(EV{v: sv.F[i], t: u.Field(i).Type(), st: v.st}))
		}
		return B(And(cs...))
	case "json", "jsonok":
		v := e.eval(a[0])
		if v.t == nil {
			if w, ok := v.v.(*Term); ok && w.sort == SB {
				v.t = tString
			} else {
				return specErr("json of a value of unknown type")
			}
		}
		enc, ok := x.jencode(e.state(v), v.v, v.t)
		if f.s == "json" {
			return EV{v: enc, t: tString}
		}
		return B(ok)
	case "decode":
		t := e.typeArg(a[0])
		return EV{v: x.jdecValue(e.cur, t, e.tm(a[1])), t: t}
	case "decodes":
		return B(jok(e.typeArg(a[0]), e.tm(a[1])))
	case "decodable": // by the dynamic type of a pointer
		v := e.eval(a[0])
		b := e.tm(a[1])
		if iv, ok := v.v.(IfaceV); ok {
			return B(jok(iv.Dyn.Underlying().(*types.Pointer).Elem(), b))
		}
		return B(App("jok.any", SBool, e.term(v), b))
	case "is":
		return B(errIs(e.tm(a[0]), e.tm(a[1])))
	case "inv":
		return B(e.invariant(e.eval(a[0])))
	case "dom":
		return B(Select(x.storeDom(e.cur), skey(e.tm(a[0]), e.dt(a[1]))))
	case "stored":
		return EV{v: Select(x.storeVal(e.cur), skey(e.tm(a[0]), e.dt(a[1]))), t: tString}
	case "sk":
		return EV{v: skey(e.tm(a[0]), e.dt(a[1]))}
	case "domk":
		return B(Select(x.storeDom(e.cur), e.tm(a[0])))
	case "storedk":
		return EV{v: Select(x.storeVal(e.cur), e.tm(a[0])), t: tString}
	case "storesame": // the whole store is as in the old state except at the given keys
		var ks []*Term
		for _, k := range a {
			ks = append(ks, e.tm(k))
		}
		return B(x.storeSame(e.old, e.cur, ks))
	case "nev":
		if e.cur.gap {
			return undef("calls inside an abstracted loop are not listed")
		}
		return EV{v: IntC(int64(len(e.cur.events) - e.evBase))}
	case "nwrites":
		if e.cur.gap {
			return undef("calls inside an abstracted loop are not listed")
		}
		c := 0
		for _, ev := range e.cur.events[e.evBase:] {
			if ev.Kind == "Put" || ev.Kind == "Update" || ev.Kind == "Delete" {
				c++
			}
		}
		return EV{v: IntC(int64(c))}
	case "nolocks": // no lock is held
		for k, t := range e.cur.ghost {
			if strings.HasPrefix(k, "lock:") && t != IntC(0) {
				return B(False)
			}
		}
		return B(True)
	case "nostorage": // no storage call at all was made
		if e.cur.gap {
			return B(False)
		}
		for _, ev := range e.cur.events[e.evBase:] {
			if isStorage(ev.Kind) {
				return B(False)
			}
		}
		return B(True)
	case "nowrite":
		for _, ev := range e.cur.events[e.evBase:] {
			if ev.Kind == "Put" || ev.Kind == "Update" || ev.Kind == "Delete" {
				return B(False)
			}
		}
		if e.cur.gap && e.cur.ghost["gapwrite"] != nil {
			return B(False)
		}
		return B(True)
	case "ev":
		i, _ := e.tm(a[0]).i64()
		k := int(i) + e.evBase
		if e.cur.gap || k >= len(e.cur.events) {
			return undef("no event %d", i)
		}
		return EV{ev: &e.cur.events[k]}
	case "evk": // i-th event of a kind
		kind := a[0].s
		if e.gapKind(kind) {
			return undef("calls inside an abstracted loop are not listed")
		}
		i, _ := e.tm(a[1]).i64()
		for k := range e.cur.events[e.evBase:] {
			if e.cur.events[e.evBase+k].Kind == kind {
				if i == 0 {
					return EV{ev: &e.cur.events[e.evBase+k]}
				}
				i--
			}
		}
		return undef("no such %s event", kind)
	case "nevk":
		kind := a[0].s
		c := 0
		if e.gapKind(kind) {
			return undef("calls inside an abstracted loop are not listed")
		}
		for _, ev := range e.cur.events[e.evBase:] {
			if ev.Kind == kind {
				c++
			}
		}
		return EV{v: IntC(int64(c))}
	case "allev": // allev("Put", name, expr): expr holds of every event of the kind, bound to name
		kind := a[0].s
		var cs []*Term
		for k := range e.cur.events[e.evBase:] {
			ev := &e.cur.events[e.evBase+k]
			if kind == "" && isStorage(ev.Kind) || kind == "write" && (ev.Kind == "Put" || ev.Kind == "Update") || ev.Kind == kind {
				ne := *e
				ne.vars = map[string]EV{}
				for kk, v := range e.vars {
					ne.vars[kk] = v
				}
				ne.vars[a[1].s] = EV{ev: ev}
				cs = append(cs, ne.boolean(a[2]))
			}
		}
		for _, g := range e.cur.gapEv[e.gapBase:] {
			if !(kind == "" && isStorage(g.Ev.Kind) || kind == "write" && (g.Ev.Kind == "Put" || g.Ev.Kind == "Update") || g.Ev.Kind == kind) {
				continue
			}
			if g.Cond == nil {
				return undef("calls inside an abstracted loop are not listed")
			}
			ne := *e
			ne.vars = map[string]EV{}
			for kk, v := range e.vars {
				ne.vars[kk] = v
			}
			ev := g.Ev
			ne.vars[a[1].s] = EV{ev: &ev}
			cs = append(cs, Forall([]*Term{g.M}, Imp(g.Cond, ne.boolean(a[2]))))
		}
		return B(And(cs...))
	case "draw":
		i, _ := e.tm(a[0]).i64()
		k := int(i) + e.drawBase
		if k >= len(e.cur.draws) {
			return undef("no random draw %d", i)
		}
		return EV{v: e.cur.draws[k], t: tString}
	case "ndraws":
		if e.gapKind("draw") {
			return undef("draws inside an abstracted loop are not listed")
		}
		return EV{v: IntC(int64(len(e.cur.draws) - e.drawBase))}
	case "isdraw": // the value is one of the random draws made by this call
		t := e.tm(a[0])
		var cs []*Term
		for _, d := range e.cur.draws[e.drawBase:] {
			cs = append(cs, Eq(t, d))
		}
		return B(Or(cs...))
	case "timeok":
		return B(App("jencok.time", SBool, e.tm(a[0])))
	case "now":
		i, _ := e.tm(a[0]).i64()
		k := 0
		for _, ev := range e.cur.events[e.evBase:] {
			if ev.Kind == "Now" {
				if int64(k) == i {
					return EV{v: ev.Args["t"]}
				}
				k++
			}
		}
		return undef("no clock reading %d", i)
	case "identity":
		return e.identity(e.tm(a[0]), e.tm(a[1]))
	case "idok":
		return B(App("idok", SBool, e.tm(a[0]), e.tm(a[1])))
	case "keysof":
		t := x.prog.pkgs["key"].Type("Keys").Type()
		return EV{v: x.keysOf(e.cur, e.tm(a[0])), t: t}
	case "keysok":
		return B(App("keysok", SBool, e.tm(a[0])))
	case "setof":
		v := e.eval(a[0])
		s, ok := v.v.(SliceV)
		if !ok {
			return specErr("setof %T", v.v)
		}
		return EV{v: x.elemsOf(e.state(v), s, v.t)}
	case "orof":
		v := e.eval(a[0])
		return EV{v: x.orOf(e.state(v), v.v.(SliceV), v.t)}
	case "catof":
		v := e.eval(a[0])
		return EV{v: x.catOf(e.state(v), v.v.(SliceV), v.t), t: tString}
	case "union":
		return EV{v: SetUnion(e.tm(a[0]), e.tm(a[1]))}
	case "minus":
		return EV{v: SetMinus(e.tm(a[0]), e.tm(a[1]))}
	case "add":
		return EV{v: Store(e.tm(a[0]), e.tm(a[1]), True)}
	case "remove":
		return EV{v: Store(e.tm(a[0]), e.tm(a[1]), False)}
	case "nat":
		return EV{v: e.toInt(e.eval(a[0]))}
	case "bv":
		w, _ := e.tm(a[0]).i64()
		t := e.tm(a[1])
		if t.sort.Kind == "bv" {
			return EV{v: ZExt(t, int(w))}
		}
		return EV{v: Int2BV(t, int(w))}
	case "uvarint":
		t := e.tm(a[0])
		if t.sort == SInt {
			t = Int2BV(t, 64)
		}
		return EV{v: appCtor["uvarint"]([]*Term{t}), t: tString}
	case "be":
		return EV{v: BVToBytes(e.tm(a[0]), true), t: tString}
	case "beint": // the number a byte string of known length encodes
		t := e.tm(a[0])
		n, ok := BLen(t).i64()
		if !ok {
			return undef("number of unknown width")
		}
		return EV{v: BV2Int(BytesToBV(t, int(n), true)), t: types.Typ[types.Int]}
	case "le":
		return EV{v: BVToBytes(e.tm(a[0]), false), t: tString}
	case "zeros":
		return EV{v: Zeros(e.toInt(e.eval(a[0]))), t: tString}
	case "time":
		return EV{v: e.tm(a[0])}
	case "freshmem": // memory reachable from the value is neither the caller's nor internal
		return B(Bool(x.freshMem(e.cur, e.eval(a[0]).v)))
	case "cast": // cast(T, x)
		v := e.eval(a[1])
		v.t = e.typeArg(a[0])
		if w, ok := v.v.(*Term); ok && w.sort == SB && isBytes(v.t) {
			if _, str := v.t.Underlying().(*types.Slice); str {
				v.v = x.newBytes(e.cur, "cast", w)
				v.st = e.cur
			}
		}
		return v
	case "got": // got(id, dt): what storage returned when the record was read (the last time)
		if ev := e.findEvent("Get", e.tm(a[0]), e.dt(a[1])); ev != nil && ev.Args["data"] != nil {
			return EV{v: ev.Args["data"], t: tString}
		}
		return undef("the record was not read")
	case "firstgot":
		k := skey(e.tm(a[0]), e.dt(a[1]))
		for i := e.evBase; i < len(e.cur.events); i++ {
			ev := &e.cur.events[i]
			if ev.Kind != "Get" || ev.Args["data"] == nil {
				continue
			}
			c := Eq(skey(ev.Args["id"].(*Term), ev.Args["dt"].(*Term)), k)
			if v, ok := dec(c); c == True || ok && v {
				return EV{v: ev.Args["data"], t: tString}
			}
		}
		return undef("the record was not read")
	case "uuidtext":
		return EV{v: uuidStr(e.tm(a[0])), t: tString}
	case "unix":
		return EV{v: mkDivFloor(e.tm(a[0]), IntC(1000000000))}
	case "hasgot":
		ev := e.findEvent("Get", e.tm(a[0]), e.dt(a[1]))
		return B(Bool(ev != nil && ev.Args["data"] != nil))
	case "missing": // the record was asked for and storage has none
		ev := e.findEvent("Get", e.tm(a[0]), e.dt(a[1]))
		if ev == nil || ev.Args["data"] != nil {
			return B(False)
		}
		return B(errIs(ev.Args["err"].(*Term), e.tm(a[2])))
	case "anydraw": // anydraw(name, len, ..., expr): for some distinct random draws of this call
		n := (len(a) - 1) / 2
		ds := e.cur.draws[e.drawBase:]
		var cs []*Term
		var rec func(i int, ne *Env, used map[int]bool)
		rec = func(i int, ne *Env, used map[int]bool) {
			if i == n {
				cs = append(cs, ne.boolean(a[2*n]))
				return
			}
			l, _ := e.tm(a[2*i+1]).i64()
			for k, d := range ds {
				if dl, ok := BLen(d).i64(); !ok || dl != l || used[k] {
					continue
				}
				me := *ne
				me.vars = map[string]EV{}
				for kk, v := range ne.vars {
					me.vars[kk] = v
				}
				me.vars[a[2*i].s] = EV{v: d, t: tString}
				used[k] = true
				rec(i+1, &me, used)
				delete(used, k)
			}
		}
		rec(0, e, map[int]bool{})
		return B(Or(cs...))
	case "lbl":
		return e.eval(a[1])
	case "hex":
		return EV{v: App("hexstr", SB, e.tm(a[0])), t: tString}
	case "b64":
		return EV{v: b64enc("RawURLEncoding", e.tm(a[0])), t: tString}
	case "b64ok":
		t := e.tm(a[0])
		if t.op == "app" && t.name == "b64enc.RawURLEncoding" {
			return B(True)
		}
		return B(App("b64ok.RawURLEncoding", SBool, t))
	case "b64dec":
		t := e.tm(a[0])
		if t.op == "app" && t.name == "b64enc.RawURLEncoding" {
			return EV{v: t.args[0], t: tString}
		}
		return EV{v: App("b64dec.RawURLEncoding", SB, t), t: tString}
	case "kw", "ku":
		p, ok := e.tm(a[2]).i64()
		if !ok {
			return undef("pass of unknown number")
		}
		c := []*Term{e.tm(a[0]), e.tm(a[1]), kwpSteps(e.tm(a[1])), IntC(p), e.tm(a[3])}
		return EV{v: appCtor[f.s](c), t: tString}
	case "kwpsteps":
		return EV{v: kwpSteps(e.tm(a[0])), t: tInt}
	case "leftenc", "rightenc":
		return EV{v: e.encLenSpec(e.tm(a[0]), f.s), t: tString}
	}
	if m, ok := x.prog.spec.macros[f.s]; ok {
		return e.applyMacro(m, e.args(n))
	}
	return specErr("unknown function %s", f.s)
}

func (e *Env) dt(n *Node) *Term {
	t := e.tm(n)
	if t.sort == SInt {
		return Int2BV(t, 16)
	}
	return t
}

func (e *Env) isZero(v EV) *Term {
	switch w := v.v.(type) {
	case StructV:
		u := v.t.Underlying().(*types.Struct)
		var cs []*Term
		for i := range w.F {
			cs = append(cs, e.isZero(EV{v: w.F[i], t: u.Field(i).Type(), st: v.st}))
		}
		return And(cs...)
	case SliceV:
		return Eq(w.Len, IntC(0))
	case MapV:
		return w.Nil
	case AbsV:
		return Bool(w.Attr["zero"] == True)
	case *Term:
		if w.sort == SB && v.t != nil {
			if n, ok := isByteArray(v.t); ok {
				return Eq(w, Zeros(IntC(n)))
			}
		}
		if v.t != nil && isTime(v.t) {
			return Eq(w, zeroTime)
		}
		switch w.sort.Kind {
		case "bool":
			return Not(w)
		case "int":
			return Eq(w, IntC(0))
		case "bv":
			return Eq(w, BVC(w.sort.W, 0))
		}
		if w.sort == SB {
			return Eq(BLen(w), IntC(0))
		}
		if w.sort == SI {
			return Eq(w, INil)
		}
	case PtrV:
		return w.Nil
	}
	specErr("zero of %T", v.v)
	return nil
}

func (e *Env) applyMacro(m *Macro, as []EV) EV {
	if len(as) != len(m.params) {
		return specErr("%s takes %d arguments", m.name, len(m.params))
	}
	if m.body == nil || m.opaque != "" && m.opaque != e.expand {
		var ts []*Term
		for i, a := range as {
			t := e.term(a)
			so := sortByName(m.psorts[i])
			if t.sort != so {
				if so.Kind == "bv" && t.sort == SInt {
					t = Int2BV(t, so.W)
				} else {
					return specErr("argument %d of %s has sort %s", i, m.name, t.sort.Name)
				}
			}
			ts = append(ts, t)
		}
		r := e.x.prog.spec.app(e.x, m.name, ts)
		var ty types.Type
		if r.sort == SB {
			ty = tString
		}
		return EV{v: r, t: ty}
	}
	ne := *e
	ne.depth++
	if ne.depth > 60 {
		return specErr("macro recursion in %s", m.name)
	}
	ne.lets = nil
	ne.drawVars = nil
	ne.vars = map[string]EV{}
	for i, p := range m.params {
		ne.vars[p] = as[i]
	}
	return ne.eval(m.body)
}

// app applies an uninterpreted function of the specification, attaching its facts.
func (sp *Spec) app(x *Exec, name string, ts []*Term) *Term {
	m := sp.macros[name]
	if m == nil {
		panic("no function " + name)
	}
	// the block cipher of a key is a permutation
	if inv := map[string]string{"aesenc": "aesdec", "aesdec": "aesenc"}[name]; inv != "" {
		if t := ts[1]; t.op == "app" && t.name == inv && t.args[0] == ts[0] && BLen(t.args[1]) == IntC(16) {
			return t.args[1]
		}
	}
	t := App(name, sortByName(m.res), ts...)
	if len(ts) == 0 {
		t = Var(name, sortByName(m.res))
	}
	if t.bound || t.fdone {
		return t
	}
	if sp.factDepth >= 2 {
		return t // facts are added when the term occurs by itself
	}
	t.fdone = true
	if len(sp.facts[name]) > 0 {
		sp.factDepth++
		defer func() { sp.factDepth-- }()
		saved := decide
		decide = nil
		savedSt := x.curSt
		x.curSt = nil
		for _, f := range sp.facts[name] {
			e := &Env{x: x, cur: x.prog.base.clone(), vars: map[string]EV{}}
			for i, p := range f.params {
				e.vars[p] = EV{v: ts[i]}
			}
			e.vars["this"] = EV{v: t}
			b := e.boolean(f.body)
			t.AddFact(b)
			for _, c := range conjuncts(b) {
				if c.op == "=" && len(c.args) == 2 {
					for i := range c.args {
						if l := c.args[i]; l.op == "app" && l.name == "blen" && l.args[0] == t && c.args[1-i].op == "int" {
							lenKnown[t] = c.args[1-i]
						}
					}
				}
			}
		}
		decide = saved
		x.curSt = savedSt
	}
	return t
}

func (sp *Spec) registerHooks(x *Exec) {
	kwpCtors(x)
	for n := range sp.macros {
		n := n
		if sp.macros[n].opaque != "" || n == "aesenc" || n == "aesdec" {
			appCtor[n] = func(a []*Term) *Term { return sp.app(x, n, a) }
		}
	}
}

func (e *Env) invariant(v EV) *Term {
	if t, ok := v.v.(*Term); ok {
		if b, ok := boxed[t]; ok {
			return e.invariant(EV{v: b, st: v.st})
		}
		if t.sort == SI {
			return True // value of unknown type
		}
	}
	if iv, ok := v.v.(IfaceV); ok {
		return e.invariant(EV{v: iv.Val, t: iv.Dyn, st: v.st})
	}
	if p, ok := v.v.(PtrV); ok && p.Obj >= 0 {
		return e.invariant(e.deref(v))
	}
	if v.t == nil {
		return True
	}
	n := e.x.prog.spec.invs[absName(v.t)]
	if n == nil {
		return True
	}
	ne := *e
	ne.lets = nil
	ne.vars = map[string]EV{"self": v}
	return ne.boolean(n)
}

// findEvent is the last event of the kind on the record.
func (e *Env) findEvent(kind string, id, dt *Term) *Event {
	k := skey(id, dt)
	for i := len(e.cur.events) - 1; i >= e.evBase; i-- {
		ev := &e.cur.events[i]
		if ev.Kind != kind {
			continue
		}
		if c := Eq(skey(ev.Args["id"].(*Term), ev.Args["dt"].(*Term)), k); c == True {
			return ev
		} else if v, ok := dec(c); ok && v {
			return ev
		}
	}
	return nil
}

func isStorage(k string) bool { return k == "Put" || k == "Get" || k == "Update" || k == "Delete" }

func (e *Env) identity(p, tok *Term) EV {
	t := e.x.prog.pkgs["id"].Type("Identity").Type()
	return EV{v: e.x.identityOf(e.cur, p, tok), t: t}
}

func (x *Exec) storeSame(old, cur *State, ks []*Term) *Term {
	d0, v0, d1, v1 := x.storeDom(old), x.storeVal(old), x.storeDom(cur), x.storeVal(cur)
	if d0 == d1 && v0 == v1 {
		return True
	}
	k := BVar("k", SK)
	var ex []*Term
	for _, q := range ks {
		ex = append(ex, Eq(k, q))
	}
	same := And(Eq(Select(d1, k), Select(d0, k)), Imp(Select(d0, k), Eq(Select(v1, k), Select(v0, k))))
	return Forall([]*Term{k}, Or(append(ex, same)...))
}

// freshMem: the value refers to no memory that is shared with the caller or kept inside the library.
func (x *Exec) freshMem(st *State, v Value) bool {
	switch w := v.(type) {
	case SliceV:
		if w.Nil == True || w.Base.Obj < 0 {
			return true
		}
		return !objMeta[w.Base.Obj].caller && !objMeta[w.Base.Obj].internal
	case MapV:
		if w.Obj < 0 {
			return true
		}
		return !objMeta[w.Obj].caller && !objMeta[w.Obj].internal
	case StructV:
		for _, f := range w.F {
			if !x.freshMem(st, f) {
				return false
			}
		}
	}
	return true
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}
