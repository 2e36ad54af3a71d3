package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	binds  []Value
	stops  []*Stop
	defers []deferred
	depth  int
	unroll map[*ssa.BasicBlock]int // headers being unrolled
	undet  map[*ssa.BasicBlock]int
	call   string
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

type Stop struct {
	loop   *Loop
	cut    *ssa.BasicBlock // only run the header of a loop: stop at the first block of its body
	exits  bool            // also stop when leaving the loop
	reason string
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.unroll = map[*ssa.BasicBlock]int{}
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	n.undet = map[*ssa.BasicBlock]int{}
	for k, v := range f.undet {
		n.undet[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	return &n
}

type OutKind int

const (
	OReturn OutKind = iota
	OBack
	OExit
	OPanic
)

type Outcome struct {
	kind OutKind
	st   *State
	ret  Value // single value or TupleV
	fr   *Frame
	stop *Stop
	pred *ssa.BasicBlock
	blk  *ssa.BasicBlock
}

type Exec struct {
	interfLock string // the lock under which the unit changes shared maps
	useAttrs   map[string]map[string]*Term
	prog       *Program
	unit       *Unit
	fidx       []*Term // skolem arguments of fresh symbols (inside abstracted loops)
	quiet      int     // >0: dry run, obligations are not recorded
	steps      int
	maxSteps   int
	callS      []string
	opens      map[string]bool // abstract types whose representation is visible
	noUse      map[string]bool // contracts not to be used (the one under verification)
	inlined    map[string]bool
	used       map[string]bool
	models     map[string]bool
	assumes    map[string]bool
	loopsN     map[string]string
	curSt      *State
	mapIter    int
	undefNote  string
	boundN     int
	deadline   time.Time
	fixLen     map[string]int64 // lengths fixed by the contract
}

func (x *Exec) abstracts(t types.Type) bool { return !x.opens[absName(t)] }

func (x *Exec) fresh(name string, s *Sort) *Term {
	if len(x.fidx) > 0 {
		freshN++
		return App(fmt.Sprintf("%s!%d", clean(name), freshN), s, x.fidx...)
	}
	return Fresh(name, s)
}
func clean(h string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, h)
}
func (x *Exec) freshLen(name string) *Term {
	t := x.fresh(name, SInt)
	nonnegVar[t] = true
	t.AddFact(mk("<=", "", nil, SBool, IntC(0), t))
	t.AddFact(mk("<=", "", nil, SBool, t, IntBig(maxLen)))
	return t
}

// ---------- path condition queries

func (x *Exec) feasible(st *State, c *Term) bool {
	if c == False || st.infeasible() {
		return false
	}
	if c == True || st.known[c] {
		return true
	}
	if st.known[Not(c)] {
		return false
	}
	return check(append(append([]*Term{}, st.pc...), c), feasMS) != Unsat
}

var feasMS = 400
var obMS = 10000

// candMS is the time for a candidate loop invariant.
var candMS = 4001

func (x *Exec) holds(st *State, c *Term) bool {
	if c == True || st.infeasible() {
		return true
	}
	if st.known[c] {
		return true
	}
	return check(append(append([]*Term{}, st.pc...), Not(c)), feasMS) == Unsat
}

func (x *Exec) setDecide(st *State) {
	x.curSt = st
	decide = func(t *Term) (bool, bool) {
		s := x.curSt
		if s == nil {
			return false, false
		}
		if s.known[t] {
			return true, true
		}
		n := Not(t)
		if s.known[n] {
			return false, true
		}
		if check(append(append([]*Term{}, s.pc...), n), 300) == Unsat {
			return true, true
		}
		if check(append(append([]*Term{}, s.pc...), t), 300) == Unsat {
			return false, true
		}
		return false, false
	}
}

// fork on a condition: returns the states for true and false (nil when infeasible).
func (x *Exec) fork(st *State, c *Term) (*State, *State) {
	if c == True {
		return st, nil
	}
	if c == False {
		return nil, st
	}
	ft := x.feasible(st, c)
	ff := x.feasible(st, Not(c))
	switch {
	case ft && ff:
		b := st.clone()
		st.assume(c)
		b.assume(Not(c))
		return st, b
	case ft:
		st.assume(c)
		return st, nil
	case ff:
		st.assume(Not(c))
		return nil, st
	}
	return nil, nil
}

// mustHold records an obligation and continues under the condition.
func (x *Exec) mustHold(st *State, kind, what string, pos token.Pos, c *Term) {
	if c == True {
		return
	}
	if x.quiet == 0 && x.unit != nil {
		x.unit.obligation(x, st, kind, what, pos, c)
	}
	st.assume(c)
}

// ---------- running functions

const maxDepth = 60

// callFn runs fn on args and returns its outcomes (OReturn only; panicking paths are obligations).
func (x *Exec) callFn(st *State, fn *ssa.Function, args []Value, binds []Value, depth int) []Outcome {
	if depth > maxDepth {
		unsupported("call depth limit in %s", fn)
	}
	for _, c := range x.callS {
		if c == fn.String() {
			n := 0
			for _, d := range x.callS {
				if d == fn.String() {
					n++
				}
			}
			if n > 3 {
				unsupported("recursion in %s", fn)
			}
		}
	}
	if len(fn.Blocks) == 0 {
		unsupported("call of %s (no body)", fn)
	}
	// Deferred calls run at the return; the builtin recover itself is out of reach, and a panic fails its own obligation.
	x.callS = append(x.callS, fn.String())
	defer func() { x.callS = x.callS[:len(x.callS)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, binds: binds, depth: depth, unroll: map[*ssa.BasicBlock]int{}, undet: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = binds[i]
	}
	return x.run(st, fr, fn.Blocks[0], nil, 0)
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(st, c)
	case *ssa.Global:
		return x.prog.globalPtr(x, st, c)
	case *ssa.Function:
		return FuncV{Fn: c}
	case *ssa.Builtin:
		return FuncV{}
	}
	r, ok := fr.env[v]
	if !ok {
		unsupported("undefined ssa value %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) constVal(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(st, t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if tp, ok := t.(*types.TypeParam); ok {
			return unsupported("constant of type parameter %s", tp)
		}
		return unsupported("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return BLit(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			return unsupported("const %s", c)
		}
		if b.Info()&types.IsUnsigned != 0 {
			return BVBig(bitsOf(t), n)
		}
		return IntBig(n)
	case b.Info()&types.IsFloat != 0:
		return OpaqueV{t}
	}
	return unsupported("const %s", c)
}

func (x *Exec) run(st *State, fr *Frame, blk, pred *ssa.BasicBlock, idx int) []Outcome {
	for {
		x.steps++
		if x.maxSteps > 0 && x.steps > x.maxSteps {
			unsupported("step limit")
		}
		if !x.deadline.IsZero() && time.Now().After(x.deadline) {
			unsupported("time limit")
		}
		if idx == 0 {
			// loop bookkeeping
			for i := len(fr.stops) - 1; i >= 0; i-- {
				s := fr.stops[i]
				if s.cut != nil {
					if blk == s.cut {
						return []Outcome{{kind: OBack, st: st, fr: fr, stop: s, pred: pred, blk: blk}}
					}
					if !s.loop.body[blk] {
						return []Outcome{{kind: OExit, st: st, fr: fr, stop: s, pred: pred, blk: blk}}
					}
					continue
				}
				if blk == s.loop.header && s.loop.body[pred] {
					return []Outcome{{kind: OBack, st: st, fr: fr, stop: s, pred: pred, blk: blk}}
				}
				if s.exits && !s.loop.body[blk] {
					return []Outcome{{kind: OExit, st: st, fr: fr, stop: s, pred: pred, blk: blk}}
				}
			}
			if L := x.prog.loopsOf(fr.fn)[blk]; L != nil && pred != nil {
				if !L.body[pred] {
					delete(fr.unroll, blk)
				}
				// an unrolled loop is abstracted as soon as its condition is not concrete any more
				if x.loopMode(st, fr, L, pred) == "inv" {
					return x.invariantLoop(st, fr, L, pred)
				}
				fr.unroll[blk]++
				if x.boundN > 0 && fr.unroll[blk] > x.boundN+1 {
					return nil // beyond the stated bound
				}
				if fr.unroll[blk] > x.unrollLimit() {
					unsupported("loop in %s unrolled more than %d times", fr.fn, x.unrollLimit())
				}
			}
			// phis
			var phis []*ssa.Phi
			for _, in := range blk.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					phis = append(phis, p)
				} else {
					break
				}
			}
			if len(phis) > 0 && pred != nil {
				var k int
				for i, p := range blk.Preds {
					if p == pred {
						k = i
					}
				}
				vals := make([]Value, len(phis))
				for i, p := range phis {
					vals[i] = x.val(st, fr, p.Edges[k])
				}
				for i, p := range phis {
					fr.env[p] = vals[i]
				}
			}
			idx = len(phis)
		}
		outs, ns, next, done := x.block(st, fr, blk, idx)
		if done {
			return outs
		}
		st = ns
		pred, blk, idx = blk, next, 0
	}
}

// block executes from instruction idx; either falls to a single successor or returns outcomes.
func (x *Exec) block(st *State, fr *Frame, blk *ssa.BasicBlock, idx int) ([]Outcome, *State, *ssa.BasicBlock, bool) {
	x.setDecide(st)
	for i := idx; i < len(blk.Instrs); i++ {
		in := blk.Instrs[i]
		switch v := in.(type) {
		case *ssa.If:
			c := x.val(st, fr, v.Cond).(*Term)
			if c == True {
				return nil, st, blk.Succs[0], false
			}
			if c == False {
				return nil, st, blk.Succs[1], false
			}
			a, b := x.fork(st, c)
			if a != nil && b != nil {
				fr2 := fr.clone()
				outs := x.run(a, fr, blk.Succs[0], blk, 0)
				x.setDecide(b)
				outs = append(outs, x.run(b, fr2, blk.Succs[1], blk, 0)...)
				return outs, nil, nil, true
			}
			if a != nil {
				return nil, a, blk.Succs[0], false
			}
			if b != nil {
				return nil, b, blk.Succs[1], false
			}
			return nil, nil, nil, true
		case *ssa.Jump:
			return nil, st, blk.Succs[0], false
		case *ssa.Return:
			var ret Value
			switch len(v.Results) {
			case 0:
				ret = TupleV{}
			case 1:
				ret = x.val(st, fr, v.Results[0])
			default:
				tv := TupleV{}
				for _, r := range v.Results {
					tv.E = append(tv.E, x.val(st, fr, r))
				}
				ret = tv
			}
			return []Outcome{{kind: OReturn, st: st, ret: ret, fr: fr}}, nil, nil, true
		case *ssa.Panic:
			x.mustHold(st, "panic", "explicit panic", v.Pos(), False)
			return nil, nil, nil, true
		case *ssa.Call:
			res := x.call(st, fr, &v.Call, v, fr.depth)
			if len(res) == 0 {
				return nil, nil, nil, true
			}
			if len(res) == 1 {
				st = res[0].st
				x.setDecide(st)
				fr.env[v] = res[0].ret
				continue
			}
			var outs []Outcome
			for k, r := range res {
				f2 := fr
				if k < len(res)-1 {
					f2 = fr.clone()
				}
				f2.env[v] = r.ret
				x.setDecide(r.st)
				o, s2, nb, done := x.block(r.st, f2, blk, i+1)
				if !done {
					o = x.run(s2, f2, nb, blk, 0)
				}
				outs = append(outs, o...)
			}
			return outs, nil, nil, true
		case *ssa.RunDefers:
			states := []*State{st}
			for k := len(fr.defers) - 1; k >= 0; k-- {
				d := fr.defers[k]
				var ns []*State
				for _, s := range states {
					x.setDecide(s)
					for _, o := range x.callValue(s, d.fn, d.args, d.call, nil, fr.depth) {
						ns = append(ns, o.st)
					}
				}
				states = ns
			}
			fr.defers = nil
			if len(states) == 0 {
				return nil, nil, nil, true
			}
			if len(states) == 1 {
				st = states[0]
				x.setDecide(st)
				continue
			}
			var outs []Outcome
			for _, s := range states {
				f2 := fr.clone()
				x.setDecide(s)
				o, s2, nb, done := x.block(s, f2, blk, i+1)
				if !done {
					o = x.run(s2, f2, nb, blk, 0)
				}
				outs = append(outs, o...)
			}
			return outs, nil, nil, true
		case *ssa.Next:
			res := x.next(st, fr, v)
			if len(res) == 1 {
				st = res[0].st
				x.setDecide(st)
				fr.env[v] = res[0].ret
				continue
			}
			var outs []Outcome
			for k, r := range res {
				f2 := fr
				if k < len(res)-1 {
					f2 = fr.clone()
				}
				f2.env[v] = r.ret
				x.setDecide(r.st)
				o, s2, nb, done := x.block(r.st, f2, blk, i+1)
				if !done {
					o = x.run(s2, f2, nb, blk, 0)
				}
				outs = append(outs, o...)
			}
			return outs, nil, nil, true
		case *ssa.TypeAssert:
			res := x.typeAssert(st, fr, v)
			if len(res) == 0 {
				return nil, nil, nil, true
			}
			if len(res) == 1 {
				st = res[0].st
				x.setDecide(st)
				fr.env[v] = res[0].ret
				continue
			}
			var outs []Outcome
			for k, r := range res {
				f2 := fr
				if k < len(res)-1 {
					f2 = fr.clone()
				}
				f2.env[v] = r.ret
				x.setDecide(r.st)
				o, s2, nb, done := x.block(r.st, f2, blk, i+1)
				if !done {
					o = x.run(s2, f2, nb, blk, 0)
				}
				outs = append(outs, o...)
			}
			return outs, nil, nil, true
		default:
			x.instr(st, fr, in)
		}
		if st.infeasible() {
			return nil, nil, nil, true
		}
	}
	panic("block without terminator")
}

func (x *Exec) instr(st *State, fr *Frame, in ssa.Instruction) {
	switch v := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := v.Type().Underlying().(*types.Pointer).Elem()
		o := x.newObj(st, v.Comment, et, nil)
		st.heap[o] = x.zero(st, et)
		fr.env[v] = notNil(o)
	case *ssa.BinOp:
		fr.env[v] = x.binop(st, v.Op, x.val(st, fr, v.X), x.val(st, fr, v.Y), v.X.Type(), v.Y.Type(), v.Type(), v.Pos())
	case *ssa.UnOp:
		a := x.val(st, fr, v.X)
		switch v.Op {
		case token.MUL:
			p, ok := a.(PtrV)
			if o, isOp := a.(OpaqueV); isOp {
				// what an opaque pointer points to is opaque as well (loggers)
				if pt, ok := o.Typ.Underlying().(*types.Pointer); ok && strings.HasPrefix(fnTypeKey(pt.Elem()), "github.com/rs/zerolog.") {
					fr.env[v] = OpaqueV{pt.Elem()}
					break
				}
			}
			if !ok {
				unsupported("load via %T", a)
			}
			x.mustHold(st, "panic", "nil pointer dereference", v.Pos(), Not(p.Nil))
			fr.env[v] = x.load(st, p)
		case token.NOT:
			fr.env[v] = Not(a.(*Term))
		case token.SUB:
			t := a.(*Term)
			if t.sort.Kind == "bv" {
				fr.env[v] = bvBin("bvsub", BVC(t.sort.W, 0), t)
			} else {
				fr.env[v] = x.inRange(st, Sub(IntC(0), t), v.Type(), v.Pos())
			}
		case token.XOR:
			t := a.(*Term)
			if t.sort.Kind == "bv" {
				fr.env[v] = BVNot(t)
			} else {
				fr.env[v] = Sub(IntC(-1), t)
			}
		default:
			unsupported("unop %s", v.Op)
		}
	case *ssa.ChangeType:
		fr.env[v] = x.val(st, fr, v.X)
	case *ssa.ChangeInterface:
		fr.env[v] = x.val(st, fr, v.X)
	case *ssa.Convert:
		fr.env[v] = x.convert(st, x.val(st, fr, v.X), v.X.Type(), v.Type(), v.Pos())
	case *ssa.SliceToArrayPointer:
		s := x.val(st, fr, v.X).(SliceV)
		at := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		x.mustHold(st, "panic", "slice to array length", v.Pos(), Le(IntC(at.Len()), s.Len))
		unsupported("slice to array pointer")
	case *ssa.MakeInterface:
		a := x.val(st, fr, v.X)
		if _, ok := a.(OpaqueV); ok {
			fr.env[v] = a
			break
		}
		fr.env[v] = IfaceV{v.X.Type(), a}
	case *ssa.MakeClosure:
		var b []Value
		for _, f := range v.Bindings {
			b = append(b, x.val(st, fr, f))
		}
		fr.env[v] = FuncV{v.Fn.(*ssa.Function), b}
	case *ssa.MakeMap:
		mt := v.Type().Underlying().(*types.Map)
		o := x.newObj(st, "map", v.Type(), x.emptyMap(mt))
		fr.env[v] = MapV{False, o}
	case *ssa.MakeSlice:
		et := v.Type().Underlying().(*types.Slice).Elem()
		n := x.toInt(x.val(st, fr, v.Len), v.Len.Type())
		c := x.toInt(x.val(st, fr, v.Cap), v.Cap.Type())
		x.mustHold(st, "panic", "makeslice: len out of range", v.Pos(), And(Le(IntC(0), n), Le(n, c)))
		fr.env[v] = x.makeSlice(st, et, n, c)
	case *ssa.Slice:
		fr.env[v] = x.sliceOp(st, fr, v)
	case *ssa.FieldAddr:
		a := x.val(st, fr, v.X)
		p, ok := a.(PtrV)
		if !ok {
			if _, ok := a.(OpaqueV); ok {
				fr.env[v] = a
				return
			}
			unsupported("field address of %T", a)
		}
		x.mustHold(st, "panic", "nil pointer dereference", v.Pos(), Not(p.Nil))
		fr.env[v] = fieldPtr(p, v.Field)
	case *ssa.Field:
		a := x.val(st, fr, v.X)
		sv, ok := a.(StructV)
		if !ok {
			unsupported("field of %T", a)
		}
		fr.env[v] = sv.F[v.Field]
	case *ssa.IndexAddr:
		i := x.toInt(x.val(st, fr, v.Index), v.Index.Type())
		switch a := x.val(st, fr, v.X).(type) {
		case SliceV:
			x.mustHold(st, "panic", "index out of range", v.Pos(), And(Le(IntC(0), i), Lt(i, a.Len)))
			i = x.concretize(st, fr, i)
			fr.env[v] = elemPtr(a, i)
		case PtrV:
			n := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			x.mustHold(st, "panic", "index out of range", v.Pos(), And(Le(IntC(0), i), Lt(i, IntC(n))))
			p := a
			i = x.concretize(st, fr, i)
			p.Path = append(append([]PathE{}, p.Path...), PathE{-1, i})
			fr.env[v] = p
		default:
			unsupported("index address of %T", a)
		}
	case *ssa.Index:
		i := x.toInt(x.val(st, fr, v.Index), v.Index.Type())
		switch a := x.val(st, fr, v.X).(type) {
		case *Term:
			x.mustHold(st, "panic", "index out of range", v.Pos(), And(Le(IntC(0), i), Lt(i, BLen(a))))
			fr.env[v] = BNth(a, i)
		case ArrayV:
			x.mustHold(st, "panic", "index out of range", v.Pos(), And(Le(IntC(0), i), Lt(i, IntC(int64(len(a.E))))))
			fr.env[v] = x.project(st, a, PathE{-1, i}, PtrV{}, 0)
		default:
			unsupported("index of %T", a)
		}
	case *ssa.Lookup:
		fr.env[v] = x.lookup(st, fr, v)
	case *ssa.MapUpdate:
		m, ok := x.val(st, fr, v.Map).(MapV)
		if !ok {
			unsupported("map update on %T", x.val(st, fr, v.Map))
		}
		x.mustHold(st, "panic", "assignment to entry in nil map", v.Pos(), Not(m.Nil))
		x.interfere(st, PtrV{Nil: False, Obj: m.Obj})
		c := x.mapC(st, m)
		k := x.scalar(st, x.val(st, fr, v.Key), c.K)
		x.atomic(st, True, Select(c.Dom, k), True, true)
		st.heap[m.Obj] = x.mapStore(st, c, k, x.val(st, fr, v.Value))
	case *ssa.Store:
		p, ok := x.val(st, fr, v.Addr).(PtrV)
		if !ok {
			if _, ok := x.val(st, fr, v.Addr).(OpaqueV); ok {
				unsupported("store through opaque pointer")
			}
			unsupported("store via %T", x.val(st, fr, v.Addr))
		}
		x.mustHold(st, "panic", "nil pointer dereference", v.Pos(), Not(p.Nil))
		x.storeAt(st, p, x.val(st, fr, v.Val))
	case *ssa.Extract:
		t, ok := x.val(st, fr, v.Tuple).(TupleV)
		if !ok {
			unsupported("extract from %T", x.val(st, fr, v.Tuple))
		}
		fr.env[v] = t.E[v.Index]
	case *ssa.Range:
		switch m := x.val(st, fr, v.X).(type) {
		case MapV:
			mt := v.X.Type().Underlying().(*types.Map)
			ks := keySort(mt.Key())
			x.mapIter++
			vis := fmt.Sprintf("vis#%d", x.mapIter)
			st.ghost[vis] = ConstArr(Arr(ks, SBool), False)
			dom := ConstArr(Arr(ks, SBool), False)
			if m.Obj >= 0 {
				dom = x.mapC(st, m).Dom
			}
			fr.env[v] = RangeV{M: m, Vis: vis, Dom0: dom, KT: mt.Key(), ET: mt.Elem()}
		default:
			unsupported("range over %T", m)
		}
	case *ssa.Defer:
		fv, args := x.calleeArgs(st, fr, &v.Call)
		fr.defers = append(fr.defers, deferred{&v.Call, fv, args})
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		unsupported("concurrency: %T", v)
	default:
		unsupported("instruction %T", v)
	}
}

// concretize an index when the path determines it (only for indexes into concrete arrays).
func (x *Exec) concretize(st *State, fr *Frame, i *Term) *Term { return i }

func (x *Exec) toInt(v Value, t types.Type) *Term {
	w := v.(*Term)
	if w.sort.Kind == "bv" {
		return BV2Int(w)
	}
	return w
}

func (x *Exec) makeSlice(st *State, et types.Type, n, c *Term) SliceV {
	var o int
	switch {
	case isByte(et):
		o = x.newObj(st, "make", nil, Zeros(c))
	default:
		if k, ok := c.i64(); ok && k <= 64 {
			av := ArrayV{}
			for i := int64(0); i < k; i++ {
				av.E = append(av.E, x.zero(st, et))
			}
			o = x.newObj(st, "make", nil, av)
		} else {
			sa := SymArr{Elem: et}
			zs := x.toLeaves(st, x.zero(st, et), et)
			for i, l := range leavesOf(et) {
				sa.Leaves = append(sa.Leaves, ConstArr(Arr(SInt, l.sort), zs[i]))
			}
			o = x.newObj(st, "make", nil, sa)
		}
	}
	return SliceV{Nil: False, Base: notNil(o), Off: IntC(0), Len: n, Cap: c}
}

func (x *Exec) mapStore(st *State, c MapC, k *Term, v Value) MapC {
	n := MapC{Dom: Store(c.Dom, k, True), K: c.K, E: c.E}
	if len(c.Leaves) > 0 {
		ls := x.toLeaves(st, v, c.E)
		for i, a := range c.Leaves {
			n.Leaves = append(n.Leaves, Store(a, k, ls[i]))
		}
	}
	return n
}

func (x *Exec) mapGet(st *State, c MapC, k *Term) (Value, *Term) {
	in := Select(c.Dom, k)
	var ls []*Term
	for _, a := range c.Leaves {
		ls = append(ls, Select(a, k))
	}
	v, _ := x.fromLeaves(st, ls, c.E)
	return v, in
}

func (x *Exec) lookup(st *State, fr *Frame, v *ssa.Lookup) Value {
	a := x.val(st, fr, v.X)
	if t, ok := a.(*Term); ok { // string index
		i := x.toInt(x.val(st, fr, v.Index), v.Index.Type())
		x.mustHold(st, "panic", "index out of range", v.Pos(), And(Le(IntC(0), i), Lt(i, BLen(t))))
		return BNth(t, i)
	}
	m := a.(MapV)
	mt := v.X.Type().Underlying().(*types.Map)
	zero := x.zero(st, mt.Elem())
	if m.Obj < 0 {
		if v.CommaOk {
			return TupleV{[]Value{zero, False}}
		}
		return zero
	}
	x.interfere(st, PtrV{Nil: False, Obj: m.Obj})
	c := x.mapC(st, m)
	k := x.scalar(st, x.val(st, fr, v.Index), c.K)
	in := Select(c.Dom, k)
	x.atomic(st, False, in, in, true)
	val, _ := x.mapGet(st, c, k)
	res := x.iteValue(st, in, val, zero, mt.Elem())
	if v.CommaOk {
		return TupleV{[]Value{res, in}}
	}
	return res
}

// iteValue selects between two values of type t.
func (x *Exec) iteValue(st *State, c *Term, a, b Value, t types.Type) Value {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	switch p := a.(type) {
	case *Term:
		switch q := b.(type) {
		case *Term:
			return Ite(c, p, q)
		case IfaceV:
			return Ite(c, p, x.boxIface(st, q))
		}
	case IfaceV:
		return x.iteValue(st, c, x.boxIface(st, p), b, t)
	case StructV:
		q := b.(StructV)
		u := t.Underlying().(*types.Struct)
		r := StructV{}
		for i := range p.F {
			r.F = append(r.F, x.iteValue(st, c, p.F[i], q.F[i], u.Field(i).Type()))
		}
		return r
	case SliceV:
		q := b.(SliceV)
		if isBytes(t) {
			cc := Ite(c, x.content(st, p), x.content(st, q))
			s := x.newBytes(st, "ite", cc)
			s.Nil = Ite(c, p.Nil, q.Nil)
			return s
		}
	}
	return unsupported("conditional value of type %s", t)
}

func (x *Exec) sliceOp(st *State, fr *Frame, v *ssa.Slice) Value {
	get := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return x.toInt(x.val(st, fr, e), e.Type())
	}
	lo, hi, mx := get(v.Low), get(v.High), get(v.Max)
	if lo == nil {
		lo = IntC(0)
	}
	switch a := x.val(st, fr, v.X).(type) {
	case SliceV:
		if hi == nil {
			hi = a.Len
		}
		cp := a.Cap
		if mx != nil {
			x.mustHold(st, "panic", "slice bounds out of range", v.Pos(), And(Le(hi, mx), Le(mx, a.Cap)))
			cp = mx
		}
		x.mustHold(st, "panic", "slice bounds out of range", v.Pos(), And(Le(IntC(0), lo), Le(lo, hi), Le(hi, cp)))
		return SliceV{Nil: a.Nil, Base: a.Base, Off: Add(a.Off, lo), Len: Sub(hi, lo), Cap: Sub(cp, lo)}
	case PtrV:
		x.mustHold(st, "panic", "nil pointer dereference", v.Pos(), Not(a.Nil))
		n := IntC(v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			cp = mx
		}
		x.mustHold(st, "panic", "slice bounds out of range", v.Pos(), And(Le(IntC(0), lo), Le(lo, hi), Le(hi, cp), Le(cp, n)))
		b := a
		b.Nil = False
		return SliceV{Nil: False, Base: b, Off: lo, Len: Sub(hi, lo), Cap: Sub(cp, lo)}
	case *Term: // string
		if hi == nil {
			hi = BLen(a)
		}
		x.mustHold(st, "panic", "slice bounds out of range", v.Pos(), And(Le(IntC(0), lo), Le(lo, hi), Le(hi, BLen(a))))
		return BSub(a, lo, hi)
	default:
		return unsupported("slice of %T", a)
	}
}

// ---------- operators

func intBounds(b int) (*Term, *Term) {
	hi := new(big.Int).Lsh(big.NewInt(1), uint(b-1))
	lo := new(big.Int).Neg(hi)
	return IntBig(lo), IntBig(new(big.Int).Sub(hi, big.NewInt(1)))
}

// syntactic interval of a term
func interval(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case "int":
		return t.num, t.num
	case "+":
		lo, hi = new(big.Int), new(big.Int)
		for _, a := range t.args {
			l, h := interval(a)
			if l == nil || h == nil {
				return nil, nil
			}
			lo = new(big.Int).Add(lo, l)
			hi = new(big.Int).Add(hi, h)
		}
		return lo, hi
	case "*":
		l1, h1 := interval(t.args[0])
		l2, h2 := interval(t.args[1])
		if l1 == nil || l2 == nil || h1 == nil || h2 == nil {
			return nil, nil
		}
		var vs []*big.Int
		for _, a := range []*big.Int{l1, h1} {
			for _, b := range []*big.Int{l2, h2} {
				vs = append(vs, new(big.Int).Mul(a, b))
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Cmp(vs[j]) < 0 })
		return vs[0], vs[3]
	case "bv2nat":
		return new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(t.args[0].sort.W))
	case "mod":
		if t.args[1].op == "int" {
			return new(big.Int), new(big.Int).Abs(t.args[1].num)
		}
	case "div":
		if t.args[1].op == "int" && t.args[1].num.Sign() > 0 {
			l, h := interval(t.args[0])
			if l != nil && h != nil {
				return new(big.Int).Sub(l, big.NewInt(1)), new(big.Int).Add(h, big.NewInt(1))
			}
		}
	case "ite":
		l1, h1 := interval(t.args[1])
		l2, h2 := interval(t.args[2])
		if l1 == nil || l2 == nil || h1 == nil || h2 == nil {
			return nil, nil
		}
		if l2.Cmp(l1) < 0 {
			l1 = l2
		}
		if h2.Cmp(h1) > 0 {
			h1 = h2
		}
		return l1, h1
	case "app":
		if t.name == "blen" {
			return new(big.Int), maxLen
		}
	}
	if nonnegVar[t] {
		return new(big.Int), maxLen
	}
	return nil, nil
}

// inRange adds the no-overflow obligation for a signed result.
func (x *Exec) inRange(st *State, t *Term, ty types.Type, pos token.Pos) *Term {
	if isTime(ty) {
		return t
	}
	lo, hi := intBounds(bitsOf(ty))
	if l, h := interval(t); l != nil && h != nil && l.Cmp(lo.num) >= 0 && h.Cmp(hi.num) <= 0 {
		return t
	}
	x.mustHold(st, "overflow", "integer overflow", pos, And(Le(lo, t), Le(t, hi)))
	return t
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, ta, tb, tr types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL:
		return x.eqValue(st, a, b, ta, tb)
	case token.NEQ:
		return Not(x.eqValue(st, a, b, ta, tb))
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		return unsupported("binop %s on %T %T", op, a, b)
	}
	if p.sort.Kind == "bv" {
		w := p.sort.W
		if op == token.SHL || op == token.SHR {
			var sh *Term
			if q.sort.Kind == "bv" {
				if q.sort.W > w {
					big := bvCmp("bvult", q, BVC(q.sort.W, uint64(w)))
					sh = Ite(big, Extract(w-1, 0, q), BVC(w, uint64(w)))
					if q.op == "bv" {
						if q.num.Cmp(bigInt(int64(w))) >= 0 {
							sh = BVC(w, uint64(w))
						} else {
							sh = BVC(w, q.num.Uint64())
						}
					}
				} else {
					sh = ZExt(q, w)
				}
			} else {
				x.mustHold(st, "panic", "negative shift", pos, Le(IntC(0), q))
				if k, ok := q.i64(); ok {
					if k >= int64(w) {
						k = int64(w)
					}
					sh = BVC(w, uint64(k))
				} else {
					sh = Ite(Le(q, IntC(int64(w))), Int2BV(q, w), BVC(w, uint64(w)))
				}
			}
			if op == token.SHL {
				return bvBin("bvshl", p, sh)
			}
			return bvBin("bvlshr", p, sh)
		}
		switch op {
		case token.ADD:
			return bvBin("bvadd", p, q)
		case token.SUB:
			return bvBin("bvsub", p, q)
		case token.MUL:
			return bvBin("bvmul", p, q)
		case token.QUO:
			x.mustHold(st, "panic", "division by zero", pos, Not(Eq(q, BVC(w, 0))))
			return bvBin("bvudiv", p, q)
		case token.REM:
			x.mustHold(st, "panic", "division by zero", pos, Not(Eq(q, BVC(w, 0))))
			return bvBin("bvurem", p, q)
		case token.AND:
			return bvBin("bvand", p, q)
		case token.OR:
			return bvBin("bvor", p, q)
		case token.XOR:
			return bvBin("bvxor", p, q)
		case token.AND_NOT:
			return bvBin("bvand", p, BVNot(q))
		case token.LSS:
			return bvCmp("bvult", p, q)
		case token.LEQ:
			return bvCmp("bvule", p, q)
		case token.GTR:
			return bvCmp("bvult", q, p)
		case token.GEQ:
			return bvCmp("bvule", q, p)
		}
	}
	if p.sort == SInt {
		if q.sort.Kind == "bv" { // shifts of signed by unsigned
			q = BV2Int(q)
		}
		switch op {
		case token.ADD:
			return x.inRange(st, Add(p, q), tr, pos)
		case token.SUB:
			return x.inRange(st, Sub(p, q), tr, pos)
		case token.MUL:
			return x.inRange(st, Mul(p, q), tr, pos)
		case token.QUO:
			x.mustHold(st, "panic", "division by zero", pos, Not(Eq(q, IntC(0))))
			return DivT(p, q)
		case token.REM:
			x.mustHold(st, "panic", "division by zero", pos, Not(Eq(q, IntC(0))))
			return ModT(p, q)
		case token.LSS:
			return Lt(p, q)
		case token.LEQ:
			return Le(p, q)
		case token.GTR:
			return Lt(q, p)
		case token.GEQ:
			return Le(q, p)
		case token.SHL:
			if k, ok := q.i64(); ok && k >= 0 && k < 63 {
				return x.inRange(st, Mul(IntBig(new(big.Int).Lsh(big.NewInt(1), uint(k))), p), tr, pos)
			}
		case token.SHR:
			if k, ok := q.i64(); ok && k >= 0 && k < 63 {
				return mkDivFloor(p, IntBig(new(big.Int).Lsh(big.NewInt(1), uint(k))))
			}
		case token.AND:
			// x & (2^k-1) for nonnegative x
			if q.op != "int" {
				p, q = q, p
			}
			if q.op == "int" && q.num.Sign() >= 0 {
				m := new(big.Int).Add(q.num, big.NewInt(1))
				if new(big.Int).And(m, q.num).Sign() == 0 {
					return mkModFloor(p, IntBig(m))
				}
			}
		case token.OR, token.XOR, token.AND_NOT:
		}
		bw := bitsOf(tr)
		f := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}[op]
		if f != "" {
			x.mustHold(st, "overflow", "bit operation on possibly negative int", pos, And(Le(IntC(0), p), Le(IntC(0), q)))
			return BV2Int(bvBin(f, Int2BV(p, bw), Int2BV(q, bw)))
		}
		return unsupported("int op %s", op)
	}
	if p.sort == SB {
		switch op {
		case token.ADD:
			return withCuts([]*Term{p, q})
		case token.LSS:
			return App("blt", SBool, p, q)
		case token.GTR:
			return App("blt", SBool, q, p)
		case token.LEQ:
			return Or(Eq(p, q), App("blt", SBool, p, q))
		case token.GEQ:
			return Or(Eq(p, q), App("blt", SBool, q, p))
		}
	}
	if p.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(p, q)
		case token.OR, token.LOR:
			return Or(p, q)
		}
	}
	return unsupported("binop %s on sort %s", op, p.sort.Name)
}

func bigInt(n int64) *big.Int { return big.NewInt(n) }

func mkDivFloor(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return IntBig(new(big.Int).Div(a.num, b.num))
	}
	return mk("div", "", nil, SInt, a, b)
}
func mkModFloor(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return IntBig(new(big.Int).Mod(a.num, b.num))
	}
	return mk("mod", "", nil, SInt, a, b)
}

func (x *Exec) eqValue(st *State, a, b Value, ta, tb types.Type) *Term {
	switch p := a.(type) {
	case *Term:
		switch q := b.(type) {
		case *Term:
			if p.sort != q.sort {
				if p.sort == SI {
					return Eq(p, x.boxIface(st, IfaceV{tb, q}))
				}
				if q.sort == SI {
					return Eq(q, x.boxIface(st, IfaceV{ta, p}))
				}
			}
			return Eq(p, q)
		case AbsV:
			if p == INil {
				return False
			}
		case IfaceV:
			if p == INil {
				return False
			}
			return Eq(p, x.boxIface(st, q))
		}
	case IfaceV:
		switch q := b.(type) {
		case *Term:
			return x.eqValue(st, b, a, tb, ta)
		case IfaceV:
			if !types.Identical(p.Dyn, q.Dyn) {
				return False
			}
			return x.eqValue(st, p.Val, q.Val, p.Dyn, q.Dyn)
		}
	case StructV:
		q, ok := b.(StructV)
		if ok {
			u := ta.Underlying().(*types.Struct)
			var cs []*Term
			for i := range p.F {
				cs = append(cs, x.eqValue(st, p.F[i], q.F[i], u.Field(i).Type(), u.Field(i).Type()))
			}
			return And(cs...)
		}
	case PtrV:
		if _, ok := b.(AbsV); ok {
			return x.eqValue(st, b, a, tb, ta)
		}
		q, ok := b.(PtrV)
		if ok {
			if q.Obj < 0 {
				return p.Nil
			}
			if p.Obj < 0 {
				return q.Nil
			}
			same := p.Obj == q.Obj && len(p.Path) == len(q.Path)
			if same {
				for i := range p.Path {
					if p.Path[i] != q.Path[i] {
						if p.Path[i].Idx != nil || q.Path[i].Idx != nil {
							unsupported("comparison of element pointers")
						}
						same = false
					}
				}
			}
			if same {
				return Or(And(p.Nil, q.Nil), And(Not(p.Nil), Not(q.Nil)))
			}
			return And(p.Nil, q.Nil)
		}
	case SliceV:
		if q, ok := b.(SliceV); ok {
			if q.Nil == True {
				return p.Nil
			}
			if p.Nil == True {
				return q.Nil
			}
		}
	case MapV:
		if q, ok := b.(MapV); ok {
			if q.Nil == True {
				return p.Nil
			}
			if p.Nil == True {
				return q.Nil
			}
		}
	case FuncV:
		if q, ok := b.(FuncV); ok {
			if q.Fn == nil {
				return Bool(p.Fn == nil)
			}
			if p.Fn == nil {
				return Bool(q.Fn == nil)
			}
		}
	case OpaqueV:
		if q, ok := b.(PtrV); ok && q.Obj < 0 {
			return x.fresh("opaque.nil", SBool)
		}
		if q, ok := b.(*Term); ok && q == INil {
			return x.fresh("opaque.nil", SBool)
		}
	case AbsV:
		if q, ok := b.(PtrV); ok && q.Obj < 0 {
			return False
		}
		if b == INil {
			return False
		}
		unsupported("comparison of abstract values")
	}
	if _, ok := b.(OpaqueV); ok {
		return x.eqValue(st, b, a, tb, ta)
	}
	unsupported("comparison of %T and %T", a, b)
	return nil
}

func (x *Exec) convert(st *State, v Value, from, to types.Type, pos token.Pos) Value {
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if isString(to) && isBytes(from) {
		return x.content(st, v.(SliceV))
	}
	if isBytes(to) && isString(from) {
		return x.newBytes(st, "bytes", v.(*Term))
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		t, ok := v.(*Term)
		if !ok {
			return unsupported("convert %T", v)
		}
		fu, tu := fb.Info()&types.IsUnsigned != 0, tb.Info()&types.IsUnsigned != 0
		wf, wt := bitsOf(from), bitsOf(to)
		switch {
		case fu && tu:
			if wt <= wf {
				return Extract(wt-1, 0, t)
			}
			return ZExt(t, wt)
		case !fu && tu:
			return Int2BV(t, wt)
		case fu && !tu:
			n := BV2Int(t)
			if wf < wt {
				return n
			}
			if wf > wt {
				n = BV2Int(Extract(wt-1, 0, t))
			}
			half := new(big.Int).Lsh(big.NewInt(1), uint(wt-1))
			full := new(big.Int).Lsh(big.NewInt(1), uint(wt))
			if l, h := interval(n); l != nil && h.Cmp(half) < 0 {
				return n
			}
			return Ite(Lt(n, IntBig(half)), n, Sub(n, IntBig(full)))
		default:
			if wt >= wf {
				return t
			}
			lo, hi := intBounds(wt)
			if l, h := interval(t); l != nil && l.Cmp(lo.num) >= 0 && h.Cmp(hi.num) <= 0 {
				return t
			}
			half := new(big.Int).Lsh(big.NewInt(1), uint(wt-1))
			full := new(big.Int).Lsh(big.NewInt(1), uint(wt))
			return Sub(mkModFloor(Add(t, IntBig(half)), IntBig(full)), IntBig(half))
		}
	}
	if ok1 && ok2 && tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0 {
		return App("runestr", SB, x.toInt(v, from))
	}
	return unsupported("conversion %s -> %s", from, to)
}

// ---------- map iteration and type assertions

type stRet struct {
	st  *State
	ret Value
}

// finite domain of a set term built by stores over the empty set
func domElems(dom *Term) ([]*Term, bool) {
	var out []*Term
	for dom.op == "store" {
		if dom.args[2] != True {
			return nil, false
		}
		out = append(out, dom.args[1])
		dom = dom.args[0]
	}
	if dom.op == "constarr" && dom.args[0] == False {
		return out, true
	}
	return nil, false
}

func (x *Exec) next(st *State, fr *Frame, v *ssa.Next) []stRet {
	if v.IsString {
		unsupported("range over string")
	}
	r, ok := x.val(st, fr, v.Iter).(RangeV)
	if !ok {
		unsupported("next on %T", x.val(st, fr, v.Iter))
	}
	zk, ze := x.zero(st, r.KT), x.zero(st, r.ET)
	var c MapC
	if r.M.Obj < 0 {
		return []stRet{{st, TupleV{[]Value{False, zk, ze}}}}
	}
	c = x.mapC(st, r.M)
	vis := st.ghost[r.Vis]
	var out []stRet
	if es, fin := domElems(c.Dom); fin {
		if _, fin2 := domElems(vis); fin2 {
			var rest *Term = True
			cur := st
			for _, e := range es {
				left := cur.clone()
				cnd := And(Select(c.Dom, e), Not(Select(vis, e)))
				if x.feasible(left, cnd) {
					left.assume(cnd)
					left.ghost[r.Vis] = Store(vis, e, True)
					ev, _ := x.mapGet(left, c, e)
					out = append(out, stRet{left, TupleV{[]Value{True, e, ev}}})
				}
				rest = And(rest, Or(Not(Select(c.Dom, e)), Select(vis, e)))
			}
			if x.feasible(st, rest) {
				st.assume(rest)
				out = append(out, stRet{st, TupleV{[]Value{False, zk, ze}}})
			}
			return out
		}
	}
	// done
	kb := BVar("k", c.Dom.sort.Key)
	fin := Forall([]*Term{kb}, Imp(And(Select(r.Dom0, kb), Select(c.Dom, kb)), Select(vis, kb)))
	a := st.clone()
	if x.feasible(a, fin) {
		a.assume(fin)
		out = append(out, stRet{a, TupleV{[]Value{False, zk, ze}}})
	}
	// one more element
	k := Fresh("key", c.Dom.sort.Key)
	if kk, ok := st.ghost["nextkey:"+r.Vis]; ok { // the abstracted loop has named the key
		k = kk
	}
	cnd := And(Select(c.Dom, k), Not(Select(vis, k)))
	if x.feasible(st, cnd) {
		st.assume(cnd)
		st.ghost[r.Vis] = Store(vis, k, True)
		ev, _ := x.mapGet(st, c, k)
		out = append(out, stRet{st, TupleV{[]Value{True, k, ev}}})
	}
	return out
}

func (x *Exec) typeAssert(st *State, fr *Frame, v *ssa.TypeAssert) []stRet {
	a := x.val(st, fr, v.X)
	toIface := types.IsInterface(v.AssertedType)
	switch w := a.(type) {
	case IfaceV:
		var ok bool
		if toIface {
			ok = types.Implements(w.Dyn, v.AssertedType.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(w.Dyn, v.AssertedType)
		}
		var r Value
		if ok {
			if toIface {
				r = w
			} else {
				r = w.Val
			}
		} else {
			if !v.CommaOk {
				x.mustHold(st, "panic", "type assertion", v.Pos(), False)
				return nil
			}
			r = x.zero(st, v.AssertedType)
		}
		if v.CommaOk {
			return []stRet{{st, TupleV{[]Value{r, Bool(ok)}}}}
		}
		return []stRet{{st, r}}
	case *Term:
		if b, ok := boxed[w]; ok {
			fr.env[v.X] = b
			return x.typeAssert(st, fr, v)
		}
		is := App("dyn."+typeName(v.AssertedType), SBool, w)
		is.AddFact(Imp(is, Not(Eq(w, INil))))
		if toIface && types.Implements(v.X.Type(), v.AssertedType.Underlying().(*types.Interface)) {
			is = Not(Eq(w, INil)) // every value of the static type has the methods
		}
		if w == INil {
			is = False
		}
		if !v.CommaOk {
			x.mustHold(st, "panic", "type assertion", v.Pos(), is)
			return []stRet{{st, x.unbox(st, w, v.AssertedType)}}
		}
		yes, no := x.fork(st, is)
		var out []stRet
		if yes != nil {
			out = append(out, stRet{yes, TupleV{[]Value{x.unbox(yes, w, v.AssertedType), True}}})
		}
		if no != nil {
			out = append(out, stRet{no, TupleV{[]Value{x.zero(no, v.AssertedType), False}}})
		}
		return out
	}
	unsupported("type assertion on %T", a)
	return nil
}

// unbox gives the value held by an opaque interface, given its dynamic type.
func (x *Exec) unbox(st *State, t *Term, ty types.Type) Value {
	if types.IsInterface(ty) {
		return t
	}
	n := "unbox." + typeName(ty)
	if s := scalarSort(ty); s != nil {
		return App(n, s, t)
	}
	if isBytes(ty) {
		sv := x.newBytes(st, "unbox", App(n+".c", SB, t))
		sv.Nil = App(n+".nil", SBool, t)
		st.assume(Imp(sv.Nil, Eq(sv.Len, IntC(0))))
		return sv
	}
	return x.symValue(st, ty, "unbox", false)
}

// fnTypeKey is the package path and name of a named type.
func fnTypeKey(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}
