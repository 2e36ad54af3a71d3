package main

// Loops. A loop whose condition is concrete is unrolled. Any other loop is replaced by an exact
// history encoding for an arbitrary number of iterations: the value of every variable the loop
// changes is a function of the iteration number (of the visited key, for a range over a map), and
// every completed iteration satisfies the path condition and the assignments of the body. Closed
// forms are used where the body has a recognised shape (they are consequences of the encoding).

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var injective = map[string]bool{}

func (x *Exec) unrollLimit() int {
	if x.unit != nil {
		if v, ok := x.unit.ct.opts["unroll"]; ok {
			n, _ := strconv.Atoi(v)
			if n > 300 {
				return n
			}
		}
	}
	return 300
}

// boundOf: iterations after which a loop is cut off (only under a contract labelled bounded).
func (x *Exec) boundOf() int {
	if x.boundN > 0 {
		return x.boundN
	}
	return 0
}

func headerIf(b *ssa.BasicBlock) *ssa.If {
	i, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return i
}

// counting tells whether a loop condition compares numbers, as opposed to errors, pointers or flags.
func counting(c ssa.Value) bool {
	switch v := c.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		return v.Op == token.NOT && counting(v.X)
	case *ssa.BinOp:
		b, ok := v.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsNumeric != 0
	}
	return false
}

func (x *Exec) loopMode(st *State, fr *Frame, L *Loop, pred *ssa.BasicBlock) (mode string) {
	name := fmt.Sprintf("%s loop %d", fr.fn, L.ord)
	defer func() {
		if mode == "inv" {
			for b := range L.body {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Defer); ok {
						unsupported("defer in a loop of %s", fr.fn)
					}
				}
			}
		}
		if x.quiet == 0 {
			x.loopsN[name] = map[string]string{"inv": "any number of iterations", "unroll": "unrolled completely"}[mode]
		}
	}()
	h := L.header
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if n.IsString {
				return "unroll"
			}
			r, ok := fr.env[n.Iter].(RangeV)
			if !ok {
				return "unroll"
			}
			if r.M.Obj < 0 {
				return "unroll"
			}
			if es, fin := domElems(x.mapC(st, r.M).Dom); fin && len(es) <= 4 {
				return "unroll"
			}
			if x.boundOf() > 0 {
				x.loopsN[name] = fmt.Sprintf("at most %d iterations (bounded)", x.boundOf())
				return "unroll"
			}
			return "inv"
		}
	}
	iff := headerIf(h)
	if iff == nil || !L.body[h] {
		if x.boundOf() > 0 {
			return "unroll"
		}
		return "inv"
	}
	// a header that tests a loop condition: is it concrete on entry?
	exits := !L.body[h.Succs[0]] || !L.body[h.Succs[1]]
	if !exits {
		if x.boundOf() > 0 {
			return "unroll"
		}
		return "inv"
	}
	x.quiet++
	defer func() { x.quiet-- }()
	s2, f2 := st.clone(), fr.clone()
	k := 0
	for i, p := range h.Preds {
		if p == pred {
			k = i
		}
	}
	conc := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Unsupported); !ok {
					panic(r)
				}
			}
		}()
		vals := map[ssa.Value]Value{}
		for _, in := range h.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				vals[p] = x.val(s2, f2, p.Edges[k])
			}
		}
		for p, v := range vals {
			f2.env[p] = v
		}
		for _, in := range h.Instrs {
			switch in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.If:
				c := x.val(s2, f2, iff.Cond)
				conc = (c == Value(True) || c == Value(False)) && counting(iff.Cond)
				if b, ok := iff.Cond.(*ssa.BinOp); ok && conc { // both numbers are known
					for _, v := range []ssa.Value{b.X, b.Y} {
						if t, ok := x.val(s2, f2, v).(*Term); !ok || !t.isC() {
							conc = false
						}
					}
				}
				return
			case *ssa.Call:
				if b, ok := in.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return
				}
				rs := x.call(s2, f2, &in.(*ssa.Call).Call, in.(*ssa.Call), fr.depth)
				f2.env[in.(*ssa.Call)] = rs[0].ret
			default:
				x.instr(s2, f2, in)
			}
		}
	}()
	x.setDecide(st)
	if conc || x.boundOf() > 0 {
		return "unroll"
	}
	return "inv"
}

// structural equality of values
func sameV(a, b Value) bool {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		return ok && p == q
	case StructV:
		q, ok := b.(StructV)
		if !ok || len(p.F) != len(q.F) {
			return false
		}
		for i := range p.F {
			if !sameV(p.F[i], q.F[i]) {
				return false
			}
		}
		return true
	case TupleV:
		q, ok := b.(TupleV)
		return ok && sameV(StructV{p.E}, StructV{q.E})
	case ArrayV:
		q, ok := b.(ArrayV)
		return ok && sameV(StructV{p.E}, StructV{q.E})
	case SymArr:
		q, ok := b.(SymArr)
		if !ok || len(p.Leaves) != len(q.Leaves) {
			return false
		}
		for i := range p.Leaves {
			if p.Leaves[i] != q.Leaves[i] {
				return false
			}
		}
		return true
	case MapC:
		q, ok := b.(MapC)
		if !ok || p.Dom != q.Dom {
			return false
		}
		for i := range p.Leaves {
			if p.Leaves[i] != q.Leaves[i] {
				return false
			}
		}
		return true
	case SliceV:
		q, ok := b.(SliceV)
		return ok && p.Nil == q.Nil && p.Base.Obj == q.Base.Obj && fmt.Sprint(p.Base.Path) == fmt.Sprint(q.Base.Path) && p.Off == q.Off && p.Len == q.Len && p.Cap == q.Cap
	case PtrV:
		q, ok := b.(PtrV)
		return ok && p.Nil == q.Nil && p.Obj == q.Obj && fmt.Sprint(p.Path) == fmt.Sprint(q.Path)
	case MapV:
		q, ok := b.(MapV)
		return ok && p == q
	case IfaceV:
		q, ok := b.(IfaceV)
		return ok && types.Identical(p.Dyn, q.Dyn) && sameV(p.Val, q.Val)
	case AbsV:
		q, ok := b.(AbsV)
		if !ok || p.Typ != q.Typ || len(p.Attr) != len(q.Attr) {
			return false
		}
		for k := range p.Attr {
			if !sameV(p.Attr[k], q.Attr[k]) {
				return false
			}
		}
		return true
	case CShakeV:
		q, ok := b.(CShakeV)
		return ok && p == q
	case BoltDB:
		q, ok := b.(BoltDB)
		return ok && p.Buckets == q.Buckets && sameV(p.Data, q.Data)
	case FuncV:
		q, ok := b.(FuncV)
		if !ok || p.Fn != q.Fn || len(p.Bind) != len(q.Bind) {
			return false
		}
		for i := range p.Bind {
			if !sameV(p.Bind[i], q.Bind[i]) {
				return false
			}
		}
		return true
	case RangeV:
		q, ok := b.(RangeV)
		return ok && p.M == q.M && p.Vis == q.Vis
	case OpaqueV:
		_, ok := b.(OpaqueV)
		return ok
	case nil:
		return b == nil
	}
	return false
}

// havoc gives an arbitrary value of the shape of v; every new symbol is appended to out.
func (x *Exec) havoc(st *State, v Value, t types.Type, name string, out *[]*Term) Value {
	sym := func(n string, s *Sort) *Term {
		f := x.fresh(n, s)
		*out = append(*out, f)
		return f
	}
	switch w := v.(type) {
	case *Term:
		f := sym(name, w.sort)
		if t != nil {
			if isInt(t) && !isTime(t) && w.sort == SInt {
				intRange(f, t)
			}
			if n, ok := isByteArray(t); ok {
				SetLen(f, IntC(n))
			}
		}
		return f
	case StructV:
		n := StructV{}
		var u *types.Struct
		if t != nil {
			u, _ = t.Underlying().(*types.Struct)
		}
		for i, f := range w.F {
			var ft types.Type
			fn := fmt.Sprint(i)
			if u != nil {
				ft = u.Field(i).Type()
				fn = u.Field(i).Name()
			}
			n.F = append(n.F, x.havoc(st, f, ft, name+"."+fn, out))
		}
		return n
	case ArrayV:
		n := ArrayV{}
		for i, f := range w.E {
			n.E = append(n.E, x.havoc(st, f, nil, fmt.Sprintf("%s.%d", name, i), out))
		}
		return n
	case SliceV:
		var et types.Type
		if t != nil {
			et = t.Underlying().(*types.Slice).Elem()
		}
		nl := sym(name+".nil", SBool)
		if et != nil && isByte(et) {
			c := sym(name, SB)
			n := BLen(c)
			nl.AddFact(Imp(nl, Eq(n, IntC(0))))
			sp := sym(name+".spare", SB)
			o := x.newObj(st, name, t, Cat(c, sp))
			return SliceV{Nil: nl, Base: notNil(o), Off: IntC(0), Len: n, Cap: Add(n, BLen(sp))}
		}
		if et == nil {
			unsupported("slice changed in a loop")
		}
		n := x.freshLen(name + ".len")
		*out = append(*out, n)
		nl.AddFact(Imp(nl, Eq(n, IntC(0))))
		sa := SymArr{Elem: et}
		for _, l := range leavesOf(et) {
			sa.Leaves = append(sa.Leaves, sym(name+".elems", Arr(SInt, l.sort)))
		}
		o := x.newObj(st, name, t, sa)
		sp := x.freshLen(name + ".spare")
		return SliceV{Nil: nl, Base: notNil(o), Off: IntC(0), Len: n, Cap: Add(n, sp)}
	case MapC:
		n := MapC{K: w.K, E: w.E, Dom: sym(name+".dom", w.Dom.sort)}
		for _, l := range w.Leaves {
			n.Leaves = append(n.Leaves, sym(name+".val", l.sort))
		}
		return n
	case SymArr:
		n := SymArr{Elem: w.Elem}
		for _, l := range w.Leaves {
			n.Leaves = append(n.Leaves, sym(name+".elems", l.sort))
		}
		return n
	case CShakeV:
		return CShakeV{N: w.N, S: w.S, Abs: sym(name+".abs", SB), Sq: w.Sq}
	case IfaceV:
		return sym(name, SI)
	case OpaqueV:
		return w
	}
	return unsupported("a loop changes %s (%T)", name, v)
}

type loopVar struct {
	phi   *ssa.Phi
	obj   int
	ghost string
	name  string
	init  Value
	typ   types.Type
}

// rotated returns the first block of the body of a loop whose header only tests an error, a pointer
// or a flag: such a loop is cut at the start of its body, so that the values with which it ends are
// those of its last iteration. It returns nil for any other loop.
func rotated(L *Loop) *ssa.BasicBlock {
	h := L.header
	iff := headerIf(h)
	if iff == nil || counting(iff.Cond) || L.body[h.Succs[0]] == L.body[h.Succs[1]] {
		return nil
	}
	for _, in := range h.Instrs {
		switch v := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If:
		case *ssa.UnOp:
			if v.Op != token.NOT {
				return nil
			}
		default:
			return nil
		}
	}
	cut := h.Succs[0]
	if !L.body[cut] {
		cut = h.Succs[1]
	}
	if cut == h || len(cut.Preds) != 1 {
		return nil
	}
	return cut
}

// headStep runs the header of a rotated loop, whose phis are set, up to the body or out of the loop.
func (x *Exec) headStep(st *State, f *Frame, L *Loop, cut *ssa.BasicBlock, nphi int) (in, out []Outcome) {
	old := f.stops
	tmp := &Stop{loop: L, cut: cut}
	f.stops = append(append([]*Stop{}, old...), tmp)
	outs, st1, next, done := x.block(st, f, L.header, nphi)
	if !done {
		outs = x.run(st1, f, next, L.header, 0)
	}
	for _, o := range outs {
		o.fr.stops = old
		if o.kind == OBack && o.stop == tmp {
			in = append(in, o)
		} else {
			out = append(out, o)
		}
	}
	return
}

func (x *Exec) invariantLoop(st *State, fr *Frame, L *Loop, pred *ssa.BasicBlock) []Outcome {
	cut := rotated(L)
	if cut == nil {
		return x.invariantLoopAt(st, fr, L, pred, nil)
	}
	h := L.header
	k := 0
	for i, p := range h.Preds {
		if p == pred {
			k = i
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
			vals = append(vals, x.val(st, fr, p.Edges[k]))
		}
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	in, out := x.headStep(st, fr, L, cut, len(phis))
	var outs []Outcome
	for _, o := range out {
		if o.kind == OExit && o.stop.loop == L {
			x.setDecide(o.st)
			outs = append(outs, x.run(o.st, o.fr, o.blk, o.pred, 0)...)
			continue
		}
		outs = append(outs, o)
	}
	for _, o := range in {
		x.setDecide(o.st)
		outs = append(outs, x.invariantLoopAt(o.st, o.fr, L, nil, cut)...)
	}
	return outs
}

// invariantLoopAt abstracts a loop at its header or, with cut, at the start of its body.
func (x *Exec) invariantLoopAt(st *State, fr *Frame, L *Loop, pred, cut *ssa.BasicBlock) []Outcome {
	h := L.header
	var phis []*ssa.Phi
	var rng *RangeV
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
		if n, ok := in.(*ssa.Next); ok {
			r := fr.env[n.Iter].(RangeV)
			rng = &r
		}
	}
	edge := func(b *ssa.BasicBlock) int {
		for i, p := range h.Preds {
			if p == b {
				return i
			}
		}
		return -1
	}
	ek := edge(pred)
	entry := map[*ssa.Phi]Value{}
	for _, p := range phis {
		if cut != nil {
			entry[p] = fr.env[p]
			continue
		}
		entry[p] = x.val(st, fr, p.Edges[ek])
	}
	var idx *Term // iteration number or key
	var visN *Term
	if rng == nil {
		idx = x.fresh("n", SInt)
		nonnegVar[idx] = true
		idx.AddFact(mk("<=", "", nil, SBool, IntC(0), idx))
		idx.AddFact(mk("<=", "", nil, SBool, idx, IntBig(maxLen)))
		x.note("a loop runs fewer than 2^47 times")
	} else {
		idx = x.fresh("key", rng.Dom0.sort.Key)
		visN = x.fresh("visited", rng.Dom0.sort)
	}
	savedIdx := x.fidx
	hidx := savedIdx // arguments of header symbols
	if rng == nil {
		hidx = append(append([]*Term{}, savedIdx...), idx)
	}
	bidx := append(append([]*Term{}, savedIdx...), idx)

	mod := map[string]*loopVar{}
	var order []string
	addMod := func(v *loopVar) bool {
		if mod[v.name] != nil {
			return false
		}
		mod[v.name] = v
		order = append(order, v.name)
		return true
	}
	tmpl := map[string]Value{} // closed forms
	type hdr struct {
		st   *State
		fr   *Frame
		vals map[string]Value
		syms map[string][]*Term
	}
	mkHeader := func() *hdr {
		H := &hdr{st: st.clone(), fr: fr.clone(), vals: map[string]Value{}, syms: map[string][]*Term{}}
		H.fr.stops = append(append([]*Stop{}, fr.stops...), &Stop{loop: L, exits: true})
		for _, p := range phis {
			H.fr.env[p] = entry[p]
		}
		if rng != nil {
			H.st.ghost[rng.Vis] = visN
			H.st.ghost["nextkey:"+rng.Vis] = idx
		}
		x.fidx = hidx
		for _, n := range order {
			v := mod[n]
			var val Value
			if t, ok := tmpl[n]; ok {
				val = t
				if sl, isS := t.(SliceV); isS { // list built by the loop: its memory
					val = x.instTemplate(H.st, sl)
				}
			} else {
				var out []*Term
				val = x.havoc(H.st, v.init, v.typ, n, &out)
				H.syms[n] = out
			}
			H.vals[n] = val
			switch {
			case v.phi != nil:
				H.fr.env[v.phi] = val
			case v.ghost != "":
				H.st.ghost[v.ghost] = val.(*Term)
			default:
				H.st.heap[v.obj] = val
			}
		}
		x.fidx = savedIdx
		return H
	}
	runBody := func(H *hdr) (backs, exits []Outcome) {
		x.fidx = bidx
		x.setDecide(H.st)
		f := H.fr
		if cut != nil {
			f = H.fr.clone()
		}
		st0 := H.st.clone()
		var outs []Outcome
		if cut != nil {
			in, _ := x.headStep(st0, f, L, cut, len(phis)) // the loop goes on
			for _, o := range in {
				x.setDecide(o.st)
				outs = append(outs, x.run(o.st, o.fr, cut, h, 0)...)
			}
		} else {
			var st1 *State
			var next *ssa.BasicBlock
			var done bool
			outs, st1, next, done = x.block(st0, f, h, len(phis))
			if !done {
				outs = x.run(st1, f, next, h, 0)
			}
		}
		defer func() { x.fidx = savedIdx }()
		for _, o := range outs {
			switch {
			case o.kind == OBack && o.stop.loop == L && cut != nil:
				vals := make([]Value, len(phis))
				for i, p := range phis {
					vals[i] = x.val(o.st, o.fr, p.Edges[edge(o.pred)])
				}
				for i, p := range phis {
					o.fr.env[p] = vals[i]
				}
				x.setDecide(o.st)
				in, out := x.headStep(o.st, o.fr, L, cut, len(phis))
				backs = append(backs, in...)
				exits = append(exits, out...)
			case o.kind == OBack && o.stop.loop == L:
				backs = append(backs, o)
			default:
				exits = append(exits, o)
			}
		}
		return
	}
	phiBack := func(o Outcome, p *ssa.Phi) Value {
		if cut != nil {
			return o.fr.env[p]
		}
		return x.val(o.st, o.fr, p.Edges[edge(o.pred)])
	}
	backVal := func(o Outcome, v *loopVar) Value {
		switch {
		case v.phi != nil:
			return phiBack(o, v.phi)
		case v.ghost != "":
			return ghostVal(x, o.st, v.ghost)
		}
		return o.st.heap[v.obj]
	}
	// 1. what does the loop change?
	x.quiet++
	var H *hdr
	var backs []Outcome
	evs, wr := false, false
	nObjBefore := map[int]bool{}
	for o := range st.heap {
		nObjBefore[o] = true
	}
	for round := 0; ; round++ {
		if round > 8 {
			x.quiet--
			unsupported("loop in %s: changes do not stabilise", fr.fn)
		}
		H = mkHeader()
		backs, _ = runBody(H)
		changed := false
		for _, o := range backs {
			for _, p := range phis {
				if !sameV(phiBack(o, p), H.fr.env[p]) {
					changed = addMod(&loopVar{phi: p, name: "phi." + p.Name() + "." + p.Comment, init: entry[p], typ: p.Type()}) || changed
				}
			}
			var objs []int
			for ob := range nObjBefore {
				objs = append(objs, ob)
			}
			sort.Ints(objs)
			for _, ob := range objs {
				if !sameV(o.st.heap[ob], H.st.heap[ob]) {
					changed = addMod(&loopVar{obj: ob, name: fmt.Sprintf("obj%d.%s", ob, objMeta[ob].name), init: st.heap[ob], typ: objMeta[ob].typ}) || changed
				}
			}
			gs := map[string]bool{}
			for g := range o.st.ghost {
				gs[g] = true
			}
			for g := range gs {
				if rng != nil && (g == rng.Vis || g == "nextkey:"+rng.Vis) || len(g) > 3 && (g[:4] == "vis#" || g[:4] == "next") {
					continue
				}
				if ghostVal(x, o.st, g) != ghostVal(x, H.st, g) {
					changed = addMod(&loopVar{ghost: g, name: "ghost." + g, init: ghostVal(x, st, g)}) || changed
				}
			}
			for _, e := range o.st.events[len(H.st.events):] {
				evs = true
				if e.Kind == "Put" || e.Kind == "Update" || e.Kind == "Delete" {
					wr = true
				}
			}
			if len(o.st.draws) != len(H.st.draws) {
				evs = true
			}
			if o.st.gap && !H.st.gap {
				evs = true
				if o.st.ghost["gapwrite"] != nil {
					wr = true
				}
			}
		}
		if !changed {
			break
		}
	}
	// 2. closed forms
	n := idx
	var perKey []func(o Outcome, k *Term) *Term // range over a map: facts about every visited key
	var extra []*Term
	slotted := map[string]bool{}
	for again := rng == nil; again; {
		again = false
		for _, name := range order {
			if tmpl[name] != nil {
				continue
			}
			var bv []Value
			var bs []*State
			for _, o := range backs {
				bv = append(bv, backVal(o, mod[name]))
				bs = append(bs, o.st)
			}
			if t := x.closedForm(H.st, H.vals[name], mod[name].init, bs, bv, n); t != nil {
				tmpl[name] = t
				again = true
			}
		}
		if again {
			H = mkHeader()
			backs, _ = runBody(H)
		}
	}
	for _, name := range order {
		v := mod[name]
		var bv []Value
		for _, o := range backs {
			bv = append(bv, backVal(o, v))
		}
		if rng == nil {
			continue
		}
		// a map filled at the visited keys
		hm, ok := H.vals[name].(MapC)
		if !ok {
			if t := x.closedFormRange(H.vals[name], v.init, bv); t != nil {
				tmpl[name] = t
			}
			continue
		}
		im := v.init.(MapC)
		good := true
		for _, b := range bv {
			m := b.(MapC)
			if !(m.Dom == hm.Dom || m.Dom.op == "store" && m.Dom.args[0] == hm.Dom && m.Dom.args[1] == idx) {
				good = false
			}
			for i := range m.Leaves {
				l := m.Leaves[i]
				if !(l == hm.Leaves[i] || l.op == "store" && l.args[0] == hm.Leaves[i] && l.args[1] == idx) {
					good = false
				}
			}
		}
		if !good {
			continue
		}
		allAdd := true
		for _, b := range bv {
			m := b.(MapC)
			if m.Dom == hm.Dom || m.Dom.args[2] != True {
				allAdd = false
			}
		}
		nm := MapC{K: im.K, E: im.E}
		x.fidx = savedIdx
		if allAdd {
			nm.Dom = SetUnion(im.Dom, visN)
		} else {
			nm.Dom = x.fresh(name+".dom", im.Dom.sort)
			k := BVar("k", idx.sort)
			extra = append(extra, Forall([]*Term{k}, Or(Select(visN, k), Eq(Select(nm.Dom, k), Select(im.Dom, k)))))
		}
		for range im.Leaves {
			nm.Leaves = append(nm.Leaves, nil)
		}
		for i, l := range im.Leaves {
			nm.Leaves[i] = x.fresh(name+".val", l.sort)
			k := BVar("k", idx.sort)
			extra = append(extra, Forall([]*Term{k}, Or(Select(visN, k), Eq(Select(nm.Leaves[i], k), Select(l, k)))))
		}
		tmpl[name] = nm
		slotted[name] = true
		vv := v
		perKey = append(perKey, func(o Outcome, k *Term) *Term {
			// in outcome o (run with the closed form in place) the slot of the key
			m := backVal(o, vv).(MapC)
			var cs []*Term
			if !allAdd {
				if m.Dom == nm.Dom {
					cs = append(cs, Eq(Select(nm.Dom, k), Select(im.Dom, k)))
				} else {
					cs = append(cs, Eq(Select(nm.Dom, k), m.Dom.args[2]))
				}
			}
			for i, l := range m.Leaves {
				if l == nm.Leaves[i] {
					cs = append(cs, Eq(Select(nm.Leaves[i], k), Select(im.Leaves[i], k)))
				} else {
					cs = append(cs, Eq(Select(nm.Leaves[i], k), l.args[2]))
				}
			}
			return And(cs...)
		})
	}
	formed := false
	var total *Term // the number of iterations, where the forms say
	if rng == nil {
		x.fidx = savedIdx
		formed, total = x.loopForms(st, order, mod, tmpl, n, func(at map[*Term]*Term) (*State, []Outcome) {
			H := mkHeader()
			if at != nil {
				substState(H.st, at)
				substFrame(H.fr, at)
				H.st.assume(Le(IntC(0), at[n]))
			}
			bs, _ := runBody(H)
			return H.st, bs
		}, backVal)
		x.fidx = savedIdx
	}
	// 3. what every completed iteration satisfies
	H = mkHeader()
	npc := len(H.st.pc)
	backs, _ = runBody(H)
	x.quiet--
	var alts []*Term
	var generic []*Term // header symbols without closed form
	for _, name := range order {
		generic = append(generic, H.syms[name]...)
	}
	for _, o := range backs {
		var cs []*Term
		for _, c := range o.st.pc[npc:] {
			if rng != nil && (mentions(c, visN) || mentionsAny(c, generic)) {
				continue // depends on the order of iteration
			}
			cs = append(cs, c)
		}
		if rng == nil {
			for _, name := range order {
				if len(H.syms[name]) == 0 {
					continue
				}
				e := x.nextEqual(H.st, o.st, H.vals[name], backVal(o, mod[name]), n)
				cs = append(cs, e)
			}
		} else {
			for _, f := range perKey {
				cs = append(cs, f(o, idx))
			}
			var keep []*Term
			for _, c := range cs {
				if !mentionsAny(c, generic) {
					keep = append(keep, c)
				}
			}
			cs = keep
		}
		c := And(cs...)
		c = And(append([]*Term{c}, localFacts(c, idx)...)...)
		alts = append(alts, c)
	}
	body := Or(alts...)
	var cands []*invCand
	if rng == nil {
		cands = x.loopCandidates(order, mod, st)
	}
	if len(cands) > 0 {
		x.loopsN[fmt.Sprintf("%s loop %d", fr.fn, L.ord)] = "any number of iterations, loop invariants of the contract"
		body = True
		x.quiet++
		x.fidx = savedIdx
		x.setDecide(st)
		var live []*invCand
		initOf := func(c *invCand) Value {
			if c.v == nil {
				return nil
			}
			return c.v.init
		}
		for _, c := range cands {
			g := x.evalCand(c, st, initOf(c), IntC(0))
			if g == False || g != True && check(append(append([]*Term{}, st.pc...), Not(x.skolem(g))), candMS) != Unsat {
				if verbose {
					fmt.Fprintf(os.Stderr, "loop invariant %s does not hold initially in %s: %s\n", c.name, fr.fn, g)
				}
				continue
			}
			live = append(live, c)
		}
		inv := func(H *hdr) []*Term {
			var out []*Term
			x.fidx = hidx
			for _, c := range live {
				var v Value
				if c.v != nil {
					v = H.vals[c.v.name]
				}
				out = append(out, x.evalCand(c, H.st, v, n))
			}
			x.fidx = savedIdx
			return out
		}
		for len(live) > 0 {
			H = mkHeader()
			for _, e := range extra {
				H.st.assume(e)
			}
			for _, t := range inv(H) {
				H.st.assume(t)
			}
			backs, _ = runBody(H)
			var keep []*invCand
			for _, c := range live {
				ok := true
				for bi, o := range backs {
					var v Value
					if c.v != nil {
						v = backVal(o, c.v)
					}
					x.setDecide(o.st)
					g := x.evalCand(c, o.st, v, Add(n, IntC(1)))
					if g != True && check(append(append([]*Term{}, o.st.pc...), Not(x.skolem(g))), candMS) != Unsat {
						if verbose {
							fmt.Fprintf(os.Stderr, "loop invariant %s is not preserved in %s (path %d of %d): %s\n", c.name, fr.fn, bi, len(backs), g)
						}
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, c)
				}
			}
			if len(keep) == len(live) {
				break
			}
			live = keep
		}
		H = mkHeader()
		extra = append(extra, inv(H)...)
		for _, c := range live {
			x.models["loop invariant "+c.name] = true
		}
		x.quiet--
	} else if rng == nil && x.unit != nil && x.unit.ct.opts["coarse"] != "" {
		// an abstraction that forgets everything but the lengths of the buffers the loop keeps
		x.loopsN[fmt.Sprintf("%s loop %d", fr.fn, L.ord)] = "any number of iterations, contents abstracted"
		body = True
		for _, name := range order {
			h, ok := H.vals[name].(*Term)
			i0, ok2 := mod[name].init.(*Term)
			if !ok || !ok2 || h.sort != SB || tmpl[name] != nil {
				continue
			}
			keep := true
			for _, o := range backs {
				b, ok := backVal(o, mod[name]).(*Term)
				pc := append(append([]*Term{}, o.st.pc...), Eq(BLen(h), BLen(i0)))
				if !ok || check(append(pc, Not(Eq(BLen(b), BLen(i0)))), candMS) != Unsat {
					keep = false
				}
			}
			if keep {
				extra = append(extra, Eq(BLen(h), BLen(i0)))
			}
		}
	}
	// a loop that counts down is described in terms of its counter
	var down *Term
	for _, name := range order {
		t, ok := tmpl[name].(*Term)
		if rng != nil || !ok || t.sort != SInt {
			continue
		}
		if c := Add(t, n); !mentions(c, n) {
			down = c
		} else if t != c && !mentions(Sub(t, n), n) {
			down = nil
			break
		}
	}
	iterOf := func(m *Term) *Term {
		if down != nil {
			return Sub(down, m)
		}
		return m
	}
	// flags that only ever change once
	var flags []*Term
	if rng == nil {
		x.quiet++
		for _, name := range order {
			b, ok := H.vals[name].(*Term)
			if !ok || b.sort != SBool || tmpl[name] != nil || len(H.syms[name]) != 1 {
				continue
			}
			for _, val := range []bool{true, false} {
				// does the flag keep the value !val?
				is := func(t *Term) *Term {
					if val {
						return t
					}
					return Not(t)
				}
				mono := true
				for _, o := range backs {
					nx, ok := backVal(o, mod[name]).(*Term)
					if !ok || check(append(append([]*Term{}, o.st.pc...), Not(is(b)), is(nx)), candMS) != Unsat {
						mono = false
						break
					}
				}
				if !mono {
					continue
				}
				at := func(t, k *Term) *Term { return Subst(t, map[*Term]*Term{idx: k}) }
				m := BVar("m", SInt)
				flags = append(flags, Imp(is(b), Forall([]*Term{m}, Imp(And(Le(IntC(0), m), Le(m, n)), at(is(b), m)))))
				w := x.fresh("change", SInt)
				w1 := Add(w, IntC(1))
				flags = append(flags, Imp(And(Not(is(b)), at(is(b), IntC(0))), And(Le(IntC(0), w), Lt(w, n), at(is(b), w), Not(at(is(b), w1)), at(body, w))))
			}
		}
		x.quiet--
	}
	// the events of completed iterations
	var gapEvs []GapEvent
	for _, o := range backs {
		cond := And(o.st.pc[npc:]...)
		bm := BVar("m", idx.sort)
		guard := And(Le(IntC(0), iterOf(bm)), Lt(iterOf(bm), n))
		if rng != nil {
			guard = Select(visN, bm)
		}
		sub := func(t *Term) *Term {
			return Subst(t, map[*Term]*Term{idx: iterOf(bm)})
		}
		add := func(e Event, draw bool) {
			g := GapEvent{Ev: Event{Kind: e.Kind, Self: e.Self, Args: map[string]Value{}}, M: bm, Draw: draw}
			cs := append([]*Term{cond}, localFacts(cond, idx)...)
			for k, v := range e.Args {
				if t, ok := v.(*Term); ok {
					cs = append(cs, localFacts(t, idx)...)
					g.Ev.Args[k] = sub(t)
				}
			}
			g.Cond = And(guard, sub(And(cs...)))
			gapEvs = append(gapEvs, g)
		}
		for _, e := range o.st.events[len(H.st.events):] {
			add(e, false)
		}
		if len(o.st.draws) != len(H.st.draws) {
			add(Event{Kind: "draw"}, true)
		}
		for _, g := range o.st.gapEv[len(H.st.gapEv):] {
			// a loop inside: only what does not depend on the outer iteration is kept precise
			g.Cond = nil
			gapEvs = append(gapEvs, g)
		}
	}
	// 4. the state at the header after any number of iterations
	hist := func(s *State) {
		m := BVar("m", idx.sort)
		bm := Subst(body, map[*Term]*Term{idx: iterOf(m)})
		if rng == nil {
			s.assume(Forall([]*Term{m}, Imp(And(Le(IntC(0), iterOf(m)), Lt(iterOf(m), n)), bm)))
			for _, f := range flags {
				s.assume(f)
			}
			pr := Subst(body, map[*Term]*Term{idx: Sub(n, IntC(1))})
			if body != True {
				s.assume(Imp(Le(IntC(1), n), pr))
			}
			for _, name := range order {
				if len(H.syms[name]) == 0 {
					continue
				}
				s.assume(x.initEqual(st, H.st, H.vals[name], mod[name].init, n))
			}
		} else {
			s.assume(Forall([]*Term{m}, Imp(Select(visN, m), bm)))
			k := BVar("k", idx.sort)
			s.assume(Forall([]*Term{k}, Imp(Select(visN, k), Select(rng.Dom0, k))))
		}
		for _, e := range extra {
			s.assume(e)
		}
	}
	hist(H.st)
	if evs {
		H.st.gap = true
		H.st.gapEv = append(H.st.gapEv, gapEvs...)
		if wr {
			H.st.ghost["gapwrite"] = True
		}
	}
	_, exits := runBody(H)
	var outs []Outcome
	for _, o := range exits {
		x.fidx = savedIdx
		o.fr.stops = fr.stops
		if o.kind == OExit && o.stop.loop == L {
			if rng != nil {
				delete(o.st.ghost, "nextkey:"+rng.Vis)
			}
			if formed {
				x.setDecide(o.st)
				if m := countValues(o.st.pc, func(t *Term) bool {
					v, ok := dec(Le(IntC(0), t))
					return ok && v
				}); m[n] != nil {
					v := m[n]
					if total != nil && total != v {
						if is, ok := dec(Eq(total, v)); ok && is {
							v = total
						}
					}
					substState(o.st, map[*Term]*Term{n: v})
					substFrame(o.fr, map[*Term]*Term{n: v})
				}
			}
			x.setDecide(o.st)
			outs = append(outs, x.run(o.st, o.fr, o.blk, o.pred, 0)...)
			continue
		}
		outs = append(outs, o)
	}
	return outs
}

// A candidate loop invariant: a loopinv clause of the contract, about one of the variables of the loop.
type invCand struct {
	cl   *Clause
	v    *loopVar // nil: about the state only
	path []int
	typ  types.Type
	auto func(st *State) *Term
	name string
}

func (x *Exec) loopCandidates(names []string, mod map[string]*loopVar, st *State) []*invCand {
	var out []*invCand
	if x.unit == nil || x.unit.env == nil || len(x.unit.ct.loopinvs) == 0 {
		return nil
	}
	for _, n := range names {
		v := mod[n]
		if v.ghost == "rndfail" {
			g := v.ghost
			i0 := ghostVal(x, st, g)
			out = append(out, &invCand{name: g + " unchanged", auto: func(s *State) *Term { return Eq(ghostVal(x, s, g), i0) }})
		}
	}
	for _, cl := range x.unit.ct.loopinvs {
		if cl.vname == "" {
			out = append(out, &invCand{cl: cl, name: cl.name})
			continue
		}
		for _, n := range names {
			v := mod[n]
			if v.ghost != "" {
				continue
			}
			var walk func(val Value, t types.Type, path []int)
			walk = func(val Value, t types.Type, path []int) {
				switch w := val.(type) {
				case *Term:
					if !strings.HasPrefix(cl.vsort, "[]") && w.sort == sortByName(cl.vsort) {
						out = append(out, &invCand{cl: cl, v: v, path: append([]int{}, path...), typ: t, name: fmt.Sprintf("%s(%s%v)", cl.name, n, path)})
					}
				case SliceV:
					if strings.HasPrefix(cl.vsort, "[]") && t != nil && t.String() == cl.vsort {
						out = append(out, &invCand{cl: cl, v: v, path: append([]int{}, path...), typ: t, name: fmt.Sprintf("%s(%s%v)", cl.name, n, path)})
					}
				case StructV:
					var u *types.Struct
					if t != nil {
						u, _ = t.Underlying().(*types.Struct)
					}
					for i, f := range w.F {
						var ft types.Type
						if u != nil {
							ft = u.Field(i).Type()
						}
						walk(f, ft, append(append([]int{}, path...), i))
					}
				}
			}
			walk(v.init, v.typ, nil)
		}
	}
	return out
}

// evalCand is the candidate in a state of the loop.
func (x *Exec) evalCand(c *invCand, st *State, val Value, iter *Term) (r *Term) {
	if c.auto != nil {
		return c.auto(st)
	}
	defer func() {
		if rr := recover(); rr != nil {
			if s, ok := rr.(SpecErr); ok && s.undef {
				r = False
				return
			}
			panic(rr)
		}
	}()
	e := *x.unit.env
	e.cur = st
	e.vars = map[string]EV{}
	for k, v := range x.unit.env.vars {
		e.vars[k] = v
	}
	e.vars["iter"] = EV{v: iter, t: tInt}
	if c.v != nil {
		for _, i := range c.path {
			sv, ok := val.(StructV)
			if !ok {
				return False
			}
			val = sv.F[i]
		}
		e.vars[c.cl.vname] = EV{v: val, t: c.typ}
	}
	saved := x.curSt
	x.setDecide(st)
	defer x.setDecide(saved)
	return e.boolean(c.cl.expr)
}

func ghostVal(x *Exec, st *State, g string) *Term {
	if t := st.ghost[g]; t != nil {
		return t
	}
	switch g {
	case "store.dom":
		return storeDom0
	case "store.val":
		return storeVal0
	}
	return False
}

func mentions(t, v *Term) bool {
	return mentionsAny(t, []*Term{v})
}
func mentionsAny(t *Term, vs []*Term) bool {
	if len(vs) == 0 {
		return false
	}
	set := map[*Term]bool{}
	for _, v := range vs {
		set[v] = true
	}
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if set[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// localFacts are the facts of the terms of t that depend on v.
func localFacts(t, v *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	dep := map[*Term]bool{}
	var depends func(t *Term) bool
	depends = func(t *Term) bool {
		if t == v {
			return true
		}
		if d, ok := dep[t]; ok {
			return d
		}
		dep[t] = false
		for _, a := range t.args {
			if depends(a) {
				dep[t] = true
				return true
			}
		}
		return false
	}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] || len(out) > 400 {
			return
		}
		seen[t] = true
		if !depends(t) {
			return
		}
		if t != v && !t.bound {
			for _, fa := range t.facts {
				out = append(out, fa)
				f(fa)
			}
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return out
}

// nextEqual: the header value of iteration n+1 is the value b computed by iteration n.
func (x *Exec) nextEqual(hs, bs *State, hv, b Value, n *Term) *Term {
	at := func(t *Term) *Term { return Subst(t, map[*Term]*Term{n: Add(n, IntC(1))}) }
	return x.pairEqual(hs, bs, hv, b, at)
}
func (x *Exec) initEqual(is, hs *State, hv, init Value, n *Term) *Term {
	at := func(t *Term) *Term { return Subst(t, map[*Term]*Term{n: IntC(0)}) }
	return x.pairEqual(hs, is, hv, init, at)
}
func (x *Exec) pairEqual(hs, bs *State, hv, b Value, at func(*Term) *Term) *Term {
	switch p := hv.(type) {
	case *Term:
		switch q := b.(type) {
		case *Term:
			if p.sort == q.sort {
				return Eq(at(p), q)
			}
		case IfaceV:
			return Eq(at(p), x.boxIface(bs, q))
		}
	case StructV:
		q := b.(StructV)
		var cs []*Term
		for i := range p.F {
			cs = append(cs, x.pairEqual(hs, bs, p.F[i], q.F[i], at))
		}
		return And(cs...)
	case ArrayV:
		q := b.(ArrayV)
		var cs []*Term
		for i := range p.E {
			cs = append(cs, x.pairEqual(hs, bs, p.E[i], q.E[i], at))
		}
		return And(cs...)
	case SliceV:
		q := b.(SliceV)
		cs := []*Term{Eq(at(p.Nil), q.Nil)}
		base, _ := hs.heap[p.Base.Obj].(*Term)
		if base != nil {
			cs = append(cs, Eq(at(x.content(hs, p)), x.content(bs, q)))
			return And(cs...)
		}
		cs = append(cs, Eq(at(p.Len), q.Len))
		if q.Base.Obj >= 0 && q.Off == IntC(0) {
			pa := hs.heap[p.Base.Obj].(SymArr)
			qa := x.asSymArr(bs, q, pa.Elem)
			for i := range pa.Leaves {
				cs = append(cs, Eq(at(pa.Leaves[i]), qa.Leaves[i]))
			}
		}
		return And(cs...)
	case MapC:
		q := b.(MapC)
		cs := []*Term{Eq(at(p.Dom), q.Dom)}
		for i := range p.Leaves {
			cs = append(cs, Eq(at(p.Leaves[i]), q.Leaves[i]))
		}
		return And(cs...)
	case SymArr:
		q, ok := b.(SymArr)
		if !ok {
			return True
		}
		var cs []*Term
		for i := range p.Leaves {
			cs = append(cs, Eq(at(p.Leaves[i]), q.Leaves[i]))
		}
		return And(cs...)
	case CShakeV:
		return Eq(at(p.Abs), b.(CShakeV).Abs)
	}
	return True
}

// closedForm recognises shapes of counted loops.
func (x *Exec) closedForm(hst *State, h, init Value, bst []*State, backs []Value, n *Term) Value {
	if len(backs) == 0 {
		return nil
	}
	switch p := h.(type) {
	case *Term:
		i0 := init.(*Term)
		if p.sort == SInt {
			var step *Term
			for _, b := range backs {
				t, ok := b.(*Term)
				if !ok {
					return nil
				}
				d := Sub(t, p)
				if d.op != "int" || step != nil && step != d {
					return nil
				}
				step = d
			}
			return Add(i0, Mul(step, n))
		}
		if p.sort.Kind == "bv" {
			if c := bvStep(p, backs); c != nil {
				return bvBin("bvadd", i0, Int2BV(Mul(c, n), p.sort.W))
			}
			if e := foldElem(p, backs, "bvor"); e != nil {
				if arr, off := elemRange(e, n); arr != nil {
					return bvBin("bvor", i0, orFold(arr, off, n))
				}
			}
		}
	case MapC:
		i0 := init.(MapC)
		if len(p.Leaves) > 0 || len(backs) != 1 {
			return nil
		}
		b := backs[0].(MapC)
		if b.Dom.op == "store" && b.Dom.args[0] == p.Dom {
			if arr, off := elemRange(b.Dom.args[1], n); arr != nil {
				switch b.Dom.args[2] {
				case True:
					return MapC{K: i0.K, E: i0.E, Dom: SetUnion(i0.Dom, elemSet(arr, off, n))}
				case False:
					return MapC{K: i0.K, E: i0.E, Dom: SetMinus(i0.Dom, elemSet(arr, off, n))}
				}
			}
		}
	case CShakeV:
		if len(backs) != 1 {
			return nil
		}
		b := backs[0].(CShakeV)
		ps := bparts(b.Abs)
		if len(ps) == 2 && ps[0] == p.Abs {
			if arr, off := elemAt(ps[1], n); arr != nil {
				i0 := init.(CShakeV)
				return CShakeV{i0.N, i0.S, Cat(i0.Abs, catFold(arr, off, n)), i0.Sq}
			}
		}
	case SliceV:
		// s = s[k:] in every iteration, with nothing written through s
		i0, ok := init.(SliceV)
		if !ok || i0.Base.Obj < 0 {
			return nil
		}
		var step *Term
		for i, v := range backs {
			b, ok := v.(SliceV)
			if !ok || b.Base.Obj != p.Base.Obj || len(b.Base.Path) != len(p.Base.Path) || len(p.Base.Path) > 0 || !sameV(bst[i].heap[p.Base.Obj], hst.heap[p.Base.Obj]) {
				return nil
			}
			d := Sub(b.Off, p.Off)
			if d.op != "int" || d.num.Sign() <= 0 || step != nil && step != d || Sub(p.Len, b.Len) != d || Sub(p.Cap, b.Cap) != d {
				return nil
			}
			step = d
		}
		k := Mul(step, n)
		return SliceV{Nil: i0.Nil, Base: i0.Base, Off: Add(i0.Off, k), Len: Sub(i0.Len, k), Cap: Sub(i0.Cap, k)}
	}
	return nil
}

// bvStep: the constant every iteration adds to p (nil if it does something else).
func bvStep(p *Term, backs []Value) *Term {
	var step *Term
	for _, b := range backs {
		t, ok := b.(*Term)
		if !ok || len(t.args) != 2 {
			return nil
		}
		var d *Term
		switch {
		case t.op == "bvadd" && t.args[0] == p && t.args[1].op == "bv":
			d = IntBig(t.args[1].num)
		case t.op == "bvadd" && t.args[1] == p && t.args[0].op == "bv":
			d = IntBig(t.args[0].num)
		case t.op == "bvsub" && t.args[0] == p && t.args[1].op == "bv":
			d = IntBig(new(big.Int).Neg(t.args[1].num))
		default:
			return nil
		}
		if step != nil && step != d {
			return nil
		}
		step = d
	}
	return step
}

func (x *Exec) closedFormRange(h, init Value, backs []Value) Value { return nil }

func (x *Exec) instTemplate(st *State, s SliceV) Value { return s }

func foldElem(p *Term, backs []Value, op string) *Term {
	if len(backs) != 1 {
		return nil
	}
	b, ok := backs[0].(*Term)
	if !ok || b.op != op || len(b.args) != 2 {
		return nil
	}
	if b.args[0] == p {
		return b.args[1]
	}
	if b.args[1] == p {
		return b.args[0]
	}
	return nil
}

// elemAt matches arr[off+n].
func elemAt(e, n *Term) (arr, off *Term) {
	if e.op != "select" {
		return nil, nil
	}
	i := e.args[1]
	if i.sort != SInt {
		return nil, nil
	}
	o := Sub(i, n)
	if mentions(o, n) || mentions(e.args[0], n) {
		return nil, nil
	}
	return e.args[0], o
}

// elemRange matches arr[off+n] and arr[c-n]: after n iterations the elements are arr[from..from+n).
func elemRange(e, n *Term) (arr, from *Term) {
	if arr, off := elemAt(e, n); arr != nil {
		return arr, off
	}
	if e.op != "select" || e.args[1].sort != SInt {
		return nil, nil
	}
	c := Add(e.args[1], n)
	if mentions(c, n) || mentions(e.args[0], n) {
		return nil, nil
	}
	return e.args[0], Add(Sub(c, n), IntC(1))
}

func ctorSimple(name string, f func(a []*Term) *Term) func(a []*Term) *Term {
	appCtor[name] = f
	return f
}

// predOf: n-1 when n is known to be at least 1.
func predOf(n *Term) *Term {
	if n.op == "int" {
		if n.num.Sign() > 0 {
			return Sub(n, IntC(1))
		}
		return nil
	}
	p := Sub(n, IntC(1))
	if n.op == "+" && nonneg(p) {
		return p
	}
	return nil
}

// arrParts says how the array arr was put together: the elements from lo to lo+n are those of src
// from so on, and all others are those of dst (an append of a slice of any length).
type arrPart struct{ dst, src, lo, so, n *Term }

var arrParts = map[*Term]arrPart{}

// foldParts splits a fold over arr[off:off+n] into folds over the arrays that arr was made of.
func foldParts(arr, off, n *Term, fold func(arr, off, n *Term) *Term, join func(a, b *Term) *Term) *Term {
	end := Add(off, n)
	if arr.op == "store" && nonneg(Sub(arr.args[1], end)) {
		return fold(arr.args[0], off, n)
	}
	p, ok := arrParts[arr]
	if !ok || !nonneg(Sub(p.lo, off)) {
		return nil
	}
	if nonneg(Sub(p.lo, end)) {
		return fold(p.dst, off, n)
	}
	if Sub(end, Add(p.lo, p.n)) == IntC(0) {
		return join(fold(p.dst, off, Sub(p.lo, off)), fold(p.src, p.so, p.n))
	}
	return nil
}

func elemSet(arr, off, n *Term) *Term {
	ks := arr.sort.Val
	so := Arr(ks, SBool)
	name := "elemset." + ks.Name
	if appCtor[name] == nil {
		appCtor[name] = func(a []*Term) *Term { return elemSet(a[0], a[1], a[2]) }
	}
	if v, ok := n.i64(); ok && v <= 0 {
		return ConstArr(so, False)
	}
	if r := foldParts(arr, off, n, elemSet, SetUnion); r != nil {
		return r
	}
	if p := predOf(n); p != nil {
		if v, ok := n.i64(); !ok || v <= 64 {
			return Store(elemSet(arr, off, p), Select(arr, Add(off, p)), True)
		}
	}
	t := App(name, so, arr, off, n)
	if t.bound || t.fdone {
		return t
	}
	t.fdone = true
	m := BVar("m", SInt)
	t.AddFact(Forall([]*Term{m}, Imp(And(Le(IntC(0), m), Lt(m, n)), Select(t, Select(arr, Add(off, m))))))
	k := BVar("k", ks)
	w := App("elemset.w."+ks.Name, SInt, t, k)
	t.AddFact(Forall([]*Term{k}, Imp(Select(t, k), And(Le(IntC(0), w), Lt(w, n), Eq(Select(arr, Add(off, w)), k)))))
	return t
}

func orFold(arr, off, n *Term) *Term {
	so := arr.sort.Val
	name := "orfold." + so.Name
	if appCtor[name] == nil {
		appCtor[name] = func(a []*Term) *Term { return orFold(a[0], a[1], a[2]) }
	}
	if v, ok := n.i64(); ok && v <= 0 {
		return BVC(so.W, 0)
	}
	if r := foldParts(arr, off, n, orFold, func(a, b *Term) *Term { return bvBin("bvor", a, b) }); r != nil {
		return r
	}
	if p := predOf(n); p != nil {
		return bvBin("bvor", orFold(arr, off, p), Select(arr, Add(off, p)))
	}
	t := App(name, so, arr, off, n)
	if t.bound || t.fdone {
		return t
	}
	t.fdone = true
	t.AddFact(Imp(Le(n, IntC(0)), Eq(t, BVC(so.W, 0))))
	m := BVar("m", SInt)
	// every element is included
	e := Select(arr, Add(off, m))
	t.AddFact(Forall([]*Term{m}, Imp(And(Le(IntC(0), m), Lt(m, n)), Eq(bvBin("bvor", t, e), t))))
	return t
}

func catFold(arr, off, n *Term) *Term {
	name := "catfold"
	if appCtor[name] == nil {
		appCtor[name] = func(a []*Term) *Term { return catFold(a[0], a[1], a[2]) }
	}
	if v, ok := n.i64(); ok && v <= 0 {
		return BLit("")
	}
	if r := foldParts(arr, off, n, catFold, func(a, b *Term) *Term { return Cat(a, b) }); r != nil {
		return r
	}
	if p := predOf(n); p != nil {
		return Cat(catFold(arr, off, p), Select(arr, Add(off, p)))
	}
	t := App(name, SB, arr, off, n)
	t.AddFact(Imp(Le(n, IntC(0)), rawEq(BLen(t), IntC(0))))
	return t
}

// elemsOf is the set of the elements of a slice.
func (x *Exec) elemsOf(st *State, s SliceV, t types.Type) *Term {
	et := t.Underlying().(*types.Slice).Elem()
	ks := scalarSort(et)
	if ks == nil {
		unsupported("set of elements of %s", t)
	}
	if s.Base.Obj < 0 {
		return ConstArr(Arr(ks, SBool), False)
	}
	if n, ok := s.Len.i64(); ok && n <= 64 {
		r := ConstArr(Arr(ks, SBool), False)
		for i := int64(0); i < n; i++ {
			r = Store(r, x.scalar(st, x.sliceElem(st, s, IntC(i)), et), True)
		}
		return r
	}
	return elemSet(x.asSymArr(st, s, et).Leaves[0], s.Off, s.Len)
}
func (x *Exec) orOf(st *State, s SliceV, t types.Type) *Term {
	et := t.Underlying().(*types.Slice).Elem()
	if s.Base.Obj < 0 {
		return BVC(bitsOf(et), 0)
	}
	if n, ok := s.Len.i64(); ok && n <= 64 {
		r := BVC(bitsOf(et), 0)
		for i := int64(0); i < n; i++ {
			r = bvBin("bvor", r, x.sliceElem(st, s, IntC(i)).(*Term))
		}
		return r
	}
	return orFold(x.asSymArr(st, s, et).Leaves[0], s.Off, s.Len)
}
func (x *Exec) catOf(st *State, s SliceV, t types.Type) *Term {
	et := t.Underlying().(*types.Slice).Elem()
	if s.Base.Obj < 0 {
		return BLit("")
	}
	if n, ok := s.Len.i64(); ok && n <= 64 {
		r := BLit("")
		for i := int64(0); i < n; i++ {
			e := x.sliceElem(st, s, IntC(i))
			switch w := e.(type) {
			case *Term:
				r = Cat(r, w)
			case SliceV:
				r = Cat(r, x.content(st, w))
			}
		}
		return r
	}
	ls := x.asSymArr(st, s, et).Leaves
	return catFold(ls[len(ls)-1], s.Off, s.Len)
}

// ---------- sets

func SetUnion(a, b *Term) *Term {
	if b.op == "constarr" && b.args[0] == False || a == b {
		return a
	}
	if a.op == "constarr" && a.args[0] == False {
		return b
	}
	if b.op == "store" && b.args[2] == True {
		return Store(SetUnion(a, b.args[0]), b.args[1], True)
	}
	if a.op == "store" && a.args[2] == True {
		return Store(SetUnion(a.args[0], b), a.args[1], True)
	}
	if appCtor["setunion"] == nil {
		appCtor["setunion"] = func(a []*Term) *Term { return SetUnion(a[0], a[1]) }
	}
	t := App("setunion", a.sort, a, b)
	return t
}
func SetMinus(a, b *Term) *Term {
	if b.op == "constarr" && b.args[0] == False {
		return a
	}
	if b.op == "store" && b.args[2] == True {
		return Store(SetMinus(a, b.args[0]), b.args[1], False)
	}
	if appCtor["setminus"] == nil {
		appCtor["setminus"] = func(a []*Term) *Term { return SetMinus(a[0], a[1]) }
	}
	t := App("setminus", a.sort, a, b)
	return t
}

// loopForms finds forms of the contract that the byte strings of a loop have at the start of every
// iteration, and makes them their closed forms.
func (x *Exec) loopForms(st *State, order []string, mod map[string]*loopVar, tmpl map[string]Value, n *Term, run func(at map[*Term]*Term) (*State, []Outcome), backVal func(o Outcome, v *loopVar) Value) (bool, *Term) {
	if x.unit == nil || x.unit.env == nil || len(x.unit.ct.forms) == 0 {
		return false, nil
	}
	type form struct {
		cl   *Clause
		p    int
		rest *Term // the bytes after the form
		what func(iter *Term) *Term
	}
	eval := func(st *State, nd *Node, vars map[string]*Term) *Term {
		e := *x.unit.env
		e.cur = st
		e.vars = map[string]EV{}
		for k, v := range x.unit.env.vars {
			e.vars[k] = v
		}
		for k, v := range vars {
			e.vars[k] = EV{v: v, t: tInt}
		}
		saved := x.curSt
		x.setDecide(st)
		defer x.setDecide(saved)
		return e.tm(nd)
	}
	x.quiet++
	defer func() { x.quiet-- }()
	holds := func(st *State, g *Term) bool {
		return g == True || g != False && check(append(append([]*Term{}, st.pc...), Not(g)), candMS) == Unsat
	}
	is := func(st *State, v Value, w *Term) bool { // does v start with w?
		t, ok := v.(*Term)
		if !ok {
			return false
		}
		x.setDecide(st)
		if !holds(st, Le(BLen(w), BLen(t))) {
			return false
		}
		g := bytewise(Eq(BSub(t, IntC(0), BLen(w)), w))
		if os.Getenv("GOCV_DBGF") != "" && g != True {
			for _, c := range conjuncts(g) {
				if !holds(st, c) {
					fmt.Fprintf(os.Stderr, "NOFIT %s\n", c)
				}
			}
		}
		return holds(st, g)
	}
	forms := map[string]*form{}
	var names []string
	var total *Term
	var all []*form
	for _, cl := range x.unit.ct.forms {
		for _, p := range cl.params {
			all = append(all, &form{cl: cl, p: p})
		}
	}
	tried := map[string]int{}
	pick := func(name string) { // the next form that fits the initial value
		delete(forms, name)
		delete(tmpl, name)
		i0 := mod[name].init.(*Term)
		for ; tried[name] < len(all); tried[name]++ {
			cl, p := all[tried[name]].cl, all[tried[name]].p
			var T *Term
			if cl.down != nil {
				T = eval(st, cl.down, nil)
			}
			if len(forms) > 0 && T != total {
				continue
			}
			at := func(s *State, iter *Term) *Term {
				vars := map[string]*Term{"P": IntC(int64(p)), "iter": iter}
				if T != nil {
					vars["left"] = Sub(T, iter)
				}
				return eval(s, cl.expr, vars)
			}
			if !is(st, i0, at(st, IntC(0))) {
				continue
			}
			if verbose {
				fmt.Fprintf(os.Stderr, "loop form %s with P=%d fits %s at first\n", cl.name, p, name)
			}
			w := at(st, n)
			f := &form{cl: cl, p: p}
			if d := Sub(BLen(i0), BLen(w)); d != IntC(0) && !holds(st, Eq(d, IntC(0))) {
				f.rest = x.fresh("rest", SB)
				SetLen(f.rest, d)
			}
			f.what = func(iter *Term) *Term { return Subst(w, map[*Term]*Term{n: iter}) }
			forms[name] = f
			total = T
			tried[name]++
			break
		}
	}
	for _, name := range order {
		if i0, ok := mod[name].init.(*Term); ok && i0.sort == SB && tmpl[name] == nil {
			names = append(names, name)
			pick(name)
		}
	}
	for {
		names = nil
		for _, name := range order {
			if forms[name] != nil {
				names = append(names, name)
			}
		}
		if len(names) == 0 {
			return false, nil
		}
		for _, name := range names {
			f := forms[name]
			w := f.what(n)
			if f.rest != nil {
				w = Cat(w, f.rest)
			}
			tmpl[name] = w
		}
		var at map[*Term]*Term
		next := Add(n, IntC(1))
		if total != nil {
			// in terms of the iterations left after this one; that there is one left is shown first
			k := FreshLen("left")
			_, bs := run(nil)
			for _, o := range bs {
				if !holds(o.st, Lt(n, total)) {
					for _, name := range names {
						delete(tmpl, name)
					}
					return false, nil
				}
			}
			at = map[*Term]*Term{n: Sub(Sub(total, IntC(1)), k)}
			next = Sub(total, k)
		}
		_, bs := run(at)
		failed := false
		for _, name := range names {
			for _, o := range bs {
				x.setDecide(o.st)
				b := backVal(o, mod[name])
				if w := forms[name].what(next); is(o.st, b, w) && holds(o.st, Eq(BLen(b.(*Term)), BLen(mod[name].init.(*Term)))) {
					continue
				} else if verbose {
					fmt.Fprintf(os.Stderr, "loop form %s with P=%d is not preserved for %s\n", forms[name].cl.name, forms[name].p, name)
					if os.Getenv("GOCV_DBGF") != "" {
						fmt.Fprintf(os.Stderr, "FORM %s\n", bytewise(Eq(BSub(b.(*Term), IntC(0), BLen(w)), w)))
						for _, c := range o.st.pc {
							fmt.Fprintf(os.Stderr, "   pc %s\n", c)
						}
					}
				}
				failed = true
				pick(name)
				break
			}
			if failed {
				break
			}
		}
		if !failed {
			break
		}
	}
	for _, name := range names {
		x.models["loop form "+forms[name].cl.name] = true
	}
	return true, total
}

// bytewise splits equations between short strings.
func bytewise(g *Term) *Term {
	if g.op == "and" {
		var cs []*Term
		for _, c := range g.args {
			cs = append(cs, bytewise(c))
		}
		return And(cs...)
	}
	if g.op != "=" || g.args[0].sort != SB {
		return g
	}
	a, b := g.args[0], g.args[1]
	if n, ok := BLen(a).i64(); ok && n <= 16 && BLen(b) == BLen(a) {
		var cs []*Term
		for i := int64(0); i < n; i++ {
			cs = append(cs, Eq(BNth(a, IntC(i)), BNth(b, IntC(i))))
		}
		return And(cs...)
	}
	for i := 0; i < 2; i++ {
		if a.op == "cat" && b.op != "cat" {
			cs := []*Term{Eq(BLen(a), BLen(b))}
			off := IntC(0)
			for _, p := range a.args {
				end := Add(off, BLen(p))
				cs = append(cs, bytewise(Eq(p, BSub(b, off, end))))
				off = end
			}
			return And(cs...)
		}
		a, b = b, a
	}
	if a.op != "zeros" {
		a, b = b, a
	}
	if v, ok := dec(Le(BLen(a), IntC(8))); a.op == "zeros" && ok && v {
		cs := []*Term{Eq(BLen(a), BLen(b))}
		for i := int64(0); i < 8; i++ {
			cs = append(cs, Imp(Lt(IntC(i), BLen(a)), Eq(BNth(b, IntC(i)), BVC(8, 0))))
		}
		return And(cs...)
	}
	return g
}

// substValue replaces variables in a value.
func substValue(v Value, m map[*Term]*Term) Value {
	switch w := v.(type) {
	case *Term:
		return Subst(w, m)
	case StructV:
		n := StructV{}
		for _, f := range w.F {
			n.F = append(n.F, substValue(f, m))
		}
		return n
	case ArrayV:
		n := ArrayV{}
		for _, f := range w.E {
			n.E = append(n.E, substValue(f, m))
		}
		return n
	case TupleV:
		n := TupleV{}
		for _, f := range w.E {
			n.E = append(n.E, substValue(f, m))
		}
		return n
	case SliceV:
		return SliceV{Nil: Subst(w.Nil, m), Base: substValue(w.Base, m).(PtrV), Off: Subst(w.Off, m), Len: Subst(w.Len, m), Cap: Subst(w.Cap, m)}
	case PtrV:
		n := w
		n.Path = nil
		for _, p := range w.Path {
			if p.Idx != nil {
				p.Idx = Subst(p.Idx, m)
			}
			n.Path = append(n.Path, p)
		}
		if n.Nil != nil {
			n.Nil = Subst(n.Nil, m)
		}
		return n
	case IfaceV:
		return IfaceV{w.Dyn, substValue(w.Val, m)}
	}
	return v // what it says about the variables is forgotten
}

func substState(s *State, m map[*Term]*Term) {
	var pc []*Term
	for _, c := range s.pc {
		pc = append(pc, Subst(c, m))
	}
	s.pc = pc
	for o, v := range s.heap {
		s.heap[o] = substValue(v, m)
	}
	for g, v := range s.ghost {
		s.ghost[g] = Subst(v, m)
	}
}
func substFrame(f *Frame, m map[*Term]*Term) {
	for k, v := range f.env {
		f.env[k] = substValue(v, m)
	}
}
