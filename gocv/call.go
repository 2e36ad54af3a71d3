package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) note(s string) {
	if x.assumes != nil {
		x.assumes[s] = true
	}
}

func (x *Exec) calleeArgs(st *State, fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	if c.IsInvoke() {
		return x.val(st, fr, c.Value), args
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b, args
	}
	return x.val(st, fr, c.Value), args
}

func (x *Exec) call(st *State, fr *Frame, c *ssa.CallCommon, v *ssa.Call, depth int) []stRet {
	fv, args := x.calleeArgs(st, fr, c)
	return x.callValue(st, fv, args, c, v, depth)
}

func (x *Exec) callValue(st *State, fv Value, args []Value, c *ssa.CallCommon, v *ssa.Call, depth int) []stRet {
	if b, ok := fv.(*ssa.Builtin); ok {
		return x.builtin(st, b, args, c)
	}
	if c.IsInvoke() {
		switch r := fv.(type) {
		case IfaceV:
			m := x.prog.prog.LookupMethod(r.Dyn, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				unsupported("method %s of %s", c.Method.Name(), r.Dyn)
			}
			return x.callStatic(st, m, append([]Value{r.Val}, args...), nil, c, depth)
		case *Term:
			if b, ok := boxed[r]; ok {
				return x.callValue(st, b, args, c, v, depth)
			}
			if r.op == "ite" && r.sort == SI {
				var out []stRet
				a, b := x.fork(st, r.args[0])
				if a != nil {
					x.setDecide(a)
					out = append(out, x.callValue(a, r.args[1], args, c, v, depth)...)
				}
				if b != nil {
					x.setDecide(b)
					out = append(out, x.callValue(b, r.args[2], args, c, v, depth)...)
				}
				return out
			}
			x.mustHold(st, "panic", "nil interface method call", c.Pos(), Not(Eq(r, INil)))
			it := c.Value.Type()
			key := ifaceName(it) + "." + c.Method.Name()
			if m, ok := ifaceModels[key]; ok {
				x.markModel("interface " + key)
				return m(x, st, r, args, c)
			}
			return x.opaqueCall(st, "("+key+")", c.Signature(), c)
		case OpaqueV:
			if m, ok := ifaceModels[ifaceName(c.Value.Type())+"."+c.Method.Name()]; ok {
				return m(x, st, nil, args, c)
			}
			return x.opaqueCall(st, ifaceName(c.Value.Type())+"."+c.Method.Name(), c.Signature(), c)
		case AbsV:
			key := r.Typ + "." + c.Method.Name()
			if m, ok := absModels[key]; ok {
				return m(x, st, r, args, c)
			}
			unsupported("method %s of abstract value %s", c.Method.Name(), r.Typ)
		}
		unsupported("invoke on %T", fv)
	}
	switch f := fv.(type) {
	case FuncV:
		if f.Fn == nil {
			x.mustHold(st, "panic", "call of nil function", c.Pos(), False)
			return nil
		}
		return x.callStatic(st, f.Fn, args, f.Bind, c, depth)
	case OpaqueV:
		unsupported("call of opaque function value")
	}
	unsupported("call of %T", fv)
	return nil
}

func ifaceName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return t.String()
}

func (x *Exec) markModel(k string) {
	if x.models != nil {
		x.models[k] = true
	}
}

func (x *Exec) callStatic(st *State, fn *ssa.Function, args []Value, binds []Value, c *ssa.CallCommon, depth int) []stRet {
	// method wrappers and promoted methods have bodies synthesised by ssa and are inlined
	key := fnKey(fn)
	if fn.Synthetic == "" || fn.Origin() != nil || strings.HasPrefix(fn.Synthetic, "from type") {
		if !x.noUse[key] {
			if ct := x.prog.spec.contracts[key]; ct != nil && ct.use {
				if x.used != nil {
					x.used[key] = true
				}
				return x.applyContract(st, ct, fn, args, c)
			}
		}
		if m, ok := models[key]; ok {
			x.markModel(key)
			return m(x, st, args, c)
		}
		if pm := prefixModel(key); pm != nil {
			x.markModel(key)
			return pm(x, st, fn, args, c)
		}
	}
	inRepo := fn.Pkg != nil && isRepoPkg(fn.Pkg.Pkg)
	if fn.Pkg == nil { // wrappers, instances
		inRepo = true
	}
	if !inRepo && !inlineStd(fn) {
		unsupported("call of unmodelled function %s", key)
	}
	if fn.Parent() == nil && x.inlined != nil && inRepo && fn.Synthetic == "" {
		x.inlined[key] = true
	}
	outs := x.callFn(st, fn, args, binds, depth+1)
	var rs []stRet
	for _, o := range outs {
		if o.kind != OReturn {
			unsupported("abnormal outcome of %s", fn)
		}
		rs = append(rs, stRet{o.st, o.ret})
	}
	return rs
}

func inlineStd(fn *ssa.Function) bool {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg == nil {
		return true
	}
	switch f.Pkg.Pkg.Path() {
	case "slices", "maps", "cmp", "iter":
		return len(fn.Blocks) > 0
	}
	return false
}

// opaqueCall: unknown function without effects on modelled state; result arbitrary.
func (x *Exec) opaqueCall(st *State, name string, sig *types.Signature, c *ssa.CallCommon) []stRet {
	return []stRet{{unsupportedState(name), nil}}
}
func unsupportedState(name string) *State {
	unsupported("call of unmodelled interface method %s", name)
	return nil
}

func (x *Exec) builtin(st *State, b *ssa.Builtin, args []Value, c *ssa.CallCommon) []stRet {
	one := func(v Value) []stRet { return []stRet{{st, v}} }
	switch b.Name() {
	case "len":
		switch a := args[0].(type) {
		case SliceV:
			return one(a.Len)
		case *Term:
			return one(BLen(a))
		case MapV:
			if a.Obj < 0 {
				return one(IntC(0))
			}
			return one(x.mapLen(st, a))
		case PtrV:
			return one(IntC(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case ArrayV:
			return one(IntC(int64(len(a.E))))
		}
	case "cap":
		switch a := args[0].(type) {
		case SliceV:
			return one(a.Cap)
		}
	case "append":
		return x.appendOp(st, args[0].(SliceV), args[1], c.Args[0].Type().Underlying().(*types.Slice).Elem(), c)
	case "copy":
		return x.copyOp(st, args[0].(SliceV), args[1], c)
	case "delete":
		m := args[0].(MapV)
		if m.Obj < 0 {
			return one(TupleV{})
		}
		x.interfere(st, PtrV{Nil: False, Obj: m.Obj})
		mc := x.mapC(st, m)
		k := x.scalar(st, args[1], mc.K)
		x.atomic(st, True, Select(mc.Dom, k), False, true)
		// deleting from a nil map does nothing: its domain is empty anyway
		st.heap[m.Obj] = MapC{Dom: Store(mc.Dom, k, False), Leaves: mc.Leaves, K: mc.K, E: mc.E}
		return one(TupleV{})
	case "clear":
		if m, ok := args[0].(MapV); ok {
			if m.Obj >= 0 {
				mc := x.mapC(st, m)
				st.heap[m.Obj] = MapC{Dom: ConstArr(mc.Dom.sort, False), Leaves: mc.Leaves, K: mc.K, E: mc.E}
			}
			return one(TupleV{})
		}
		if s, ok := args[0].(SliceV); ok && isBytes(c.Args[0].Type()) {
			if s.Base.Obj >= 0 {
				old := x.load(st, s.Base).(*Term)
				x.storeAt(st, s.Base, BSplice(old, s.Off, Zeros(s.Len)))
			}
			return one(TupleV{})
		}
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			var le *Term
			if r.sort.Kind == "bv" {
				le = bvCmp("bvule", r, t)
			} else {
				le = Le(r, t)
			}
			if b.Name() == "min" {
				r = Ite(le, r, t)
			} else {
				r = Ite(le, t, r)
			}
		}
		return one(r)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok {
			x.mustHold(st, "panic", "nil receiver", c.Pos(), Not(p.Nil))
		}
		return one(args[0])
	case "print", "println":
		return one(TupleV{})
	}
	unsupported("builtin %s on %T", b.Name(), args[0])
	return nil
}

func (x *Exec) mapLen(st *State, a MapV) *Term {
	d := x.mapC(st, a).Dom
	if es, ok := domElems(d); ok {
		distinct := true
		for i := range es {
			for j := i + 1; j < len(es); j++ {
				if Eq(es[i], es[j]) != False {
					distinct = false
				}
			}
		}
		if distinct {
			return IntC(int64(len(es)))
		}
	}
	t := App("mlen."+d.sort.Name, SInt, d)
	if len(t.facts) == 0 && !t.bound {
		nonnegVar[t] = true
		k := BVar("k", d.sort.Key)
		t.AddFact(mk("<=", "", nil, SBool, IntC(0), t))
		t.AddFact(mk("<=", "", nil, SBool, t, IntBig(maxLen)))
		t.AddFact(mk("=", "", nil, SBool, mk("=", "", nil, SBool, t, IntC(0)), Forall([]*Term{k}, Not(Select(d, k)))))
	}
	return t
}

// appendOp models append(s, t...).
func (x *Exec) appendOp(st *State, s SliceV, tv Value, et types.Type, c *ssa.CallCommon) []stRet {
	if isByte(et) {
		var tc *Term
		switch t := tv.(type) {
		case *Term:
			tc = t
		case SliceV:
			tc = x.content(st, t)
		}
		if s.Base.Obj >= 0 && objMeta[s.Base.Obj].by != nil {
			// the only reference to a slice just made by an append is lost here: nothing can share memory with the result
			if in, ok := c.Args[0].(*ssa.Call); ok && &in.Call == objMeta[s.Base.Obj].by && in.Referrers() != nil && len(*in.Referrers()) == 1 {
				return markBy([]stRet{{st, x.grown(st, Cat(x.content(st, s), tc))}}, s, c)
			}
		}
		return markBy(x.appendBytes(st, s, tc), s, c)
	}
	t := tv.(SliceV)
	if t.Len == IntC(0) {
		return []stRet{{st, s}}
	}
	n := Add(s.Len, t.Len)
	var out []stRet
	fit, grow := x.fork(st, Le(n, s.Cap))
	if fit != nil {
		x.setDecide(fit)
		r := s
		r.Len = n
		if s.Base.Obj >= 0 {
			x.writeElems(fit, s, s.Len, t, et)
		}
		out = append(out, stRet{fit, r})
	}
	if grow != nil {
		x.setDecide(grow)
		extra := x.freshLen("growth")
		var o int
		off := IntC(0)
		var base Value
		if s.Base.Obj >= 0 {
			base = x.load(grow, s.Base)
		}
		ln, ok1 := s.Len.i64()
		tl, ok2 := t.Len.i64()
		_, sc := base.(ArrayV)
		if (s.Base.Obj < 0 || sc) && ok1 && ok2 {
			av := ArrayV{}
			for i := int64(0); i < ln; i++ {
				av.E = append(av.E, x.sliceElem(grow, s, IntC(i)))
			}
			for i := int64(0); i < tl; i++ {
				av.E = append(av.E, x.sliceElem(grow, t, IntC(i)))
			}
			o = x.newObj(grow, "append", nil, av)
			out = append(out, stRet{grow, SliceV{Nil: False, Base: notNil(o), Off: off, Len: n, Cap: n}})
			return out
		}
		var sa SymArr
		if s.Base.Obj >= 0 {
			sa = x.asSymArr(grow, s, et)
			off = s.Off
		} else {
			sa = x.symArr("append", et)
		}
		o = x.newObj(grow, "append", nil, sa)
		ns := SliceV{Nil: False, Base: notNil(o), Off: off, Len: n, Cap: Add(n, extra)}
		x.writeElems(grow, ns, s.Len, t, et)
		out = append(out, stRet{grow, ns})
	}
	return out
}

// asSymArr views the backing store of s as SMT arrays (indexes are absolute).
func (x *Exec) asSymArr(st *State, s SliceV, et types.Type) SymArr {
	switch b := x.load(st, s.Base).(type) {
	case SymArr:
		return b
	case ArrayV:
		sa := SymArr{Elem: et}
		for _, l := range leavesOf(et) {
			sa.Leaves = append(sa.Leaves, x.defArr(SInt, l.sort))
		}
		for i, e := range b.E {
			ls := x.toLeaves(st, e, et)
			for j := range sa.Leaves {
				sa.Leaves[j] = Store(sa.Leaves[j], IntC(int64(i)), ls[j])
			}
		}
		return sa
	}
	unsupported("slice backing")
	return SymArr{}
}

// writeElems writes the elements of t at index at of s.
func (x *Exec) writeElems(st *State, s SliceV, at *Term, t SliceV, et types.Type) {
	if n, ok := t.Len.i64(); ok && n <= 64 {
		var vals []Value
		for i := int64(0); i < n; i++ {
			vals = append(vals, x.sliceElem(st, t, IntC(i)))
		}
		for i, v := range vals {
			x.storeAt(st, elemPtr(s, Add(at, IntC(int64(i)))), v)
		}
		return
	}
	src := x.asSymArr(st, t, et)
	dst := x.asSymArr(st, s, et)
	nw := SymArr{Elem: et}
	for i := range dst.Leaves {
		a := x.fresh("arrcat", dst.Leaves[i].sort)
		k := BVar("k", SInt)
		lo := Add(s.Off, at)
		in := And(Le(lo, k), Lt(k, Add(lo, t.Len)))
		st.assume(Forall([]*Term{k}, Eq(Select(a, k), Ite(in, Select(src.Leaves[i], Add(t.Off, Sub(k, lo))), Select(dst.Leaves[i], k)))))
		arrParts[a] = arrPart{dst.Leaves[i], src.Leaves[i], lo, t.Off, t.Len}
		nw.Leaves = append(nw.Leaves, a)
	}
	x.storeAt(st, s.Base, nw)
}

// markBy records that the results in new memory were made by the append c.
func markBy(rs []stRet, s SliceV, c *ssa.CallCommon) []stRet {
	for _, r := range rs {
		if v, ok := r.ret.(SliceV); ok && v.Base.Obj >= 0 && v.Base.Obj != s.Base.Obj {
			objMeta[v.Base.Obj].by = c
		}
	}
	return rs
}

func (x *Exec) appendBytes(st *State, s SliceV, tc *Term) []stRet {
	if BLen(tc) == IntC(0) {
		return []stRet{{st, s}}
	}
	n := Add(s.Len, BLen(tc))
	if s.Base.Obj < 0 {
		// nil: result is nil only if tc is empty
		a, b := x.fork(st, Eq(BLen(tc), IntC(0)))
		var out []stRet
		if a != nil {
			out = append(out, stRet{a, s})
		}
		if b != nil {
			x.setDecide(b)
			out = append(out, stRet{b, x.grown(b, tc)})
		}
		return out
	}
	if s.Cap == IntC(0) && s.Nil == False {
		// there is no memory to share: a new array of length 0 is as good as the old one
		return []stRet{{st, x.grown(st, tc)}}
	}
	fit, grow := x.fork(st, Le(n, s.Cap))
	var out []stRet
	if fit != nil {
		x.setDecide(fit)
		old := x.load(fit, s.Base).(*Term)
		x.storeAt(fit, s.Base, BSplice(old, Add(s.Off, s.Len), tc))
		r := s
		r.Len = n
		out = append(out, stRet{fit, r})
	}
	if grow != nil {
		x.setDecide(grow)
		out = append(out, stRet{grow, x.grown(grow, Cat(x.content(grow, s), tc))})
	}
	return out
}

// grown is a fresh byte slice with the content and unknown spare capacity.
func (x *Exec) grown(st *State, c *Term) SliceV {
	extra := x.freshLen("growth")
	o := x.newObj(st, "append", nil, Cat(c, Zeros(extra)))
	n := BLen(c)
	return SliceV{Nil: False, Base: notNil(o), Off: IntC(0), Len: n, Cap: Add(n, extra)}
}

func (x *Exec) copyOp(st *State, d SliceV, sv Value, c *ssa.CallCommon) []stRet {
	var out []stRet
	bytes := isBytes(c.Args[0].Type())
	var sl *Term
	switch s := sv.(type) {
	case *Term:
		sl = BLen(s)
	case SliceV:
		sl = s.Len
	}
	fits := Le(sl, d.Len)
	if d.Len.op == "int" && sl.op != "int" {
		fits = Lt(sl, d.Len) // the length is a constant where both are the same
	}
	a, b := x.fork(st, fits)
	do := func(s2 *State, n *Term) {
		x.setDecide(s2)
		if n != IntC(0) {
			if !bytes {
				if _, ok := n.i64(); !ok {
					// element-wise copy of symbolic length
					src := sv.(SliceV)
					src.Len = n
					x.writeElems(s2, d, IntC(0), src, c.Args[0].Type().Underlying().(*types.Slice).Elem())
				} else {
					src := sv.(SliceV)
					src.Len = n
					x.writeElems(s2, d, IntC(0), src, c.Args[0].Type().Underlying().(*types.Slice).Elem())
				}
			} else {
				var sc *Term
				switch s := sv.(type) {
				case *Term:
					sc = BSub(s, IntC(0), n)
				case SliceV:
					s.Len = n
					sc = x.content(s2, s)
				}
				if d.Base.Obj >= 0 {
					old := x.load(s2, d.Base).(*Term)
					x.storeAt(s2, d.Base, BSplice(old, d.Off, sc))
				}
			}
		}
		out = append(out, stRet{s2, n})
	}
	if a != nil {
		do(a, sl)
	}
	if b != nil {
		do(b, d.Len)
	}
	return out
}

func prefixModel(key string) func(*Exec, *State, *ssa.Function, []Value, *ssa.CallCommon) []stRet {
	if key == "github.com/rs/zerolog.(*Logger).UpdateContext" {
		// calls its argument (or not, when logging is disabled)
		return func(x *Exec, st *State, fn *ssa.Function, args []Value, c *ssa.CallCommon) []stRet {
			f, ok := args[1].(FuncV)
			if !ok || f.Fn == nil {
				unsupported("UpdateContext of %T", args[1])
			}
			var out []stRet
			for _, r := range x.callValue(st, f, []Value{OpaqueV{f.Fn.Signature.Params().At(0).Type()}}, c, nil, 1) {
				out = append(out, stRet{r.st, TupleV{}})
			}
			return out
		}
	}
	if strings.HasPrefix(key, "github.com/rs/zerolog.") || strings.HasPrefix(key, "github.com/rs/zerolog/") {
		return func(x *Exec, st *State, fn *ssa.Function, args []Value, c *ssa.CallCommon) []stRet {
			return []stRet{{st, opaqueResult(fn.Signature, args)}}
		}
	}
	return nil
}

func opaqueResult(sig *types.Signature, args []Value) Value {
	r := sig.Results()
	mk := func(t types.Type) Value {
		if isNamed(t, "context.Context") {
			for _, a := range args {
				if w, ok := a.(*Term); ok && w.sort == SI {
					return w
				}
			}
			return Sent("ctx")
		}
		return OpaqueV{t}
	}
	switch r.Len() {
	case 0:
		return TupleV{}
	case 1:
		return mk(r.At(0).Type())
	}
	tv := TupleV{}
	for i := 0; i < r.Len(); i++ {
		tv.E = append(tv.E, mk(r.At(i).Type()))
	}
	return tv
}

var _ = fmt.Sprint
