package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, StructV, ArrayV, SymArr, SliceV, PtrV, MapV, IfaceV, FuncV, TupleV, AbsV, OpaqueV, RangeV
type Value interface{}

type StructV struct{ F []Value }
type ArrayV struct{ E []Value }

// SymArr is backing storage of symbolic length: one SMT array per leaf of the element type.
type SymArr struct {
	Leaves []*Term
	Elem   types.Type
}
type SliceV struct {
	Nil           *Term
	Base          PtrV
	Off, Len, Cap *Term
}
type PtrV struct {
	Nil  *Term
	Obj  int
	Path []PathE
}
type PathE struct {
	Field int // >=0: struct field
	Idx   *Term
}
type MapV struct {
	Nil *Term
	Obj int
}
type IfaceV struct {
	Dyn types.Type
	Val Value
}
type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
}
type TupleV struct{ E []Value }

// AbsV is a value of an abstract type: only the ghost attributes given by its constructor's contract are known.
type AbsV struct {
	Typ  string
	Attr map[string]Value
}
type OpaqueV struct{ Typ types.Type }
type RangeV struct {
	M    MapV
	Vis  string // ghost name of the visited set
	Dom0 *Term
	KT   types.Type
	ET   types.Type
	Str  *Term
}

// MapC is the content of a map object.
type MapC struct {
	Dom    *Term
	Leaves []*Term
	K, E   types.Type
}

type ObjMeta struct {
	name     string
	typ      types.Type
	caller   bool // memory owned by the caller of the verified function
	init     Value
	global   *ssa.Global
	internal bool
	by       *ssa.CallCommon // the append that made it
}

var objMeta []*ObjMeta

type Event struct {
	Kind string // Put Get Update Delete GetIdentity GetKeys Marshal ...
	Self *Term
	Args map[string]Value
}

type State struct {
	pc     []*Term
	heap   map[int]Value
	ghost  map[string]*Term
	events []Event
	draws  []*Term
	gap    bool // events happened that are not listed (inside an abstracted loop)
	gapEv  []GapEvent
	known  map[*Term]bool
}

// GapEvent stands for the events of the completed iterations of a loop: for every m with cond, Ev happened.
type GapEvent struct {
	Ev   Event
	Cond *Term
	M    *Term
	Draw bool // iterations draw random bytes
}

func (s *State) clone() *State {
	n := &State{pc: append([]*Term{}, s.pc...), heap: make(map[int]Value, len(s.heap)), ghost: make(map[string]*Term, len(s.ghost)),
		events: s.events[:len(s.events):len(s.events)], draws: s.draws[:len(s.draws):len(s.draws)], gap: s.gap, gapEv: s.gapEv[:len(s.gapEv):len(s.gapEv)], known: make(map[*Term]bool, len(s.known))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if s.known[t] {
		return
	}
	if s.known[Not(t)] {
		s.pc = append(s.pc, False)
		return
	}
	s.known[t] = true
	s.pc = append(s.pc, t)
}
func (s *State) infeasible() bool {
	for _, t := range s.pc {
		if t == False {
			return true
		}
	}
	return false
}

type Unsupported struct{ msg string }

func (u Unsupported) Error() string { return u.msg }
func unsupported(f string, a ...interface{}) Value {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

// ---------- types

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}
func isNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == name
}
func isTime(t types.Type) bool { return isNamed(t, "time.Time") }
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isByteArray(t types.Type) (int64, bool) {
	if a, ok := t.Underlying().(*types.Array); ok && isByte(a.Elem()) {
		return a.Len(), true
	}
	return 0, false
}
func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func bitsOf(t types.Type) int {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

// scalarSort is the sort of a Go type represented by one term, or nil.
func scalarSort(t types.Type) *Sort {
	if isTime(t) {
		return SInt
	}
	if _, ok := isByteArray(t); ok {
		return SB
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SB
		case u.Info()&types.IsUnsigned != 0:
			return BV(bitsOf(t))
		case u.Info()&types.IsInteger != 0:
			return SInt
		}
	case *types.Interface:
		return SI
	}
	return nil
}

// leaves of a type whose values can be held in SMT arrays.
type leaf struct {
	path string
	sort *Sort
}

func leavesOf(t types.Type) []leaf {
	if s := scalarSort(t); s != nil {
		return []leaf{{"", s}}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesOf(u.Field(i).Type()) {
				out = append(out, leaf{"." + u.Field(i).Name() + l.path, l.sort})
			}
		}
		return out
	case *types.Slice:
		if isByte(u.Elem()) {
			return []leaf{{".nil", SBool}, {".c", SB}}
		}
	}
	unsupported("element type %s in a symbolic container", t)
	return nil
}

// toLeaves flattens a value of type t.
func (x *Exec) toLeaves(st *State, v Value, t types.Type) []*Term {
	if scalarSort(t) != nil {
		return []*Term{x.scalar(st, v, t)}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []*Term
		sv, ok := v.(StructV)
		if !ok {
			unsupported("abstract value of type %s in a container", t)
		}
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.toLeaves(st, sv.F[i], u.Field(i).Type())...)
		}
		return out
	case *types.Slice:
		s := v.(SliceV)
		return []*Term{s.Nil, x.content(st, s)}
	}
	unsupported("toLeaves %s", t)
	return nil
}
func (x *Exec) fromLeaves(st *State, ls []*Term, t types.Type) (Value, []*Term) {
	if scalarSort(t) != nil {
		if n, ok := isByteArray(t); ok && !ls[0].bound {
			x.arrLen(st, ls[0], n)
		}
		return ls[0], ls[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ls = x.fromLeaves(st, ls, u.Field(i).Type())
			sv.F = append(sv.F, f)
		}
		return sv, ls
	case *types.Slice:
		s := x.newBytes(st, "elem", ls[1])
		s.Nil = ls[0]
		return s, ls[2:]
	}
	unsupported("fromLeaves %s", t)
	return nil, nil
}

func (x *Exec) arrLen(st *State, t *Term, n int64) {
	if _, ok := BLen(t).i64(); !ok {
		st.assume(Eq(BLen(t), IntC(n)))
	}
}

// scalar converts v to a term of scalarSort(t).
func (x *Exec) scalar(st *State, v Value, t types.Type) *Term {
	switch w := v.(type) {
	case *Term:
		return w
	case IfaceV:
		return x.boxIface(st, w)
	}
	unsupported("scalar of %T (%s)", v, t)
	return nil
}

var boxes = map[string]*Term{}

// boxIface gives a term for an interface value with known dynamic type.
func (x *Exec) boxIface(st *State, v IfaceV) *Term {
	var ls []*Term
	var name string
	switch p := v.Val.(type) {
	case PtrV:
		name = fmt.Sprintf("box.%s.obj%d%v", typeName(v.Dyn), p.Obj, p.Path)
	default:
		ls = x.toLeaves(st, v.Val, v.Dyn)
		name = "box." + typeName(v.Dyn)
	}
	t := App(name, SI, ls...)
	if len(ls) == 0 {
		t = Var(name, SI)
	}
	t.AddFact(Not(mk("=", "", nil, SBool, INil, t)))
	boxed[t] = v
	return t
}

var boxed = map[*Term]IfaceV{}

// ---------- objects

func (x *Exec) newObj(st *State, name string, typ types.Type, v Value) int {
	id := len(objMeta)
	objMeta = append(objMeta, &ObjMeta{name: name, typ: typ})
	st.heap[id] = v
	return id
}

func notNil(o int) PtrV { return PtrV{Nil: False, Obj: o} }

// newBytes allocates a byte object with the given content and a slice over all of it.
func (x *Exec) newBytes(st *State, name string, content *Term) SliceV {
	o := x.newObj(st, name, nil, content)
	n := BLen(content)
	return SliceV{Nil: False, Base: notNil(o), Off: IntC(0), Len: n, Cap: n}
}

func nilSlice() SliceV {
	return SliceV{Nil: True, Base: PtrV{Nil: True, Obj: -1}, Off: IntC(0), Len: IntC(0), Cap: IntC(0)}
}

// zeroValue of a Go type.
func (x *Exec) zero(st *State, t types.Type) Value {
	if isTime(t) {
		return zeroTime
	}
	if isNamed(t, "sync.Map") {
		return x.newSyncMap(st)
	}
	if n, ok := isByteArray(t); ok {
		return Zeros(IntC(n))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return BLit("")
		case u.Info()&types.IsUnsigned != 0:
			return BVC(bitsOf(t), 0)
		case u.Info()&types.IsInteger != 0:
			return IntC(0)
		case u.Kind() == types.UnsafePointer:
			return OpaqueV{t}
		case u.Kind() == types.UntypedNil:
			return INil
		case u.Info()&types.IsFloat != 0:
			return OpaqueV{t}
		}
	case *types.Struct:
		sv := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.zero(st, u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		if u.Len() > 4096 {
			unsupported("array of %d elements", u.Len())
		}
		av := ArrayV{}
		for i := int64(0); i < u.Len(); i++ {
			av.E = append(av.E, x.zero(st, u.Elem()))
		}
		return av
	case *types.Slice:
		return nilSlice()
	case *types.Pointer, *types.Chan:
		return PtrV{Nil: True, Obj: -1}
	case *types.Map:
		return MapV{Nil: True, Obj: -1}
	case *types.Interface:
		return INil
	case *types.Signature:
		return FuncV{}
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.E = append(tv.E, x.zero(st, u.At(i).Type()))
		}
		return tv
	}
	return unsupported("zero value of %s", t)
}

var zeroTime = Var("time.zero", SInt)

func intRange(t *Term, ty types.Type) {
	if t.bound {
		return
	}
	b := bitsOf(ty)
	lo, hi := intBounds(b)
	t.AddFact(mk("<=", "", nil, SBool, lo, t))
	t.AddFact(mk("<=", "", nil, SBool, t, hi))
}

// symValue is an arbitrary value of the type; memory it refers to is freshly allocated and, when
// owned is set, belongs to the caller.
func (x *Exec) symValue(st *State, t types.Type, name string, owned bool) Value {
	if isTime(t) {
		return x.fresh(name, SInt)
	}
	if isNamed(t, "sync.Map") {
		return x.symSyncMap(st, name)
	}
	if n, ok := isByteArray(t); ok {
		v := x.fresh(name, SB)
		return SetLen(v, IntC(n))
	}
	if s := scalarSort(t); s != nil {
		v := x.fresh(name, s)
		if isInt(t) {
			intRange(v, t)
		}
		if s == SI {
			if iface, ok := t.Underlying().(*types.Interface); ok {
				_ = iface
			}
		}
		return v
	}
	mark := func(o int) {
		if owned {
			objMeta[o].caller = true
			objMeta[o].init = st.heap[o]
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if abstractType(t) != nil && x.abstracts(t) {
			return unsupported("symbolic value of abstract type %s", t)
		}
		sv := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.symValue(st, u.Field(i).Type(), name+"."+u.Field(i).Name(), owned))
		}
		return sv
	case *types.Slice:
		n := x.freshLen(name + ".len")
		nl := x.fresh(name+".nil", SBool)
		if k, ok := x.fixLen[name]; ok {
			n = IntC(k)
			if k > 0 {
				nl = False
			}
		}
		st.assume(Imp(nl, Eq(n, IntC(0))))
		if isByte(u.Elem()) {
			c := SetLen(x.fresh(name, SB), n)
			sp := x.fresh(name+".spare", SB)
			if !owned {
				s := x.newBytes(st, name, c)
				s.Nil = nl
				return s
			}
			o := x.newObj(st, name, t, Cat(c, sp))
			st.assume(Imp(nl, Eq(BLen(sp), IntC(0))))
			mark(o)
			return SliceV{Nil: nl, Base: notNil(o), Off: IntC(0), Len: n, Cap: Add(n, BLen(sp))}
		}
		capT := n
		if owned {
			capT = Add(n, x.freshLen(name+".spare"))
			st.assume(Imp(nl, Eq(capT, IntC(0))))
		}
		o := x.newObj(st, name, t, x.symArr(name, u.Elem()))
		mark(o)
		return SliceV{Nil: nl, Base: notNil(o), Off: IntC(0), Len: n, Cap: capT}
	case *types.Map:
		o := x.newObj(st, name, t, x.symMap(name, u))
		mark(o)
		nl := x.fresh(name+".nil", SBool)
		m := st.heap[o].(MapC)
		// a nil map is empty
		kv := BVar("k", m.Dom.sort.Key)
		st.assume(Imp(nl, Forall([]*Term{kv}, Not(Select(m.Dom, kv)))))
		return MapV{Nil: nl, Obj: o}
	case *types.Pointer:
		o := x.newObj(st, name, u.Elem(), nil)
		st.heap[o] = x.symValue(st, u.Elem(), name, owned)
		mark(o)
		return notNil(o)
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.E = append(tv.E, x.symValue(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), owned))
		}
		return tv
	case *types.Basic, *types.Signature, *types.Chan:
		return OpaqueV{t}
	}
	return unsupported("symbolic value of %s", t)
}

func (x *Exec) symArr(name string, elem types.Type) SymArr {
	sa := SymArr{Elem: elem}
	for _, l := range leavesOf(elem) {
		sa.Leaves = append(sa.Leaves, x.fresh(name+".elems"+l.path, Arr(SInt, l.sort)))
	}
	return sa
}
func keySort(t types.Type) *Sort {
	s := scalarSort(t)
	if s == nil {
		unsupported("map key type %s", t)
	}
	return s
}
func (x *Exec) symMap(name string, u *types.Map) MapC {
	ks := keySort(u.Key())
	m := MapC{Dom: x.fresh(name+".dom", Arr(ks, SBool)), K: u.Key(), E: u.Elem()}
	for _, l := range leavesOf(u.Elem()) {
		m.Leaves = append(m.Leaves, x.fresh(name+".val"+l.path, Arr(ks, l.sort)))
	}
	return m
}
func (x *Exec) emptyMap(u *types.Map) MapC {
	ks := keySort(u.Key())
	m := MapC{Dom: ConstArr(Arr(ks, SBool), False), K: u.Key(), E: u.Elem()}
	for _, l := range leavesOf(u.Elem()) {
		m.Leaves = append(m.Leaves, x.defArr(ks, l.sort))
	}
	return m
}

// defArr is an array of unspecified (but fixed) default values.
func (x *Exec) defArr(k, v *Sort) *Term {
	return Var("defarr."+k.Name+"."+v.Name, Arr(k, v))
}

// ---------- access through pointers

func (x *Exec) load(st *State, p PtrV) Value {
	if p.Obj < 0 {
		return unsupported("load through unknown pointer")
	}
	v, ok := st.heap[p.Obj]
	if !ok {
		return unsupported("load of missing object %d %s", p.Obj, objMeta[p.Obj].name)
	}
	for i, e := range p.Path {
		v = x.project(st, v, e, p, i)
	}
	return v
}

func (x *Exec) project(st *State, v Value, e PathE, p PtrV, i int) Value {
	switch w := v.(type) {
	case StructV:
		if e.Field >= 0 {
			return w.F[e.Field]
		}
	case ArrayV:
		if k, ok := x.concrete(st, e.Idx); ok && k >= 0 && k < int64(len(w.E)) {
			return w.E[k]
		}
		// symbolic index into a concrete array: nested ite of scalar elements
		var r *Term
		for j := len(w.E) - 1; j >= 0; j-- {
			t, ok := w.E[j].(*Term)
			if !ok {
				return unsupported("symbolic index into array of %T", w.E[j])
			}
			if r == nil {
				r = t
			} else {
				r = Ite(Eq(e.Idx, IntC(int64(j))), t, r)
			}
		}
		return r
	case *Term:
		if w.sort == SB && e.Idx != nil {
			return BNth(w, e.Idx)
		}
	case SymArr:
		var ls []*Term
		for _, a := range w.Leaves {
			ls = append(ls, Select(a, e.Idx))
		}
		r, _ := x.fromLeaves(st, ls, w.Elem)
		return r
	case AbsV:
		return unsupported("field of abstract %s", w.Typ)
	}
	return unsupported("project %T %+v of obj %s", v, e, objMeta[p.Obj].name)
}

func (x *Exec) storeAt(st *State, p PtrV, nv Value) {
	if p.Obj < 0 {
		unsupported("store through unknown pointer")
	}
	st.heap[p.Obj] = x.update(st, st.heap[p.Obj], p.Path, nv)
}
func (x *Exec) update(st *State, v Value, path []PathE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	switch w := v.(type) {
	case StructV:
		f := append([]Value{}, w.F...)
		f[e.Field] = x.update(st, f[e.Field], path[1:], nv)
		return StructV{f}
	case ArrayV:
		k, ok := x.concrete(st, e.Idx)
		if !ok {
			return unsupported("symbolic store into array")
		}
		f := append([]Value{}, w.E...)
		f[k] = x.update(st, f[k], path[1:], nv)
		return ArrayV{f}
	case *Term:
		if w.sort == SB && e.Idx != nil && len(path) == 1 {
			return BSplice(w, e.Idx, BUnit(nv.(*Term)))
		}
	case SymArr:
		if len(path) > 1 {
			cur := x.project(st, w, e, PtrV{}, 0)
			nv = x.update(st, cur, path[1:], nv)
		}
		ls := x.toLeaves(st, nv, w.Elem)
		n := SymArr{Elem: w.Elem}
		for i, a := range w.Leaves {
			n.Leaves = append(n.Leaves, Store(a, e.Idx, ls[i]))
		}
		return n
	}
	return unsupported("update %T %+v", v, e)
}

// concrete value of an integer term on this path, if it is determined.
func (x *Exec) concrete(st *State, t *Term) (int64, bool) {
	if v, ok := t.i64(); ok {
		return v, true
	}
	return 0, false
}

// content of a byte slice.
func (x *Exec) content(st *State, s SliceV) *Term {
	if s.Len == IntC(0) || s.Base.Obj < 0 {
		return BLit("")
	}
	v := x.load(st, s.Base)
	c, ok := v.(*Term)
	if !ok || c.sort != SB {
		unsupported("content of non-byte slice (%T)", v)
	}
	return BSub(c, s.Off, Add(s.Off, s.Len))
}

// sliceElem reads element i of a slice.
func (x *Exec) sliceElem(st *State, s SliceV, i *Term) Value {
	p := s.Base
	p.Path = append(append([]PathE{}, p.Path...), PathE{-1, Add(s.Off, i)})
	return x.load(st, p)
}
func elemPtr(s SliceV, i *Term) PtrV {
	p := s.Base
	p.Path = append(append([]PathE{}, p.Path...), PathE{-1, Add(s.Off, i)})
	p.Nil = False
	return p
}
func fieldPtr(p PtrV, f int) PtrV {
	p.Path = append(append([]PathE{}, p.Path...), PathE{f, nil})
	return p
}

func (x *Exec) mapC(st *State, m MapV) MapC {
	if m.Obj < 0 {
		unsupported("content of nil map")
	}
	return st.heap[m.Obj].(MapC)
}

// ---------- debugging

func showValue(st *State, v Value) string {
	switch w := v.(type) {
	case *Term:
		return w.String()
	case StructV:
		var o []string
		for _, f := range w.F {
			o = append(o, showValue(st, f))
		}
		return "{" + strings.Join(o, ", ") + "}"
	case SliceV:
		s := fmt.Sprintf("slice(nil=%s obj%d%v off=%s len=%s cap=%s", w.Nil, w.Base.Obj, w.Base.Path, w.Off, w.Len, w.Cap)
		if w.Base.Obj >= 0 && len(w.Base.Path) == 0 {
			s += " = " + showValue(st, st.heap[w.Base.Obj])
		}
		return s + ")"
	case PtrV:
		s := fmt.Sprintf("ptr(nil=%s obj%d%v)", w.Nil, w.Obj, w.Path)
		return s
	case MapV:
		s := fmt.Sprintf("map(nil=%s obj%d", w.Nil, w.Obj)
		if w.Obj >= 0 {
			s += " " + showValue(st, st.heap[w.Obj])
		}
		return s + ")"
	case MapC:
		return fmt.Sprintf("dom=%s vals=%v", w.Dom, w.Leaves)
	case IfaceV:
		return "iface(" + w.Dyn.String() + " " + showValue(st, w.Val) + ")"
	case TupleV:
		var o []string
		for _, f := range w.E {
			o = append(o, showValue(st, f))
		}
		return "(" + strings.Join(o, ", ") + ")"
	case AbsV:
		var ks []string
		for k, t := range w.Attr {
			ks = append(ks, k+"="+showValue(st, t))
		}
		sort.Strings(ks)
		return "abs " + w.Typ + "{" + strings.Join(ks, " ") + "}"
	}
	return fmt.Sprintf("%T", v)
}
