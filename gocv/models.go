package main

// Models of functions outside the repository. Each model is an assumption of the verification and is
// listed in the evidence of every unit that used it.

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet

var models = map[string]model{}
var ifaceModels = map[string]func(x *Exec, st *State, self *Term, args []Value, c *ssa.CallCommon) []stRet{}
var absModels = map[string]func(x *Exec, st *State, self AbsV, args []Value, c *ssa.CallCommon) []stRet{}

func posOf(c *ssa.CallCommon) token.Pos {
	if c == nil {
		return token.NoPos
	}
	return c.Pos()
}
func ret1(st *State, vs ...Value) []stRet {
	switch len(vs) {
	case 0:
		return []stRet{{st, TupleV{}}}
	case 1:
		return []stRet{{st, vs[0]}}
	}
	return []stRet{{st, TupleV{vs}}}
}

// ---------- errors

var wraps = map[*Term][]*Term{}   // sentinel -> wrapped errors
var privNames = map[string]bool{} // errors that are no sentinel of the repository and wrap none
var errN int

func newSent(name string) *Term {
	errN++
	return Sent(fmt.Sprintf("%s#%d", clean(name), errN))
}

func (x *Exec) privErr(st *State, name string) *Term {
	t := x.fresh("e."+name, SI)
	privNames[t.name] = true
	t.AddFact(mk("not", "", nil, SBool, mk("=", "", nil, SBool, INil, t)))
	for _, s := range x.prog.baseSents {
		a, b := s, t
		if a.id > b.id {
			a, b = b, a
		}
		t.AddFact(mk("not", "", nil, SBool, mk("=", "", nil, SBool, a, b)))
	}
	return t
}

// errIs is errors.Is.
func errIs(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a == INil || b == INil {
		return Eq(a, b)
	}
	if a.op == "ite" {
		return Ite(a.args[0], errIs(a.args[1], b), errIs(a.args[2], b))
	}
	if isSent(a) {
		cs := []*Term{Eq(a, b)}
		for _, w := range wraps[a] {
			cs = append(cs, errIs(w, b))
		}
		return Or(cs...)
	}
	if privNames[a.name] && isSent(b) {
		return False
	}
	t := App("erris", SBool, a, b)
	if !t.fdone && !t.bound {
		t.fdone = true
		t.AddFact(Imp(Eq(a, b), t))
		t.AddFact(Imp(Eq(a, INil), Not(t)))
	}
	return t
}

func (x *Exec) variadic(st *State, v Value) []Value {
	s, ok := v.(SliceV)
	if !ok {
		unsupported("variadic arguments")
	}
	n, ok := s.Len.i64()
	if !ok {
		unsupported("variadic arguments of unknown number")
	}
	var out []Value
	for i := int64(0); i < n; i++ {
		out = append(out, x.sliceElem(st, s, IntC(i)))
	}
	return out
}

func litOf(t Value) string {
	w, ok := t.(*Term)
	if !ok || w.op != "blit" {
		unsupported("format string that is not constant")
	}
	return w.name
}

type fmtPiece struct {
	lit  string
	verb byte
	flag string
}

func parseFmt(f string) []fmtPiece {
	var out []fmtPiece
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = append(out, fmtPiece{lit: f[i:j]})
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			unsupported("format %q", f)
		}
		if f[j] == '%' {
			out = append(out, fmtPiece{lit: "%"})
		} else {
			out = append(out, fmtPiece{verb: f[j], flag: f[i+1 : j]})
		}
		i = j
	}
	return out
}

func ctor1(name string, class string, facts func(t *Term, a []*Term)) func(a ...*Term) *Term {
	f := func(a []*Term) *Term {
		t := App(name, SB, a...)
		if t.bound || t.fdone {
			return t
		}
		t.fdone = true
		facts(t, a)
		return t
	}
	appCtor[name] = f
	injective[name] = true
	return func(a ...*Term) *Term { return f(a) }
}

func rawEq(a, b *Term) *Term { return mk("=", "", nil, SBool, a, b) }

var hexStr = ctor1("hexstr", "hex", func(t *Term, a []*Term) {
	t.AddFact(rawEq(App("hexinv", SB, t), a[0]))
	t.AddFact(rawEq(BLen(t), Mul(IntC(2), BLen(a[0]))))
})
var hexStrU = ctor1("hexstrU", "hex", func(t *Term, a []*Term) {
	t.AddFact(rawEq(App("hexinvU", SB, t), a[0]))
	t.AddFact(rawEq(BLen(t), Mul(IntC(2), BLen(a[0]))))
})
var uuidStr = ctor1("uuidstr", "uuid", func(t *Term, a []*Term) {
	t.AddFact(rawEq(App("uuidinv", SB, t), a[0]))
	t.AddFact(App("uuidok", SBool, t))
	t.AddFact(rawEq(BLen(t), IntC(36)))
})

func decStr(v *Term) *Term {
	n := "decstr." + strings.Map(func(r rune) rune {
		if r == ' ' || r == '(' || r == ')' {
			return -1
		}
		return r
	}, v.sort.Name)
	f := ctor1(n, "dec", func(t *Term, a []*Term) {
		t.AddFact(rawEq(App(n+".inv", a[0].sort, t), a[0]))
		t.AddFact(Le(IntC(1), BLen(t)))
		t.AddFact(Le(BLen(t), IntC(20)))
	})
	return f(v)
}

func classOf(t *Term) string {
	if t.op == "app" {
		switch {
		case t.name == "hexstr":
			return "0123456789abcdef"
		case t.name == "hexstrU":
			return "0123456789ABCDEF"
		case strings.HasPrefix(t.name, "decstr."):
			return "-0123456789"
		case t.name == "uuidstr":
			return "-0123456789abcdef"
		}
	}
	return ""
}

// withCuts adds to a concatenation the facts that its first (last) part ends (starts) at a delimiter
// that the part cannot contain.
func withCuts(ps []*Term) *Term {
	t := Cat(ps...)
	if t.bound || len(ps) < 2 {
		return t
	}
	ps = bparts(t)
	for i := 0; i+1 < len(ps) && i < 1; i++ {
		if cl := classOf(ps[i]); cl != "" && ps[i+1].op == "blit" && len(ps[i+1].name) > 0 {
			d := ps[i+1].name[:1]
			if !strings.Contains(cl, d) {
				t.AddFact(rawEq(App("cutbefore."+hexName(d), SB, t), ps[i]))
				t.AddFact(rawEq(App("cutafter."+hexName(d), SB, t), Cat(ps[i+1:]...)))
			}
		}
	}
	n := len(ps)
	if cl := classOf(ps[n-1]); cl != "" && ps[n-2].op == "blit" && len(ps[n-2].name) > 0 {
		l := ps[n-2].name
		d := l[len(l)-1:]
		if !strings.Contains(cl, d) {
			t.AddFact(rawEq(App("rcutafter."+hexName(d), SB, t), ps[n-1]))
			t.AddFact(rawEq(App("rcutbefore."+hexName(d), SB, t), Cat(ps[:n-1]...)))
		}
	}
	return t
}
func hexName(s string) string { return fmt.Sprintf("%x", s) }

func (x *Exec) formatArg(st *State, p fmtPiece, a Value, c *ssa.CallCommon) *Term {
	iv, ok := a.(IfaceV)
	if !ok {
		if t, isT := a.(*Term); isT {
			if b, isB := boxed[t]; isB {
				iv, ok = b, true
			}
		}
	}
	if !ok {
		return x.fresh("fmt", SB)
	}
	if p.verb == 's' || p.verb == 'v' || p.verb == 'q' {
		for _, mn := range []string{"Error", "String"} {
			sel := x.prog.prog.MethodSets.MethodSet(iv.Dyn).Lookup(nil, mn)
			if sel == nil {
				continue
			}
			if m := x.prog.prog.MethodValue(sel); m != nil && m.Signature.Params().Len() == 0 {
				rs := x.callStatic(st, m, []Value{iv.Val}, nil, c, 20)
				if len(rs) != 1 || rs[0].st != st {
					unsupported("formatting with a method of several outcomes")
				}
				if p.verb != 'q' {
					return rs[0].ret.(*Term)
				}
			}
		}
	}
	t := iv.Dyn
	switch {
	case (isString(t) || isBytes(t)) && (p.verb == 's' || p.verb == 'v' && isString(t)) && p.flag == "":
		if isString(t) {
			return iv.Val.(*Term)
		}
		return x.content(st, iv.Val.(SliceV))
	case (isString(t) || isBytes(t)) && (p.verb == 'x' || p.verb == 'X') && p.flag == "":
		var b *Term
		if isString(t) {
			b = iv.Val.(*Term)
		} else {
			b = x.content(st, iv.Val.(SliceV))
		}
		if p.verb == 'x' {
			return hexStr(b)
		}
		return hexStrU(b)
	case p.verb == 'x' && p.flag == "":
		if _, isA := isByteArray(t); isA {
			return hexStr(iv.Val.(*Term))
		}
	}
	if v, isT := iv.Val.(*Term); isT && (p.verb == 'd' || p.verb == 'v') && p.flag == "" && (v.sort == SInt || v.sort.Kind == "bv") && !isTime(t) {
		return decStr(v)
	}
	if v, isT := iv.Val.(*Term); isT { // some injective-or-not rendering
		return App("fmt."+p.flag+string(p.verb)+"."+v.sort.Name, SB, v)
	}
	return x.fresh("fmt", SB)
}

func (x *Exec) sprintf(st *State, args []Value, c *ssa.CallCommon) *Term {
	ps := parseFmt(litOf(args[0]))
	va := x.variadic(st, args[1])
	var parts []*Term
	k := 0
	for _, p := range ps {
		if p.verb == 0 {
			parts = append(parts, BLit(p.lit))
			continue
		}
		if k >= len(va) {
			unsupported("format with missing arguments")
		}
		parts = append(parts, x.formatArg(st, p, va[k], c))
		k++
	}
	return withCuts(parts)
}

func init() {
	models["errors.New"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		n := "error"
		if t, ok := args[0].(*Term); ok && t.op == "blit" {
			n = t.name
		}
		s := newSent(n)
		if st == x.prog.base {
			x.prog.baseSents = append(x.prog.baseSents, s)
		}
		return ret1(st, s)
	}
	models["fmt.Errorf"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		f := litOf(args[0])
		s := newSent(f)
		if st == x.prog.base {
			x.prog.baseSents = append(x.prog.baseSents, s)
		}
		va := x.variadic(st, args[1])
		k := 0
		for _, p := range parseFmt(f) {
			if p.verb == 0 {
				continue
			}
			if p.verb == 'w' && k < len(va) {
				wraps[s] = append(wraps[s], x.scalar(st, va[k], nil))
			}
			k++
		}
		return ret1(st, s)
	}
	models["errors.Join"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		var cs []*Term
		s := newSent("join")
		for _, v := range x.variadic(st, args[0]) {
			t := x.scalar(st, v, nil)
			wraps[s] = append(wraps[s], t)
			cs = append(cs, Eq(t, INil))
		}
		return ret1(st, Ite(And(cs...), INil, s))
	}
	models["errors.Is"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, errIs(x.scalar(st, args[0], nil), x.scalar(st, args[1], nil)))
	}
	models["fmt.Sprintf"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, x.sprintf(st, args, c))
	}
	models["fmt.Sprint"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		va := x.variadic(st, args[0])
		if len(va) != 1 {
			unsupported("fmt.Sprint of %d values", len(va))
		}
		return ret1(st, x.formatArg(st, fmtPiece{verb: 'v'}, va[0], c))
	}
	models["strconv.Itoa"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		t := args[0].(*Term)
		if t.op == "bv2nat" {
			t = t.args[0]
		}
		return ret1(st, decStr(t))
	}
	models["strconv.FormatUint"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		if b, ok := args[1].(*Term).i64(); !ok || b != 10 {
			unsupported("strconv.FormatUint base")
		}
		t := args[0].(*Term)
		if z, w := zextOf(t); z != nil {
			_ = w
			t = z
		}
		return ret1(st, decStr(t))
	}
	models["strconv.FormatInt"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		if b, ok := args[1].(*Term).i64(); !ok || b != 10 {
			unsupported("strconv.FormatInt base")
		}
		t := args[0].(*Term)
		if t.op == "bv2nat" {
			t = t.args[0]
		}
		return ret1(st, decStr(t))
	}
	models["encoding/hex.EncodeToString"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, hexStr(x.content(st, args[0].(SliceV))))
	}
	bytesEq := func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, Eq(x.content(st, args[0].(SliceV)), x.content(st, args[1].(SliceV))))
	}
	models["bytes.Equal"] = bytesEq
	models["bytes.Clone"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		s := args[0].(SliceV)
		n := x.newBytes(st, "clone", x.content(st, s))
		n.Nil = s.Nil
		return ret1(st, n)
	}
	models["strings.Clone"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet { return ret1(st, args[0]) }
	models["strings.EqualFold"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		a, b := args[0].(*Term), args[1].(*Term)
		t := App("eqfold", SBool, a, b)
		t.AddFact(Imp(Eq(a, b), t))
		return ret1(st, t)
	}
	for _, n := range []string{"ToLower", "ToUpper", "TrimSpace", "Title"} {
		n := n
		models["strings."+n] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
			return ret1(st, App("strings."+n, SB, args[0].(*Term)))
		}
	}
	for _, n := range []string{"HasPrefix", "HasSuffix"} {
		n := n
		models["strings."+n] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
			a, b := args[0].(*Term), args[1].(*Term)
			la, lb := BLen(a), BLen(b)
			fit, no := x.fork(st, Le(lb, la))
			var out []stRet
			if fit != nil {
				x.setDecide(fit)
				s := BSub(a, IntC(0), lb)
				if n == "HasSuffix" {
					s = BSub(a, Sub(la, lb), la)
				}
				out = append(out, stRet{fit, Eq(s, b)})
			}
			if no != nil {
				out = append(out, stRet{no, False})
			}
			return out
		}
	}
	models["strings.Index"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, strIndex(x, st, "first", args[0].(*Term), args[1].(*Term)))
	}
	models["strings.LastIndex"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, strIndex(x, st, "last", args[0].(*Term), args[1].(*Term)))
	}
	models["strings.Contains"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, Le(IntC(0), strIndex(x, st, "first", args[0].(*Term), args[1].(*Term))))
	}
	models["crypto/subtle.ConstantTimeCompare"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, Ite(Eq(x.content(st, args[0].(SliceV)), x.content(st, args[1].(SliceV))), IntC(1), IntC(0)))
	}
	initLocks()
	models["runtime.KeepAlive"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet { return ret1(st) }
	models["context.Background"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, Sent("ctx.background"))
	}
	models["context.TODO"] = models["context.Background"]
	models["context.WithValue"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, args[0])
	}
	ifaceModels["context.Context.Err"] = func(x *Exec, st *State, self *Term, args []Value, c *ssa.CallCommon) []stRet {
		a := st.clone()
		return []stRet{{st, INil}, {a, x.privErr(a, "ctx")}}
	}
	ifaceModels["error.Error"] = func(x *Exec, st *State, self *Term, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, App("errtext", SB, self))
	}
	initUUID()
	initTime()
	initBinary()
	initJSON()
	initCrypto()
	initSyncMap()
	initBolt()
	initProviders()
}

func strIndex(x *Exec, st *State, which string, a, b *Term) *Term {
	t := App("strindex."+which, SInt, a, b)
	if !t.fdone && !t.bound {
		t.fdone = true
		t.AddFact(Le(IntC(-1), t))
		t.AddFact(Imp(Le(IntC(0), t), Le(Add(t, BLen(b)), BLen(a))))
		nonnegVar[Add(t, IntC(1))] = true
	}
	return t
}

// zextOf: the narrow term under a zero extension.
func zextOf(t *Term) (*Term, int) {
	if t.op == "zext" || strings.Contains(t.op, "zero_extend") {
		return t.args[0], t.sort.W
	}
	if t.op == "concat" && len(t.args) == 2 && t.args[0].op == "bv" && t.args[0].num.Sign() == 0 {
		return t.args[1], t.sort.W
	}
	return nil, 0
}

// ---------- uuid, time, binary, base64

const uuidPkg = "github.com/gofrs/uuid."

func initUUID() {
	models[uuidPkg+"NewV4"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		f := st.clone()
		id := SetLen(x.fresh("uuid", SB), IntC(16))
		st.events = append(st.events, Event{Kind: "UUID", Args: map[string]Value{"id": id}})
		g := f.ghost["rndfail"]
		if g == nil {
			g = False
		}
		f.ghost["rndfail"] = True
		e := x.privErr(f, "uuid")
		return []stRet{{st, TupleV{[]Value{id, INil}}}, {f, TupleV{[]Value{Zeros(IntC(16)), e}}}}
	}
	models[uuidPkg+"(UUID).Bytes"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, x.newBytes(st, "uuid.bytes", args[0].(*Term)))
	}
	models[uuidPkg+"(UUID).String"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, uuidStr(args[0].(*Term)))
	}
	models[uuidPkg+"(UUID).IsNil"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, Eq(args[0].(*Term), Zeros(IntC(16))))
	}
	fromBytes := func(x *Exec, st *State, b *Term) []stRet {
		a, f := x.fork(st, Eq(BLen(b), IntC(16)))
		var out []stRet
		if a != nil {
			out = append(out, stRet{a, TupleV{[]Value{b, INil}}})
		}
		if f != nil {
			out = append(out, stRet{f, TupleV{[]Value{Zeros(IntC(16)), x.privErr(f, "uuid")}}})
		}
		return out
	}
	models[uuidPkg+"FromBytes"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return fromBytes(x, st, x.content(st, args[0].(SliceV)))
	}
	models[uuidPkg+"FromString"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		s := args[0].(*Term)
		a, f := x.fork(st, App("uuidok", SBool, s))
		var out []stRet
		if a != nil {
			v := App("uuidinv", SB, s)
			x.arrLen(a, v, 16)
			out = append(out, stRet{a, TupleV{[]Value{v, INil}}})
		}
		if f != nil {
			out = append(out, stRet{f, TupleV{[]Value{Zeros(IntC(16)), x.privErr(f, "uuid")}}})
		}
		return out
	}
	models[uuidPkg+"Must"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		x.mustHold(st, "panic", "uuid.Must of an error", posOf(c), Eq(x.scalar(st, args[1], nil), INil))
		return ret1(st, args[0])
	}
}

func initTime() {
	models["time.Now"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		t := x.fresh("now", SInt)
		st.events = append(st.events, Event{Kind: "Now", Args: map[string]Value{"t": t}})
		return ret1(st, t)
	}
	bin := func(n string, f func(a, b *Term) Value) {
		models["time.(Time)."+n] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
			return ret1(st, f(args[0].(*Term), args[1].(*Term)))
		}
	}
	bin("Add", func(a, b *Term) Value { return Add(a, b) })
	bin("Before", func(a, b *Term) Value { return Lt(a, b) })
	bin("After", func(a, b *Term) Value { return Lt(b, a) })
	bin("Equal", func(a, b *Term) Value { return Eq(a, b) })
	bin("Compare", func(a, b *Term) Value { return Ite(Lt(a, b), IntC(-1), Ite(Eq(a, b), IntC(0), IntC(1))) })
	bin("Sub", func(a, b *Term) Value { return App("timesub", SInt, a, b) })
	models["time.(Time).Sub"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		// saturates at the bounds of Duration
		d := Sub(args[0].(*Term), args[1].(*Term))
		lo, hi := intBounds(64)
		return ret1(st, Ite(Lt(d, lo), lo, Ite(Lt(hi, d), hi, d)))
	}
	models["time.Until"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		rs := models["time.Now"](x, st, nil, c)
		return models["time.(Time).Sub"](x, st, []Value{args[0], rs[0].ret}, c)
	}
	models["time.Since"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		rs := models["time.Now"](x, st, nil, c)
		return models["time.(Time).Sub"](x, st, []Value{rs[0].ret, args[0]}, c)
	}
	id := func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet { return ret1(st, args[0]) }
	models["time.(Time).UTC"] = id
	models["time.(Time).Local"] = id
	models["time.(Time).In"] = id
	models["time.(Time).IsZero"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, Eq(args[0].(*Term), zeroTime))
	}
	un := func(n string, f func(a *Term) Value) {
		models["time.(Time)."+n] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
			return ret1(st, f(args[0].(*Term)))
		}
	}
	un("Unix", func(a *Term) Value { return mkDivFloor(Sub(a, IntC(0)), IntC(1000000000)) })
	un("UnixNano", func(a *Term) Value { return a })
	models["time.(Time).Truncate"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		d, ok := args[1].(*Term).i64()
		if ok && d <= 0 {
			return ret1(st, args[0])
		}
		return ret1(st, App("timetrunc", SInt, args[0].(*Term), args[1].(*Term)))
	}
	models["time.(Time).Round"] = models["time.(Time).Truncate"]
	models["time.(Duration).Seconds"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, OpaqueV{types.Typ[types.Float64]})
	}
}

func initBinary() {
	for _, en := range []string{"big", "little"} {
		be := en == "big"
		T := "encoding/binary.(" + en + "Endian)."
		for _, w := range []int{16, 32, 64} {
			w := w
			n := IntC(int64(w / 8))
			models[fmt.Sprintf("%sPutUint%d", T, w)] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
				s := args[1].(SliceV)
				x.mustHold(st, "panic", "index out of range", posOf(c), Le(n, s.Len))
				old := x.load(st, s.Base).(*Term)
				x.storeAt(st, s.Base, BSplice(old, s.Off, BVToBytes(args[2].(*Term), be)))
				return ret1(st)
			}
			models[fmt.Sprintf("%sUint%d", T, w)] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
				s := args[1].(SliceV)
				x.mustHold(st, "panic", "index out of range", posOf(c), Le(n, s.Len))
				if st.infeasible() {
					return nil
				}
				return ret1(st, BytesToBV(BSub(x.content(st, s), IntC(0), n), w/8, be))
			}
			models[fmt.Sprintf("%sAppendUint%d", T, w)] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
				return x.appendBytes(st, args[1].(SliceV), BVToBytes(args[2].(*Term), be))
			}
		}
	}
	uv := ctor1("uvarint", "", func(t *Term, a []*Term) {
		t.AddFact(rawEq(App("uvarint.inv", BV(64), t), a[0]))
		t.AddFact(Le(IntC(1), BLen(t)))
		t.AddFact(Le(BLen(t), IntC(10)))
	})
	models["encoding/binary.PutUvarint"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		s := args[0].(SliceV)
		e := uv(args[1].(*Term))
		x.mustHold(st, "panic", "index out of range", posOf(c), Le(BLen(e), s.Len))
		old := x.load(st, s.Base).(*Term)
		x.storeAt(st, s.Base, BSplice(old, s.Off, e))
		return ret1(st, BLen(e))
	}
	models["encoding/binary.AppendUvarint"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return x.appendBytes(st, args[0].(SliceV), uv(args[1].(*Term)))
	}
	// base64
	encName := func(v Value) string {
		if p, ok := v.(PtrV); ok && p.Obj >= 0 && objMeta[p.Obj].global == nil && strings.HasPrefix(objMeta[p.Obj].name, "encoding/base64.") {
			return strings.TrimPrefix(objMeta[p.Obj].name, "encoding/base64.")
		}
		unsupported("base64 encoding that is not a package variable")
		return ""
	}
	b64 := b64enc
	K := "encoding/base64.(*Encoding)."
	models[K+"EncodeToString"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, b64(encName(args[0]), x.content(st, args[1].(SliceV))))
	}
	models[K+"DecodeString"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		n := encName(args[0])
		s := args[1].(*Term)
		okT, v := App("b64ok."+n, SBool, s), App("b64dec."+n, SB, s)
		if s.op == "app" && s.name == "b64enc."+n {
			okT, v = True, s.args[0]
		}
		a, f := x.fork(st, okT)
		var out []stRet
		if a != nil {
			out = append(out, stRet{a, TupleV{[]Value{x.newBytes(a, "decoded", v), INil}}})
		}
		if f != nil {
			part := x.newBytes(f, "decoded", x.fresh("partial", SB))
			out = append(out, stRet{f, TupleV{[]Value{part, x.privErr(f, "base64")}}})
		}
		return out
	}
}

// ---------- JSON

type jleaf struct {
	sort *Sort
	kind string
	n    int64
}

// customJSON tells whether a type of the library encodes or decodes itself (outside the model of JSON).
func customJSON(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	ms := types.NewMethodSet(types.NewPointer(n))
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		if ms.Lookup(n.Obj().Pkg(), m) != nil {
			return true
		}
	}
	return false
}

// jtag reads the JSON tag of field i: its name, or skip.
func jtag(u *types.Struct, i int) (name string, skip bool) {
	f := u.Field(i)
	tag := reflect.StructTag(u.Tag(i)).Get("json")
	if f.Anonymous() {
		unsupported("JSON of an embedded field %s", f.Name())
	}
	if !f.Exported() || tag == "-" {
		return "", true
	}
	name, opts, _ := strings.Cut(tag, ",")
	if name == "" {
		name = f.Name()
	}
	if opts != "" {
		b, ok := f.Type().Underlying().(*types.Basic)
		if opts != "omitempty" || !ok || b.Kind() == types.Uintptr {
			unsupported("JSON option %s of field %s", opts, f.Name())
		}
	}
	return name, false
}

func jschema(t types.Type) (string, []jleaf) {
	if customJSON(t) {
		unsupported("JSON of %s, which encodes itself", t)
	}
	if isTime(t) {
		return "t", []jleaf{{SInt, "time", 0}}
	}
	if n, ok := isByteArray(t); ok {
		return fmt.Sprintf("a%d.%s", n, clean(typeName(t))), []jleaf{{SB, "arr", n}}
	}
	if s := scalarSort(t); s != nil && s != SI {
		k := s.Kind
		if s == SB {
			return "s", []jleaf{{s, "str", 0}}
		}
		return k + fmt.Sprint(s.W), []jleaf{{s, k, 0}}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isByte(u.Elem()) {
			return "b", []jleaf{{SBool, "bytesnil", 0}, {SB, "bytes", 0}}
		}
		sc, ls := jschema(u.Elem())
		out := []jleaf{{SBool, "slicenil", 0}, {SInt, "slicelen", 0}}
		for _, l := range ls {
			out = append(out, jleaf{Arr(SInt, l.sort), "slicearr", 0})
		}
		return "L(" + sc + ")", out
	case *types.Map:
		ks := keySort(u.Key())
		sc, ls := jschema(u.Elem())
		kc, _ := jschema(u.Key())
		out := []jleaf{{SBool, "mapnil", 0}, {Arr(ks, SBool), "mapdom", 0}}
		for _, l := range ls {
			out = append(out, jleaf{Arr(ks, l.sort), "mapval", 0})
		}
		return "M(" + kc + "," + sc + ")", out
	case *types.Pointer:
		unsupported("JSON of pointer field %s", t)
	case *types.Struct:
		if abstractType(t) != nil {
			unsupported("JSON of abstract type %s", t)
		}
		var sb strings.Builder
		var out []jleaf
		sb.WriteString("{")
		names := map[string]bool{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			n, skip := jtag(u, i)
			if skip {
				continue
			}
			if l := strings.ToLower(n); names[l] {
				unsupported("JSON of two fields named %s", n)
			} else {
				names[l] = true
			}
			sc, ls := jschema(f.Type())
			sb.WriteString(clean(n) + "_" + sc + ".")
			out = append(out, ls...)
		}
		sb.WriteString("}")
		return sb.String(), out
	}
	unsupported("JSON of %s", t)
	return "", nil
}

func (x *Exec) jleaves(st *State, v Value, t types.Type) []*Term {
	if isTime(t) || scalarSort(t) != nil && scalarSort(t) != SI {
		return []*Term{v.(*Term)}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(SliceV)
		if isByte(u.Elem()) {
			return []*Term{s.Nil, x.content(st, s)}
		}
		if s.Base.Obj < 0 {
			out := []*Term{s.Nil, IntC(0)}
			for _, l := range leavesOf(u.Elem()) {
				out = append(out, x.defArr(SInt, l.sort))
			}
			return out
		}
		if s.Off != IntC(0) {
			unsupported("JSON of a slice at an offset")
		}
		sa := x.asSymArr(st, s, u.Elem())
		return append([]*Term{s.Nil, s.Len}, sa.Leaves...)
	case *types.Map:
		m := v.(MapV)
		if m.Obj < 0 {
			c := x.emptyMap(u)
			return append([]*Term{True, c.Dom}, c.Leaves...)
		}
		c := x.mapC(st, m)
		return append([]*Term{m.Nil, c.Dom}, c.Leaves...)
	case *types.Struct:
		sv, ok := v.(StructV)
		if !ok {
			unsupported("JSON of %T", v)
		}
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if _, skip := jtag(u, i); skip {
				continue
			}
			out = append(out, x.jleaves(st, sv.F[i], f.Type())...)
		}
		return out
	}
	unsupported("JSON of %s", t)
	return nil
}

func jencTerm(schema string, ls []jleaf, leaves []*Term) *Term {
	n := "jenc." + schema
	if _, ok := appCtor[n]; !ok {
		injective[n] = true
		appCtor[n] = func(a []*Term) *Term {
			t := App(n, SB, a...)
			if t.bound || t.fdone {
				return t
			}
			t.fdone = true
			t.AddFact(App("jok."+schema, SBool, t))
			for i := range a {
				t.AddFact(rawEq(App(fmt.Sprintf("jdec.%s.%d", schema, i), a[i].sort, t), a[i]))
			}
			t.AddFact(Le(IntC(1), BLen(t)))
			return t
		}
	}
	return appCtor[n](leaves)
}

// jencode gives the encoding of a value and whether it can be encoded.
func (x *Exec) jencode(st *State, v Value, t types.Type) (*Term, *Term) {
	switch w := v.(type) {
	case IfaceV:
		return x.jencode(st, w.Val, w.Dyn)
	case PtrV:
		if w.Obj < 0 {
			unsupported("JSON of nil pointer")
		}
		return x.jencode(st, x.load(st, w), t.Underlying().(*types.Pointer).Elem())
	case *Term:
		if w.sort == SI {
			if b, ok := boxed[w]; ok {
				return x.jencode(st, b.Val, b.Dyn)
			}
			return App("jenc.any", SB, w), App("jencok.any", SBool, w)
		}
	}
	sc, ls := jschema(t)
	leaves := x.jleaves(st, v, t)
	ok := True
	for i, l := range ls {
		if l.kind == "time" {
			ok = And(ok, App("jencok.time", SBool, leaves[i]))
		}
	}
	return jencTerm(sc, ls, leaves), ok
}

func jok(t types.Type, b *Term) *Term {
	sc, _ := jschema(t)
	if b.op == "app" && b.name == "jenc."+sc {
		return True
	}
	return App("jok."+sc, SBool, b)
}

func isZeroLeaf(t *Term, k string) bool {
	switch k {
	case "time":
		return t == zeroTime
	case "bytesnil", "mapnil", "slicenil":
		return t == True
	}
	switch t.sort.Kind {
	case "bool":
		return t == False
	case "int", "bv":
		return t.isC() && t.num.Sign() == 0
	case "arr":
		return true
	}
	return t == BLit("") || t.op == "app" && t.name == "zeros" || BLen(t) == IntC(0) || isZerosTerm(t)
}
func isZerosTerm(t *Term) bool {
	if n, ok := BLen(t).i64(); ok {
		return t == Zeros(IntC(n))
	}
	return false
}

// zeroGroup tells whether the value that leaf i is a part of was zero before decoding.
func zeroGroup(ls []jleaf, old []*Term, i int) bool {
	switch ls[i].kind {
	case "mapdom", "mapval":
		return true // no entries before: those decoded are the only ones
	case "bytes":
		if old[i] == BLit("") {
			return true
		}
		i--
	case "slicelen", "slicearr":
		for !strings.HasSuffix(ls[i].kind, "nil") {
			i--
		}
	}
	return isZeroLeaf(old[i], ls[i].kind)
}

func jdecLeaves(schema string, ls []jleaf, b *Term, old []*Term) []*Term {
	var out []*Term
	merge := false
	if old != nil && schema != "b" { // a byte string is replaced as a whole
		for i, l := range ls {
			if l.kind == "mapdom" && old[i].op != "constarr" {
				unsupported("JSON decoding into a map that may hold entries")
			}
			if !isZeroLeaf(old[i], l.kind) {
				merge = true
			}
		}
	}
	if b.op == "app" && b.name == "jenc."+schema {
		return append([]*Term{}, b.args...)
	}
	for i, l := range ls {
		t := App(fmt.Sprintf("jdec.%s.%d", schema, i), l.sort, b)
		// a value that the encoding does not mention stays as it was
		if merge && !zeroGroup(ls, old, i) {
			d := t
			t = App(fmt.Sprintf("jmerge.%s.%d", schema, i), l.sort, append([]*Term{b}, old...)...)
			t.AddFact(Imp(App("jfull."+schema, SBool, b), rawEq(t, d)))
			if strings.HasSuffix(l.kind, "nil") {
				t.AddFact(Imp(t, d)) // null, or not mentioned and nil before
			}
		}
		switch l.kind {
		case "arr":
			SetLen(t, IntC(l.n))
		case "bytes":
			t.AddFact(Imp(out[i-1], rawEq(BLen(t), IntC(0))))
		case "mapdom":
			k := BVar("k", t.sort.Key)
			t.AddFact(Imp(out[i-1], Forall([]*Term{k}, Not(Select(t, k)))))
		case "slicelen":
			t.AddFact(Le(IntC(0), t))
			t.AddFact(Le(t, IntBig(maxLen)))
			nonnegVar[t] = true
			t.AddFact(Imp(out[i-1], rawEq(t, IntC(0))))
		case "int":
			lo, hi := intBounds(64)
			t.AddFact(mk("<=", "", nil, SBool, lo, t))
			t.AddFact(mk("<=", "", nil, SBool, t, hi))
		}
		out = append(out, t)
	}
	return out
}

func (x *Exec) jbuild(st *State, t types.Type, ls []*Term, old Value) (Value, []*Term) {
	if isTime(t) || scalarSort(t) != nil && scalarSort(t) != SI {
		return ls[0], ls[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isByte(u.Elem()) {
			s := x.newBytes(st, "decoded", ls[1])
			s.Nil = ls[0]
			return s, ls[2:]
		}
		n := 2 + len(leavesOf(u.Elem()))
		o := x.newObj(st, "decoded", t, SymArr{Elem: u.Elem(), Leaves: ls[2:n]})
		return SliceV{Nil: ls[0], Base: notNil(o), Off: IntC(0), Len: ls[1], Cap: ls[1]}, ls[n:]
	case *types.Map:
		n := 2
		if !isEmptyStruct(u.Elem()) {
			n += len(leavesOf(u.Elem()))
		}
		o := x.newObj(st, "decoded", t, MapC{Dom: ls[1], Leaves: ls[2:n], K: u.Key(), E: u.Elem()})
		return MapV{Nil: ls[0], Obj: o}, ls[n:]
	case *types.Struct:
		sv := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			var fo Value
			if o, ok := old.(StructV); ok {
				fo = o.F[i]
			}
			if _, skip := jtag(u, i); skip {
				if fo == nil {
					fo = x.zero(st, f.Type())
				}
				sv.F = append(sv.F, fo)
				continue
			}
			var v Value
			v, ls = x.jbuild(st, f.Type(), ls, fo)
			sv.F = append(sv.F, v)
		}
		return sv, ls
	}
	unsupported("JSON decoding into %s", t)
	return nil, nil
}
func isEmptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

// jdecValue is the value decoded from b into a zero T.
func (x *Exec) jdecValue(st *State, t types.Type, b *Term) Value {
	sc, ls := jschema(t)
	v, _ := x.jbuild(st, t, jdecLeaves(sc, ls, b, nil), nil)
	return v
}

func (x *Exec) decodeInto(st *State, target EV, b *Term) {
	switch w := target.v.(type) {
	case IfaceV:
		x.decodeInto(st, EV{v: w.Val, t: w.Dyn}, b)
	case PtrV:
		t := target.t.Underlying().(*types.Pointer).Elem()
		old := x.load(st, w)
		sc, ls := jschema(t)
		v, _ := x.jbuild(st, t, jdecLeaves(sc, ls, b, x.jleaves(st, old, t)), old)
		x.storeAt(st, w, v)
		st.events = append(st.events, Event{Kind: "Unmarshal", Args: map[string]Value{"target": x.boxIface(st, IfaceV{target.t, w}), "data": b}})
	case *Term:
		if bx, ok := boxed[w]; ok {
			x.decodeInto(st, EV{v: bx.Val, t: bx.Dyn}, b)
			return
		}
		st.events = append(st.events, Event{Kind: "Unmarshal", Args: map[string]Value{"target": w, "data": b}})
	default:
		unsupported("decode into %T", target.v)
	}
}

func (x *Exec) clobberTarget(st *State, target EV) {
	switch w := target.v.(type) {
	case IfaceV:
		x.clobberTarget(st, EV{v: w.Val, t: w.Dyn})
	case PtrV:
		if w.Obj >= 0 {
			x.storeAt(st, w, x.symValue(st, target.t.Underlying().(*types.Pointer).Elem(), "partial", false))
		}
	}
}

func initJSON() {
	marshal := func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		var enc, ok *Term
		switch w := args[0].(type) {
		case IfaceV:
			enc, ok = x.jencode(st, w.Val, w.Dyn)
		default:
			enc, ok = x.jencode(st, w, nil)
		}
		a, f := x.fork(st, ok)
		var out []stRet
		if a != nil {
			out = append(out, stRet{a, TupleV{[]Value{x.newBytes(a, "json", enc), INil}}})
		}
		if f != nil {
			out = append(out, stRet{f, TupleV{[]Value{nilSlice(), x.privErr(f, "marshal")}}})
		}
		return out
	}
	unmarshal := func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		b := x.content(st, args[0].(SliceV))
		v := args[1]
		if t, ok := v.(*Term); ok {
			if bx, ok := boxed[t]; ok {
				v = bx
			}
		}
		var okT *Term
		var ty types.Type
		switch w := v.(type) {
		case IfaceV:
			p, isP := w.Dyn.Underlying().(*types.Pointer)
			if !isP {
				return ret1(st, x.privErr(st, "unmarshal"))
			}
			ty = w.Dyn
			okT = jok(p.Elem(), b)
		case *Term:
			okT = App("jok.any", SBool, w, b)
		default:
			unsupported("Unmarshal into %T", v)
		}
		a, f := x.fork(st, okT)
		var out []stRet
		if a != nil {
			x.setDecide(a)
			x.decodeInto(a, EV{v: v, t: ty}, b)
			out = append(out, stRet{a, INil})
		}
		if f != nil {
			x.setDecide(f)
			x.clobberTarget(f, EV{v: v, t: ty})
			out = append(out, stRet{f, x.privErr(f, "unmarshal")})
		}
		return out
	}
	for _, p := range []string{"github.com/json-iterator/go", "encoding/json"} {
		models[p+".Marshal"] = marshal
		models[p+".Unmarshal"] = unmarshal
	}
}

// ---------- cryptography

type CShakeV struct{ N, S, Abs, Sq *Term }

func (x *Exec) specApp(name string, ts ...*Term) *Term { return x.prog.spec.app(x, name, ts) }

func (x *Exec) drawInto(st *State, s SliceV) {
	t := SetLen(x.fresh("rnd", SB), s.Len)
	if s.Base.Obj >= 0 {
		old := x.load(st, s.Base).(*Term)
		x.storeAt(st, s.Base, BSplice(old, s.Off, t))
	}
	st.draws = append(st.draws, t)
}

func initCrypto() {
	rnd := func(x *Exec, st *State, s SliceV) []stRet {
		f := st.clone()
		f.ghost["rndfail"] = True
		x.drawInto(st, s)
		if s.Base.Obj >= 0 { // contents after a failure are unspecified
			old := x.load(f, s.Base).(*Term)
			x.storeAt(f, s.Base, BSplice(old, s.Off, SetLen(x.fresh("partial", SB), s.Len)))
		}
		return []stRet{{st, TupleV{[]Value{s.Len, INil}}}, {f, TupleV{[]Value{x.freshLen("n"), x.privErr(f, "rand")}}}}
	}
	models["crypto/rand.Read"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return rnd(x, st, args[0].(SliceV))
	}
	isRand := func(v Value) bool {
		t, ok := v.(*Term)
		return ok && t == Sent("global.crypto/rand.Reader")
	}
	models["io.ReadFull"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		if !isRand(args[0]) {
			unsupported("io.ReadFull of another reader")
		}
		return rnd(x, st, args[1].(SliceV))
	}
	ifaceModels["io.Reader.Read"] = func(x *Exec, st *State, self *Term, args []Value, c *ssa.CallCommon) []stRet {
		if !isRand(self) {
			unsupported("Read of an unknown reader")
		}
		return rnd(x, st, args[0].(SliceV))
	}
	ifaceModels["crypto.RandomInterface.GetBytes"] = func(x *Exec, st *State, self *Term, args []Value, c *ssa.CallCommon) []stRet {
		f := st.clone()
		f.ghost["rndfail"] = True
		n := BV2Int(args[0].(*Term))
		x.note("random source returns as many bytes as requested")
		t := SetLen(x.fresh("rnd", SB), n)
		st.draws = append(st.draws, t)
		return []stRet{{st, TupleV{[]Value{x.newBytes(st, "random", t), INil}}}, {f, TupleV{[]Value{nilSlice(), x.privErr(f, "random")}}}}
	}
	models["crypto/aes.NewCipher"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		k := x.content(st, args[0].(SliceV))
		n := BLen(k)
		a, f := x.fork(st, Or(Eq(n, IntC(16)), Eq(n, IntC(24)), Eq(n, IntC(32))))
		var out []stRet
		if a != nil {
			out = append(out, stRet{a, TupleV{[]Value{AbsV{"aes.Block", map[string]Value{"key": k}}, INil}}})
		}
		if f != nil {
			out = append(out, stRet{f, TupleV{[]Value{INil, x.privErr(f, "aes")}}})
		}
		return out
	}
	absModels["aes.Block.BlockSize"] = func(x *Exec, st *State, self AbsV, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, IntC(16))
	}
	for _, m := range []struct{ n, f string }{{"Encrypt", "aesenc"}, {"Decrypt", "aesdec"}} {
		m := m
		absModels["aes.Block."+m.n] = func(x *Exec, st *State, self AbsV, args []Value, c *ssa.CallCommon) []stRet {
			d, s := args[0].(SliceV), args[1].(SliceV)
			x.mustHold(st, "panic", "crypto/aes: input not full block", posOf(c), And(Le(IntC(16), s.Len), Le(IntC(16), d.Len)))
			if d.Base.Obj == s.Base.Obj {
				x.mustHold(st, "panic", "crypto/aes: invalid buffer overlap", posOf(c), Or(Eq(d.Off, s.Off), Le(Add(d.Off, IntC(16)), s.Off), Le(Add(s.Off, IntC(16)), d.Off)))
			}
			if st.infeasible() {
				return nil
			}
			in := BSub(x.content(st, s), IntC(0), IntC(16))
			old := x.load(st, d.Base).(*Term)
			x.storeAt(st, d.Base, BSplice(old, d.Off, x.specApp(m.f, self.Attr["key"].(*Term), in)))
			return ret1(st)
		}
	}
	models["crypto/cipher.NewGCM"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		b, ok := args[0].(AbsV)
		if !ok || b.Typ != "aes.Block" {
			unsupported("GCM over %T", args[0])
		}
		x.note("cipher.NewGCM never fails on an AES block cipher")
		return ret1(st, AbsV{"gcm", b.Attr}, INil)
	}
	absModels["gcm.NonceSize"] = func(x *Exec, st *State, self AbsV, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, IntC(12))
	}
	absModels["gcm.Overhead"] = func(x *Exec, st *State, self AbsV, args []Value, c *ssa.CallCommon) []stRet {
		return ret1(st, IntC(16))
	}
	overlap := func(x *Exec, st *State, dst, in, ad SliceV, outLen *Term, c *ssa.CallCommon) {
		if dst.Base.Obj < 0 {
			return
		}
		inPlace := Le(Add(dst.Len, outLen), dst.Cap)
		lo := Add(dst.Off, dst.Len)
		hi := Add(lo, outLen)
		if in.Base.Obj == dst.Base.Obj {
			x.mustHold(st, "panic", "crypto/cipher: invalid buffer overlap", posOf(c), Or(Not(inPlace), Eq(outLen, IntC(0)), Eq(in.Len, IntC(0)), Eq(lo, in.Off), Le(hi, in.Off), Le(Add(in.Off, in.Len), lo)))
		}
		if ad.Base.Obj == dst.Base.Obj && ad.Base.Obj >= 0 {
			x.mustHold(st, "panic", "crypto/cipher: invalid buffer overlap of output and additional data", posOf(c), Or(Not(inPlace), Eq(outLen, IntC(0)), Eq(ad.Len, IntC(0)), Le(hi, ad.Off), Le(Add(ad.Off, ad.Len), lo)))
		}
	}
	absModels["gcm.Seal"] = func(x *Exec, st *State, self AbsV, args []Value, c *ssa.CallCommon) []stRet {
		dst, nonce, pt, ad := args[0].(SliceV), args[1].(SliceV), args[2].(SliceV), args[3].(SliceV)
		x.mustHold(st, "panic", "crypto/cipher: incorrect nonce length given to GCM", posOf(c), Eq(nonce.Len, IntC(12)))
		overlap(x, st, dst, pt, ad, Add(pt.Len, IntC(16)), c)
		if st.infeasible() {
			return nil
		}
		ct := x.specApp("gcmseal", self.Attr["key"].(*Term), x.content(st, nonce), x.content(st, pt), x.content(st, ad))
		return x.appendBytes(st, dst, ct)
	}
	absModels["gcm.Open"] = func(x *Exec, st *State, self AbsV, args []Value, c *ssa.CallCommon) []stRet {
		dst, nonce, ct, ad := args[0].(SliceV), args[1].(SliceV), args[2].(SliceV), args[3].(SliceV)
		x.mustHold(st, "panic", "crypto/cipher: incorrect nonce length given to GCM", posOf(c), Eq(nonce.Len, IntC(12)))
		k, n, cc, a := self.Attr["key"].(*Term), x.content(st, nonce), x.content(st, ct), x.content(st, ad)
		okT := x.specApp("gcmok", k, n, cc, a)
		y, f := x.fork(st, okT)
		var out []stRet
		if y != nil {
			x.setDecide(y)
			overlap(x, y, dst, ct, ad, Sub(ct.Len, IntC(16)), c)
			pt := x.specApp("gcmopen", k, n, cc, a)
			for _, r := range x.appendBytes(y, dst, pt) {
				out = append(out, stRet{r.st, TupleV{[]Value{r.ret, INil}}})
			}
		}
		if f != nil {
			x.setDecide(f)
			if dst.Base.Obj >= 0 && dst.Cap != dst.Len {
				// on failure the output area is overwritten
				old := x.load(f, dst.Base).(*Term)
				x.storeAt(f, dst.Base, SetLen(x.fresh("clobbered", SB), BLen(old)))
			}
			out = append(out, stRet{f, TupleV{[]Value{nilSlice(), x.privErr(f, "gcm")}}})
		}
		return out
	}
	for _, w := range []string{"128", "256"} {
		w := w
		models["golang.org/x/crypto/sha3.NewCShake"+w] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
			o := x.newObj(st, "cshake"+w, nil, CShakeV{x.content(st, args[0].(SliceV)), x.content(st, args[1].(SliceV)), BLit(""), IntC(0)})
			return ret1(st, AbsV{"cshake", map[string]Value{"obj": notNil(o), "w": BLit(w)}})
		}
	}
	cs := func(st *State, self AbsV) (int, CShakeV) {
		o := self.Attr["obj"].(PtrV).Obj
		return o, st.heap[o].(CShakeV)
	}
	absModels["cshake.Write"] = func(x *Exec, st *State, self AbsV, args []Value, c *ssa.CallCommon) []stRet {
		o, v := cs(st, self)
		x.mustHold(st, "panic", "sha3: Write after Read", posOf(c), Eq(v.Sq, IntC(0)))
		s := args[0].(SliceV)
		v.Abs = Cat(v.Abs, x.content(st, s))
		st.heap[o] = v
		return ret1(st, s.Len, INil)
	}
	absModels["cshake.Read"] = func(x *Exec, st *State, self AbsV, args []Value, c *ssa.CallCommon) []stRet {
		o, v := cs(st, self)
		s := args[0].(SliceV)
		out := x.specApp("cshake"+self.Attr["w"].(*Term).name, v.N, v.S, v.Abs, v.Sq, s.Len)
		if s.Base.Obj >= 0 {
			old := x.load(st, s.Base).(*Term)
			x.storeAt(st, s.Base, BSplice(old, s.Off, out))
		}
		v.Sq = Add(v.Sq, s.Len)
		st.heap[o] = v
		return ret1(st, s.Len, INil)
	}
	absModels["cshake.Clone"] = func(x *Exec, st *State, self AbsV, args []Value, c *ssa.CallCommon) []stRet {
		_, v := cs(st, self)
		o := x.newObj(st, "cshake", nil, v)
		return ret1(st, AbsV{"cshake", map[string]Value{"obj": notNil(o), "w": self.Attr["w"]}})
	}
	absModels["cshake.Reset"] = func(x *Exec, st *State, self AbsV, args []Value, c *ssa.CallCommon) []stRet {
		o, v := cs(st, self)
		v.Abs, v.Sq = BLit(""), IntC(0)
		st.heap[o] = v
		return ret1(st)
	}
	models["golang.org/x/crypto/pbkdf2.Key"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		h, ok := args[4].(FuncV)
		if !ok || h.Fn == nil {
			unsupported("pbkdf2 with unknown hash")
		}
		n := args[3].(*Term)
		x.mustHold(st, "panic", "pbkdf2 key length", posOf(c), Le(IntC(0), n))
		t := x.specApp("pbkdf2", x.content(st, args[0].(SliceV)), x.content(st, args[1].(SliceV)), args[2].(*Term), n, BLit(fnKey(h.Fn)))
		return ret1(st, x.newBytes(st, "pbkdf2", t))
	}
}

// ---------- sync.Map

var syncMapTypes struct {
	done bool
	k, e types.Type
}

func (x *Exec) syncMapKE() (types.Type, types.Type) {
	s := &syncMapTypes
	if !s.done {
		s.done = true
		for _, f := range x.prog.repoFns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					cl, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					fn := cl.Call.StaticCallee()
					if fn == nil || !strings.HasPrefix(fnKey(fn), "sync.(*Map).") {
						continue
					}
					switch fn.Name() {
					case "Store", "LoadOrStore", "Swap":
						k, ok1 := cl.Call.Args[1].(*ssa.MakeInterface)
						e, ok2 := cl.Call.Args[2].(*ssa.MakeInterface)
						if !ok1 || !ok2 {
							s.k = nil
							return nil, nil
						}
						if s.k != nil && (!types.Identical(s.k, k.X.Type()) || !types.Identical(s.e, e.X.Type())) {
							s.k = nil
							return nil, nil
						}
						s.k, s.e = k.X.Type(), e.X.Type()
					}
				}
			}
		}
	}
	return s.k, s.e
}

func (x *Exec) newSyncMap(st *State) Value {
	k, e := x.syncMapKE()
	if k == nil {
		return unsupported("sync.Map with several key or element types")
	}
	return x.emptyMap(types.NewMap(k, e))
}
func (x *Exec) symSyncMap(st *State, name string) Value {
	k, e := x.syncMapKE()
	if k == nil {
		return unsupported("sync.Map with several key or element types")
	}
	return x.symMap(name, types.NewMap(k, e))
}

func (x *Exec) markInternal(v Value) {
	switch w := v.(type) {
	case SliceV:
		if w.Base.Obj >= 0 {
			objMeta[w.Base.Obj].internal = true
		}
	case StructV:
		for _, f := range w.F {
			x.markInternal(f)
		}
	case PtrV:
		if w.Obj >= 0 {
			objMeta[w.Obj].internal = true
		}
	}
}

func initSyncMap() {
	T := "sync.(*Map)."
	get := func(x *Exec, st *State, args []Value) (PtrV, MapC, *Term) {
		p := args[0].(PtrV)
		x.interfere(st, p)
		m := x.load(st, p).(MapC)
		var k *Term
		if len(args) > 1 {
			iv, ok := args[1].(IfaceV)
			if !ok || !types.Identical(iv.Dyn, m.K) {
				unsupported("sync.Map key of another type")
			}
			k = x.scalar(st, iv.Val, m.K)
		}
		return p, m, k
	}
	val := func(x *Exec, st *State, m MapC, v Value, c *ssa.CallCommon) Value {
		iv, ok := v.(IfaceV)
		if !ok || !types.Identical(iv.Dyn, m.E) {
			unsupported("sync.Map value of another type")
		}
		if s, ok := iv.Val.(SliceV); ok && s.Base.Obj >= 0 && objMeta[s.Base.Obj].caller {
			x.mustHoldKeep(st, "alias", "memory of the caller is kept by the store", posOf(c), s.Nil)
		}
		x.markInternal(iv.Val)
		return iv.Val
	}
	models[T+"Load"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		_, m, k := get(x, st, args)
		v, in := x.mapGet(st, m, k)
		x.markInternal(v)
		x.atomic(st, False, in, in, false)
		a, b := x.fork(st, in)
		var out []stRet
		if a != nil {
			out = append(out, stRet{a, TupleV{[]Value{IfaceV{m.E, v}, True}}})
		}
		if b != nil {
			out = append(out, stRet{b, TupleV{[]Value{INil, False}}})
		}
		return out
	}
	models[T+"Store"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		p, m, k := get(x, st, args)
		x.atomic(st, True, Select(m.Dom, k), True, false)
		x.storeAt(st, p, x.mapStore(st, m, k, val(x, st, m, args[2], c)))
		return ret1(st)
	}
	models[T+"LoadOrStore"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		p, m, k := get(x, st, args)
		a, b := x.fork(st, Select(m.Dom, k))
		var out []stRet
		if a != nil {
			v, _ := x.mapGet(a, m, k)
			x.atomic(a, False, True, True, false)
			x.markInternal(v)
			out = append(out, stRet{a, TupleV{[]Value{IfaceV{m.E, v}, True}}})
		}
		if b != nil {
			x.atomic(b, True, False, True, false)
			x.storeAt(b, p, x.mapStore(b, m, k, val(x, b, m, args[2], c)))
			out = append(out, stRet{b, TupleV{[]Value{args[2], False}}})
		}
		return out
	}
	models[T+"Swap"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		p, m, k := get(x, st, args)
		x.atomic(st, True, Select(m.Dom, k), True, false)
		a, b := x.fork(st, Select(m.Dom, k))
		var out []stRet
		if a != nil {
			v, _ := x.mapGet(a, m, k)
			x.storeAt(a, p, x.mapStore(a, m, k, val(x, a, m, args[2], c)))
			out = append(out, stRet{a, TupleV{[]Value{IfaceV{m.E, v}, True}}})
		}
		if b != nil {
			x.storeAt(b, p, x.mapStore(b, m, k, val(x, b, m, args[2], c)))
			out = append(out, stRet{b, TupleV{[]Value{INil, False}}})
		}
		return out
	}
	del := func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		p, m, k := get(x, st, args)
		x.atomic(st, True, Select(m.Dom, k), False, false)
		x.storeAt(st, p, MapC{Dom: Store(m.Dom, k, False), Leaves: m.Leaves, K: m.K, E: m.E})
		return ret1(st)
	}
	models[T+"Delete"] = del
	models[T+"LoadAndDelete"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		p, m, k := get(x, st, args)
		v, in := x.mapGet(st, m, k)
		x.markInternal(v)
		x.atomic(st, True, in, False, false)
		x.storeAt(st, p, MapC{Dom: Store(m.Dom, k, False), Leaves: m.Leaves, K: m.K, E: m.E})
		a, b := x.fork(st, in)
		var out []stRet
		if a != nil {
			out = append(out, stRet{a, TupleV{[]Value{IfaceV{m.E, v}, True}}})
		}
		if b != nil {
			out = append(out, stRet{b, TupleV{[]Value{INil, False}}})
		}
		return out
	}
	models[T+"Clear"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		p, m, _ := get(x, st, args)
		if x.interf() {
			unsupported("clearing a shared map")
		}
		x.storeAt(st, p, MapC{Dom: ConstArr(m.Dom.sort, False), Leaves: m.Leaves, K: m.K, E: m.E})
		return ret1(st)
	}
}

// mustHoldKeep records an obligation without assuming it afterwards.
func (x *Exec) mustHoldKeep(st *State, kind, what string, pos token.Pos, c *Term) {
	if c != True && x.quiet == 0 && x.unit != nil {
		x.unit.obligation(x, st, kind, what, pos, c)
	}
}

// ---------- bbolt

type BoltDB struct {
	Data    MapC
	Buckets *Term
}

func bktKey(n, k *Term) *Term {
	f, ok := appCtor["bkt"]
	if !ok {
		ctor1("bkt", "", func(t *Term, a []*Term) {
			t.AddFact(rawEq(App("bkt.n", SB, t), a[0]))
			t.AddFact(rawEq(App("bkt.k", SB, t), a[1]))
		})
		f = appCtor["bkt"]
	}
	return f([]*Term{n, k})
}

func initBolt() {
	P := "go.etcd.io/bbolt."
	bytesT := types.NewSlice(types.Typ[types.Byte])
	models[P+"Open"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		f := st.clone()
		o := x.newObj(st, "bolt", nil, BoltDB{Data: x.symMap("bolt", types.NewMap(tString, bytesT)), Buckets: x.fresh("bolt.buckets", Arr(SB, SBool))})
		return []stRet{{st, TupleV{[]Value{notNil(o), INil}}}, {f, TupleV{[]Value{PtrV{Nil: True, Obj: -1}, x.privErr(f, "bolt.Open")}}}}
	}
	run := func(x *Exec, st *State, args []Value, c *ssa.CallCommon, w bool) []stRet {
		db := args[0].(PtrV)
		x.mustHold(st, "panic", "nil bolt database", posOf(c), Not(db.Nil))
		fv, ok := args[1].(FuncV)
		if !ok || fv.Fn == nil {
			unsupported("bolt transaction with unknown function")
		}
		before := st.heap[db.Obj]
		tx := AbsV{"bolt.Tx", map[string]Value{"db": db, "w": Bool(w)}}
		var out []stRet
		for _, r := range x.callStatic(st, fv.Fn, []Value{tx}, fv.Bind, c, 20) {
			x.setDecide(r.st)
			e := x.scalar(r.st, r.ret, nil)
			if !w {
				out = append(out, stRet{r.st, e})
				continue
			}
			ok, bad := x.fork(r.st, Eq(e, INil))
			if bad != nil {
				bad.heap[db.Obj] = before
				out = append(out, stRet{bad, e})
			}
			if ok != nil {
				f := ok.clone()
				f.heap[db.Obj] = before
				out = append(out, stRet{ok, INil}, stRet{f, x.privErr(f, "bolt.Commit")})
			}
		}
		return out
	}
	models[P+"(*DB).Update"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return run(x, st, args, c, true)
	}
	models[P+"(*DB).Batch"] = models[P+"(*DB).Update"]
	models[P+"(*DB).View"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return run(x, st, args, c, false)
	}
	models[P+"(*DB).Close"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet { return ret1(st, INil) }
	bucket := func(tx AbsV, n *Term) AbsV {
		return AbsV{"bolt.Bucket", map[string]Value{"db": tx.Attr["db"], "w": tx.Attr["w"], "name": n}}
	}
	models[P+"(*Tx).Bucket"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		tx := args[0].(AbsV)
		n := x.content(st, args[1].(SliceV))
		d := st.heap[tx.Attr["db"].(PtrV).Obj].(BoltDB)
		a, b := x.fork(st, Select(d.Buckets, n))
		var out []stRet
		if a != nil {
			out = append(out, stRet{a, bucket(tx, n)})
		}
		if b != nil {
			out = append(out, stRet{b, PtrV{Nil: True, Obj: -1}})
		}
		return out
	}
	create := func(x *Exec, st *State, args []Value, c *ssa.CallCommon, mustBeNew bool) []stRet {
		tx := args[0].(AbsV)
		n := x.content(st, args[1].(SliceV))
		o := tx.Attr["db"].(PtrV).Obj
		f := st.clone()
		d := st.heap[o].(BoltDB)
		if mustBeNew {
			st.assume(Not(Select(d.Buckets, n)))
		}
		// a bucket that did not exist is empty
		k := BVar("k", SB)
		nd := x.fresh("bolt.dom", d.Data.Dom.sort)
		st.assume(Forall([]*Term{k}, Eq(Select(nd, k), And(Select(d.Data.Dom, k), Or(Select(d.Buckets, n), Not(Eq(App("bkt.n", SB, k), n)))))))
		d.Data.Dom = Ite(Select(d.Buckets, n), d.Data.Dom, nd)
		d.Buckets = Store(d.Buckets, n, True)
		st.heap[o] = d
		out := []stRet{{f, TupleV{[]Value{PtrV{Nil: True, Obj: -1}, x.privErr(f, "bolt.CreateBucket")}}}}
		if x.feasible(st, True) {
			out = append(out, stRet{st, TupleV{[]Value{bucket(tx, n), INil}}})
		}
		return out
	}
	models[P+"(*Tx).CreateBucketIfNotExists"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return create(x, st, args, c, false)
	}
	models[P+"(*Tx).CreateBucket"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		return create(x, st, args, c, true)
	}
	recv := func(x *Exec, st *State, v Value, c *ssa.CallCommon) (AbsV, bool) {
		b, ok := v.(AbsV)
		if !ok {
			x.mustHold(st, "panic", "nil bucket", posOf(c), False)
		}
		return b, ok
	}
	models[P+"(*Bucket).Get"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		b, ok := recv(x, st, args[0], c)
		if !ok {
			return nil
		}
		d := st.heap[b.Attr["db"].(PtrV).Obj].(BoltDB)
		k := bktKey(b.Attr["name"].(*Term), x.content(st, args[1].(SliceV)))
		v, in := x.mapGet(st, d.Data, k)
		x.markInternal(v)
		y, n := x.fork(st, in)
		var out []stRet
		if y != nil {
			s := v.(SliceV)
			s.Nil = False
			out = append(out, stRet{y, s})
		}
		if n != nil {
			out = append(out, stRet{n, nilSlice()})
		}
		return out
	}
	models[P+"(*Bucket).Put"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		b, ok := recv(x, st, args[0], c)
		if !ok {
			return nil
		}
		o := b.Attr["db"].(PtrV).Obj
		d := st.heap[o].(BoltDB)
		kc, v := x.content(st, args[1].(SliceV)), args[2].(SliceV)
		fits := And(b.Attr["w"].(*Term), Lt(IntC(0), BLen(kc)), Le(BLen(kc), IntC(32768)), Le(v.Len, IntC(2147483646)))
		y, n := x.fork(st, fits)
		var out []stRet
		if y != nil {
			x.setDecide(y)
			d.Data = x.mapStore(y, d.Data, bktKey(b.Attr["name"].(*Term), kc), v)
			y.heap[o] = d
			out = append(out, stRet{y, INil})
		}
		if n != nil {
			out = append(out, stRet{n, x.privErr(n, "bolt.Put")})
		}
		return out
	}
	models[P+"(*Bucket).Delete"] = func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
		b, ok := recv(x, st, args[0], c)
		if !ok {
			return nil
		}
		o := b.Attr["db"].(PtrV).Obj
		d := st.heap[o].(BoltDB)
		y, n := x.fork(st, b.Attr["w"].(*Term))
		var out []stRet
		if y != nil {
			k := bktKey(b.Attr["name"].(*Term), x.content(y, args[1].(SliceV)))
			d.Data = MapC{Dom: Store(d.Data.Dom, k, False), Leaves: d.Data.Leaves, K: d.Data.K, E: d.Data.E}
			y.heap[o] = d
			out = append(out, stRet{y, INil})
		}
		if n != nil {
			out = append(out, stRet{n, x.privErr(n, "bolt.Delete")})
		}
		return out
	}
}

// ---------- providers of the repository's interfaces

func skey(id, dt *Term) *Term {
	if f, ok := appCtor["sk"]; ok {
		return f([]*Term{id, dt})
	}
	injective["sk"] = true
	appCtor["sk"] = func(a []*Term) *Term {
		t := App("sk", SK, a...)
		if t.bound || t.fdone {
			return t
		}
		t.fdone = true
		t.AddFact(rawEq(App("sk.id", SB, t), a[0]))
		t.AddFact(rawEq(App("sk.dt", BV(16), t), a[1]))
		return t
	}
	return appCtor["sk"]([]*Term{id, dt})
}

var storeDom0 = Var("store.dom0", Arr(SK, SBool))
var storeVal0 = Var("store.val0", Arr(SK, SB))

func (x *Exec) storeDom(st *State) *Term {
	if t := st.ghost["store.dom"]; t != nil {
		return t
	}
	return storeDom0
}
func (x *Exec) storeVal(st *State) *Term {
	if t := st.ghost["store.val"]; t != nil {
		return t
	}
	return storeVal0
}

func (x *Exec) ioSent(name string) *Term {
	g, ok := x.prog.pkgs["io"].Members[name].(*ssa.Global)
	if !ok {
		unsupported("io.%s not found", name)
	}
	t, ok := x.prog.base.heap[x.prog.globals[g]].(*Term)
	if !ok {
		unsupported("io.%s is not an error value", name)
	}
	return t
}

// storageErr is an error that is the given sentinel according to errors.Is.
func (x *Exec) storageErr(st *State, name string) *Term {
	e := x.fresh("e.storage", SI)
	for _, s := range x.prog.baseSents {
		if s == x.ioSent(name) {
			st.assume(errIs(e, s))
		} else {
			st.assume(Not(errIs(e, s)))
		}
	}
	e.AddFact(mk("not", "", nil, SBool, mk("=", "", nil, SBool, INil, e)))
	return e
}

// otherErr is an error of a provider that does not say what the operation documents: any error of this
// package but the documented one, or any error unknown to the library.
func (x *Exec) otherErr(st *State, name, documented string) *Term {
	e := x.fresh("e."+name, SI)
	for _, s := range x.prog.baseSents {
		if s != x.ioSent("ErrNotFound") && s != x.ioSent("ErrAlreadyExists") || documented != "" && s == x.ioSent(documented) {
			st.assume(Not(errIs(e, s)))
		}
	}
	e.AddFact(mk("not", "", nil, SBool, mk("=", "", nil, SBool, INil, e)))
	return e
}

func initProviders() {
	type outc struct {
		st  *State
		err *Term
		dat *Term
	}
	op := func(kind string, f func(x *Exec, st *State, k *Term, data *Term) []outc) {
		ifaceModels["io.Provider."+kind] = func(x *Exec, st *State, self *Term, args []Value, c *ssa.CallCommon) []stRet {
			id := x.content(st, args[1].(SliceV))
			dt := args[2].(*Term)
			var data *Term
			if len(args) > 3 {
				data = x.content(st, args[3].(SliceV))
			}
			base := st.events
			var out []stRet
			for _, o := range f(x, st, skey(id, dt), data) {
				x.setDecide(o.st)
				if o.st.infeasible() || !x.feasible(o.st, True) {
					continue
				}
				ev := Event{Kind: kind, Self: self, Args: map[string]Value{"id": id, "dt": dt, "err": o.err}}
				if data != nil {
					ev.Args["data"] = data
				}
				if o.dat != nil {
					ev.Args["data"] = o.dat
				}
				o.st.events = append(base[:len(base):len(base)], ev)
				x.unit.atEvent(x, o.st, &ev)
				x.setDecide(o.st)
				if kind == "Get" {
					r := nilSlice()
					if o.dat != nil {
						r = x.newBytes(o.st, "stored", o.dat)
					}
					out = append(out, stRet{o.st, TupleV{[]Value{r, o.err}}})
				} else {
					out = append(out, stRet{o.st, o.err})
				}
			}
			return out
		}
	}
	set := func(x *Exec, st *State, k, v *Term) {
		st.ghost["store.dom"], st.ghost["store.val"] = Store(x.storeDom(st), k, True), Store(x.storeVal(st), k, v)
	}
	op("Put", func(x *Exec, st *State, k, data *Term) []outc {
		a, b, c := st.clone(), st.clone(), st.clone()
		in := Select(x.storeDom(st), k)
		a.assume(Imp(honest, Not(in)))
		set(x, a, k, data)
		b.assume(Imp(honest, in))
		eb := x.storageErr(b, "ErrAlreadyExists")
		ap := x.fresh("applied", SBool)
		c.ghost["store.dom"] = Ite(ap, Store(x.storeDom(c), k, True), x.storeDom(c))
		c.ghost["store.val"] = Ite(ap, Store(x.storeVal(c), k, data), x.storeVal(c))
		c.assume(Imp(ap, Imp(honest, Not(in))))
		return []outc{{a, INil, nil}, {b, eb, nil}, {c, x.otherErr(c, "put", "ErrAlreadyExists"), nil}}
	})
	op("Get", func(x *Exec, st *State, k, _ *Term) []outc {
		a, b, c := st.clone(), st.clone(), st.clone()
		in := Select(x.storeDom(st), k)
		d := x.fresh("got", SB)
		a.assume(Imp(honest, And(in, Eq(d, Select(x.storeVal(st), k)))))
		b.assume(Imp(honest, Not(in)))
		eb := x.storageErr(b, "ErrNotFound")
		return []outc{{a, INil, d}, {b, eb, nil}, {c, x.otherErr(c, "get", "ErrNotFound"), nil}}
	})
	op("Update", func(x *Exec, st *State, k, data *Term) []outc {
		a, b, c := st.clone(), st.clone(), st.clone()
		in := Select(x.storeDom(st), k)
		a.assume(Imp(honest, in))
		set(x, a, k, data)
		b.assume(Imp(honest, Not(in)))
		eb := x.storageErr(b, "ErrNotFound")
		ap := x.fresh("applied", SBool)
		c.ghost["store.dom"] = Ite(ap, Store(x.storeDom(c), k, True), x.storeDom(c))
		c.ghost["store.val"] = Ite(ap, Store(x.storeVal(c), k, data), x.storeVal(c))
		c.assume(Imp(ap, Imp(honest, in)))
		return []outc{{a, INil, nil}, {b, eb, nil}, {c, x.otherErr(c, "update", "ErrNotFound"), nil}}
	})
	op("Delete", func(x *Exec, st *State, k, _ *Term) []outc {
		a, c := st.clone(), st.clone()
		a.ghost["store.dom"] = Store(x.storeDom(a), k, False)
		ap := x.fresh("applied", SBool)
		c.ghost["store.dom"] = Ite(ap, Store(x.storeDom(c), k, False), x.storeDom(c))
		return []outc{{a, INil, nil}, {c, x.otherErr(c, "delete", ""), nil}}
	})
	ifaceModels["id.Provider.GetIdentity"] = func(x *Exec, st *State, self *Term, args []Value, c *ssa.CallCommon) []stRet {
		tok := args[1].(*Term)
		f := st.clone()
		okT := App("idok", SBool, self, tok)
		st.assume(okT)
		f.assume(Not(okT))
		st.events = append(st.events, Event{Kind: "GetIdentity", Self: self, Args: map[string]Value{"token": tok}})
		f.events = append(f.events, Event{Kind: "GetIdentity", Self: self, Args: map[string]Value{"token": tok}})
		var out []stRet
		if x.feasible(st, True) {
			v := x.identityOf(st, self, tok)
			m := v.(StructV)
			for _, fv := range m.F {
				if mv, ok := fv.(MapV); ok {
					objMeta[mv.Obj].caller = true
					objMeta[mv.Obj].init = st.heap[mv.Obj]
				}
			}
			out = append(out, stRet{st, TupleV{[]Value{v, INil}}})
		}
		if x.feasible(f, True) {
			x.note("errors of an identity provider are opaque: none of the library's own error values")
			zt := x.prog.pkgs["id"].Type("Identity").Type()
			out = append(out, stRet{f, TupleV{[]Value{x.symValue(f, zt, "noidentity", false), x.privErr(f, "identity")}}})
		}
		return out
	}
	ifaceModels["key.Provider.GetKeys"] = func(x *Exec, st *State, self *Term, args []Value, c *ssa.CallCommon) []stRet {
		f := st.clone()
		okT := App("keysok", SBool, self)
		st.assume(okT)
		f.assume(Not(okT))
		var out []stRet
		if x.feasible(st, True) {
			out = append(out, stRet{st, TupleV{[]Value{x.keysOf(st, self), INil}}})
		}
		if x.feasible(f, True) {
			zt := x.prog.pkgs["key"].Type("Keys").Type()
			out = append(out, stRet{f, TupleV{[]Value{x.symValue(f, zt, "nokeys", false), x.privErr(f, "keys")}}})
		}
		return out
	}
}

// ufValue builds a value of the type from uninterpreted functions of the arguments.
func (x *Exec) ufValue(st *State, name string, t types.Type, as ...*Term) Value {
	if s := scalarSort(t); s != nil {
		v := App(name, s, as...)
		if n, ok := isByteArray(t); ok {
			SetLen(v, IntC(n))
		}
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.ufValue(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), as...))
		}
		return sv
	case *types.Slice:
		if isByte(u.Elem()) {
			s := x.newBytes(st, name, App(name+".c", SB, as...))
			s.Nil = App(name+".nil", SBool, as...)
			st.assume(Imp(s.Nil, Eq(s.Len, IntC(0))))
			return s
		}
	case *types.Map:
		ks := keySort(u.Key())
		m := MapC{Dom: App(name+".dom", Arr(ks, SBool), as...), K: u.Key(), E: u.Elem()}
		for _, l := range leavesOf(u.Elem()) {
			m.Leaves = append(m.Leaves, App(name+".val"+l.path, Arr(ks, l.sort), as...))
		}
		nl := App(name+".nil", SBool, as...)
		k := BVar("k", ks)
		nl.AddFact(Imp(nl, Forall([]*Term{k}, Not(Select(m.Dom, k)))))
		return MapV{Nil: nl, Obj: x.newObj(st, name, t, m)}
	}
	return unsupported("value of %s", t)
}

func (x *Exec) identityOf(st *State, p, tok *Term) Value {
	return x.ufValue(st, "identity", x.prog.pkgs["id"].Type("Identity").Type(), p, tok)
}
func (x *Exec) keysOf(st *State, kp *Term) Value {
	return x.ufValue(st, "keys", x.prog.pkgs["key"].Type("Keys").Type(), kp)
}

var _ = sort.Strings

func b64enc(name string, b *Term) *Term {
	n := "b64enc." + name
	if _, ok := appCtor[n]; !ok {
		ctor1(n, "", func(t *Term, a []*Term) {
			t.AddFact(rawEq(App("b64dec."+name, SB, t), a[0]))
			t.AddFact(App("b64ok."+name, SBool, t))
			// length of the unpadded encoding
			if strings.HasPrefix(name, "Raw") {
				t.AddFact(rawEq(BLen(t), mkDivFloor(Add(Mul(IntC(4), BLen(a[0])), IntC(2)), IntC(3))))
			}
		})
	}
	return appCtor[n]([]*Term{b})
}

// ---------- locks and interference

// In a unit with the option "interference" other goroutines run at the same time: between any two operations
// on shared maps they may change them arbitrarily, except that, with "option interference locked", they
// change nothing while this goroutine holds a lock (the contract then has to show that every change of a
// shared map is made under one and the same exclusive lock, field guarded of the events AWrite).
func (x *Exec) interf() bool {
	return x.unit != nil && x.unit.ct != nil && x.unit.ct.opts["interference"] != ""
}

func lockMode(st *State) (excl, shared string) {
	var ks []string
	for k := range st.ghost {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if t := st.ghost[k]; strings.HasPrefix(k, "lock:") {
			if t == IntC(2) {
				excl = k
			} else if t == IntC(1) {
				shared = k
			}
		}
	}
	return
}

// interfere lets other goroutines run before an operation on the shared object at p.
func (x *Exec) interfere(st *State, p PtrV) {
	if !x.interf() {
		return
	}
	e, s := lockMode(st)
	if x.unit.ct.opts["interference"] == "locked" && (e != "" || s != "") {
		return
	}
	x.havocState(st, p, map[int]bool{})
}

// atomic records an operation on a shared map: pre and post tell whether the key was and is present.
func (x *Exec) atomic(st *State, write, pre, post *Term, plain bool) {
	if !x.interf() {
		return
	}
	e, s := lockMode(st)
	if write == True && e != "" {
		if x.interfLock == "" {
			x.interfLock = e
		}
	}
	kind := "ARead"
	if write == True {
		kind = "AWrite"
	}
	if l := x.interfLock; l != "" && plain {
		if e != l {
			e = ""
		}
		if s != l {
			s = ""
		}
	}
	safe := !plain || e != "" || s != "" && write != True
	st.events = append(st.events, Event{Kind: kind, Args: map[string]Value{"pre": pre, "post": post, "guarded": Bool(e != "" && e == x.interfLock), "safe": Bool(safe)}})
}

func initLocks() {
	name := func(a Value) string {
		p, ok := a.(PtrV)
		if !ok {
			unsupported("lock %T", a)
		}
		s := fmt.Sprintf("lock:%d", p.Obj)
		for _, e := range p.Path {
			if e.Idx != nil {
				unsupported("an array of locks")
			}
			s += fmt.Sprintf(".%d", e.Field)
		}
		return s
	}
	lock := func(mode int64) model {
		return func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
			n := name(args[0])
			p := args[0].(PtrV)
			held := st.ghost[n]
			if held != nil && held != IntC(0) {
				x.mustHold(st, "panic", "deadlock: the goroutine locks what it has locked", posOf(c), False)
			}
			if x.interf() && p.Obj >= 0 {
				if e, s := lockMode(st); e == "" && s == "" {
					x.havocState(st, PtrV{Nil: False, Obj: p.Obj}, map[int]bool{})
				}
			}
			st.ghost[n] = IntC(mode)
			return ret1(st)
		}
	}
	unlock := func(mode int64) model {
		return func(x *Exec, st *State, args []Value, c *ssa.CallCommon) []stRet {
			n := name(args[0])
			held := st.ghost[n]
			if held != IntC(mode) {
				x.mustHold(st, "panic", "unlock of a lock that is not held", posOf(c), False)
			}
			st.ghost[n] = IntC(0)
			return ret1(st)
		}
	}
	models["sync.(*Mutex).Lock"] = lock(2)
	models["sync.(*Mutex).Unlock"] = unlock(2)
	models["sync.(*RWMutex).Lock"] = lock(2)
	models["sync.(*RWMutex).Unlock"] = unlock(2)
	models["sync.(*RWMutex).RLock"] = lock(1)
	models["sync.(*RWMutex).RUnlock"] = unlock(1)
}
