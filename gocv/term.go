package main

// Terms: hash-consed SMT terms with a light simplifier. A term may carry definitional facts (true of
// the term in every state); a query includes the facts of every term it mentions.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort struct {
	Name     string // SMT name
	Kind     string // bool int bv arr un
	W        int
	Key, Val *Sort
}

var sortTab = map[string]*Sort{}

func mkSort(s Sort) *Sort {
	if t, ok := sortTab[s.Name]; ok {
		return t
	}
	t := &s
	sortTab[s.Name] = t
	return t
}

var (
	SBool = mkSort(Sort{Name: "Bool", Kind: "bool"})
	SInt  = mkSort(Sort{Name: "Int", Kind: "int"})
	SB    = Un("B")  // byte strings (contents of strings and byte slices)
	SV    = Un("V")  // snapshots of Go values as seen by the JSON encoder
	SI    = Un("I")  // interface values
	SK    = Un("SK") // storage keys
	SM    = Un("MM") // opaque heap contents
)

func Un(n string) *Sort { return mkSort(Sort{Name: n, Kind: "un"}) }
func BV(w int) *Sort {
	return mkSort(Sort{Name: fmt.Sprintf("(_ BitVec %d)", w), Kind: "bv", W: w})
}
func Arr(k, v *Sort) *Sort {
	return mkSort(Sort{Name: "(Array " + k.Name + " " + v.Name + ")", Kind: "arr", Key: k, Val: v})
}

type Term struct {
	id    int
	op    string
	name  string // var/app name, blit contents
	args  []*Term
	sort  *Sort
	num   *big.Int // int/bv constants
	bound bool     // mentions a bound variable
	facts []*Term
	fdone bool
	size  int
}

var termTab = map[string]*Term{}
var allTerms []*Term

func key(op, name string, num *big.Int, s *Sort, args []*Term) string {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(s.Name)
	if num != nil {
		sb.WriteByte('#')
		sb.WriteString(num.String())
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	return sb.String()
}

func mk(op, name string, num *big.Int, s *Sort, args ...*Term) *Term {
	k := key(op, name, num, s, args)
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: len(allTerms), op: op, name: name, args: args, sort: s, num: num, size: 1}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		t.size += a.size
	}
	if op == "bvar" {
		t.bound = true
	}
	if op == "forall" || op == "exists" {
		// bound only if a free bound variable remains
		t.bound = len(freeBound(t)) > 0
	}
	termTab[k] = t
	allTerms = append(allTerms, t)
	return t
}

func freeBound(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	if t.op == "bvar" {
		out[t] = true
		return out
	}
	if !t.bound && t.op != "forall" && t.op != "exists" {
		return out
	}
	if t.op == "forall" || t.op == "exists" {
		for v := range freeBound(t.args[len(t.args)-1]) {
			out[v] = true
		}
		for _, v := range t.args[:len(t.args)-1] {
			delete(out, v)
		}
		return out
	}
	for _, a := range t.args {
		for v := range freeBound(a) {
			out[v] = true
		}
	}
	return out
}

var (
	True  = mk("true", "", nil, SBool)
	False = mk("false", "", nil, SBool)
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func IntC(n int64) *Term      { return mk("int", "", big.NewInt(n), SInt) }
func IntBig(n *big.Int) *Term { return mk("int", "", n, SInt) }
func BVC(w int, n uint64) *Term {
	v := new(big.Int).SetUint64(n)
	return BVBig(w, v)
}
func BVBig(w int, v *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v = new(big.Int).Mod(v, m)
	return mk("bv", "", v, BV(w))
}
func Var(name string, s *Sort) *Term { return mk("var", name, nil, s) }

var freshN int

func Fresh(hint string, s *Sort) *Term {
	freshN++
	hint = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, hint)
	return Var(fmt.Sprintf("%s!%d", hint, freshN), s)
}
func BVar(hint string, s *Sort) *Term {
	freshN++
	return mk("bvar", fmt.Sprintf("%s?%d", hint, freshN), nil, s)
}
func App(name string, s *Sort, args ...*Term) *Term { return mk("app", name, nil, s, args...) }

func (t *Term) AddFact(f *Term) {
	if f == True || f.bound {
		return
	}
	for _, g := range t.facts {
		if g == f {
			return
		}
	}
	t.facts = append(t.facts, f)
}

func (t *Term) isC() bool { return t.op == "int" || t.op == "bv" || t == True || t == False }
func (t *Term) i64() (int64, bool) {
	if t.op == "int" && t.num.IsInt64() {
		return t.num.Int64(), true
	}
	return 0, false
}

// ---------- booleans

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	case a.op == "<=": // not (a<=b)  <=>  b+1<=a
		return Le(Add(a.args[1], IntC(1)), a.args[0])
	}
	return mk("not", "", nil, SBool, a)
}
func And(as ...*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True || seen[a] {
			return true
		}
		if a == False {
			return false
		}
		if a.op == "and" {
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", nil, SBool, out...)
}
func Or(as ...*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == False || seen[a] {
			return true
		}
		if a == True {
			return false
		}
		if a.op == "or" {
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", nil, SBool, out...)
}
func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", "", nil, SBool, a, b)
}
func Iff(a, b *Term) *Term { return Eq(a, b) }
func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a == True && b == False {
		return c
	}
	if a == False && b == True {
		return Not(c)
	}
	return mk("ite", "", nil, a.sort, c, a, b)
}
func Forall(vs []*Term, body *Term) *Term { return quant("forall", vs, body) }
func Exists(vs []*Term, body *Term) *Term { return quant("exists", vs, body) }
func quant(q string, vs []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	fb := freeBound(body)
	var us []*Term
	for _, v := range vs {
		if fb[v] {
			us = append(us, v)
		}
	}
	if len(us) == 0 {
		return body
	}
	return mk(q, "", nil, SBool, append(append([]*Term{}, us...), body)...)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.sort.Name, b.sort.Name, a, b))
	}
	if a.isC() && b.isC() {
		return False // distinct hash-consed constants
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.sort == SInt {
		d := Sub(a, b)
		if d.op == "int" {
			return Bool(d.num.Sign() == 0)
		}
	}
	if a.sort == SB {
		if r := eqB(a, b); r != nil {
			return r
		}
	}
	if a.op == "app" && b.op == "app" && a.name == b.name && injective[a.name] && len(a.args) == len(b.args) {
		same := true
		for i := range a.args {
			if a.args[i].sort != b.args[i].sort {
				same = false
			}
		}
		if same {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
	}
	if a.sort == SI {
		if isSent(a) && isSent(b) {
			return False
		}
	}
	if a.op == "ite" && a.args[1].isC() && a.args[2].isC() && b.isC() {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && b.args[1].isC() && b.args[2].isC() && a.isC() {
		return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", nil, SBool, a, b)
}

// ---------- integers (linear normal form)

type lin struct {
	c  *big.Int
	m  map[*Term]*big.Int
	ks []*Term
}

func toLin(t *Term) *lin {
	l := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	l.add(t, big.NewInt(1))
	return l
}
func (l *lin) add(t *Term, k *big.Int) {
	switch t.op {
	case "int":
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.num))
	case "+":
		for _, a := range t.args {
			l.add(a, k)
		}
	case "*":
		if t.args[0].op == "int" {
			l.add(t.args[1], new(big.Int).Mul(k, t.args[0].num))
			return
		}
		fallthrough
	default:
		if o, ok := l.m[t]; ok {
			l.m[t] = new(big.Int).Add(o, k)
		} else {
			l.m[t] = k
			l.ks = append(l.ks, t)
		}
	}
}
func (l *lin) term() *Term {
	var args []*Term
	sort.Slice(l.ks, func(i, j int) bool { return l.ks[i].id < l.ks[j].id })
	for _, k := range l.ks {
		co := l.m[k]
		if co.Sign() == 0 {
			continue
		}
		if co.Cmp(big.NewInt(1)) == 0 {
			args = append(args, k)
		} else {
			args = append(args, mk("*", "", nil, SInt, IntBig(co), k))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, IntBig(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", "", nil, SInt, args...)
}
func Add(as ...*Term) *Term {
	l := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	for _, a := range as {
		l.add(a, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	l.add(a, big.NewInt(1))
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Mul(a, b *Term) *Term {
	if a.op == "int" {
		l := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
		l.add(b, a.num)
		return l.term()
	}
	if b.op == "int" {
		return Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", nil, SInt, a, b)
}
func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if d.op == "int" {
		return Bool(d.num.Sign() >= 0)
	}
	// canonical: keep as a <= b with both sides normalized from the difference: pos >= neg
	l := toLin(d)
	// single atom with nonneg facts: blen(x) >= 0
	if len(l.ks) >= 1 {
		allNonneg := l.c.Sign() >= 0
		for _, k := range l.ks {
			if l.m[k].Sign() < 0 || !nonneg(k) {
				allNonneg = false
			}
		}
		if allNonneg {
			return True
		}
		allNeg := l.c.Sign() < 0
		for _, k := range l.ks {
			if l.m[k].Sign() > 0 || !nonneg(k) {
				allNeg = false
			}
		}
		if allNeg {
			return False
		}
	}
	pos := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	neg := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	for _, k := range l.ks {
		if l.m[k].Sign() > 0 {
			pos.add(k, l.m[k])
		} else if l.m[k].Sign() < 0 {
			neg.add(k, new(big.Int).Neg(l.m[k]))
		}
	}
	if l.c.Sign() > 0 {
		pos.c = l.c
	} else {
		neg.c = new(big.Int).Neg(l.c)
	}
	return mk("<=", "", nil, SBool, neg.term(), pos.term())
}
func Lt(a, b *Term) *Term { return Le(Add(a, IntC(1)), b) }
func nonneg(t *Term) bool {
	if t.op == "app" && (t.name == "blen" || t.name == "mlen") {
		return true
	}
	if nonnegVar[t] {
		return true
	}
	if t.op == "mod" || t.op == "bv2nat" {
		return true
	}
	if t.op == "*" && len(t.args) == 2 {
		return nonneg(t.args[0]) && nonneg(t.args[1])
	}
	if t.op == "int" {
		return t.num.Sign() >= 0
	}
	if t.op == "+" {
		for _, a := range t.args {
			if !nonneg(a) {
				return false
			}
		}
		return true
	}
	return false
}

var nonnegVar = map[*Term]bool{}

// FreshLen is a fresh nonnegative integer below 2^47 (no slice or string is longer).
func FreshLen(hint string) *Term {
	t := Fresh(hint, SInt)
	nonnegVar[t] = true
	t.AddFact(mk("<=", "", nil, SBool, IntC(0), t))
	t.AddFact(Le(t, IntBig(maxLen)))
	return t
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 47)

// Go's truncated division and remainder on mathematical integers.
func DivT(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.num.Sign() != 0 {
		return IntBig(new(big.Int).Quo(a.num, b.num))
	}
	if b.op == "int" && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if nonneg(a) && b.op == "int" && b.num.Sign() > 0 {
		// (k*b + r)/b with const parts
		l := toLin(a)
		q := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
		ok := true
		for _, k := range l.ks {
			if new(big.Int).Mod(l.m[k], b.num).Sign() != 0 {
				ok = false
			} else {
				q.add(k, new(big.Int).Div(l.m[k], b.num))
			}
		}
		if ok {
			q.c = new(big.Int).Div(l.c, b.num)
			return q.term()
		}
		return mk("div", "", nil, SInt, a, b)
	}
	// trunc division: ite(a>=0, div a b, -(div (-a) b))  (b>0 or general via sign handling of SMT div)
	return Ite(Le(IntC(0), a), mk("div", "", nil, SInt, a, b), Sub(IntC(0), mk("div", "", nil, SInt, Sub(IntC(0), a), b)))
}
func ModT(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.num.Sign() != 0 {
		return IntBig(new(big.Int).Rem(a.num, b.num))
	}
	if nonneg(a) && b.op == "int" && b.num.Sign() > 0 {
		l := toLin(a)
		ok := true
		for _, k := range l.ks {
			if new(big.Int).Mod(l.m[k], b.num).Sign() != 0 {
				ok = false
			}
		}
		if ok {
			return IntBig(new(big.Int).Mod(l.c, b.num))
		}
		return mk("mod", "", nil, SInt, a, b)
	}
	return Sub(a, Mul(b, DivT(a, b)))
}

// ---------- bit vectors

func bvBin(op string, a, b *Term) *Term {
	w := a.sort.W
	if a.sort != b.sort {
		panic("bv sorts " + op + " " + a.String() + " " + b.String())
	}
	if a.op == "bv" && b.op == "bv" {
		x, y := a.num, b.num
		r := new(big.Int)
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		switch op {
		case "bvadd":
			return BVBig(w, r.Add(x, y))
		case "bvsub":
			return BVBig(w, r.Sub(x, y))
		case "bvmul":
			return BVBig(w, r.Mul(x, y))
		case "bvand":
			return BVBig(w, r.And(x, y))
		case "bvor":
			return BVBig(w, r.Or(x, y))
		case "bvxor":
			return BVBig(w, r.Xor(x, y))
		case "bvudiv":
			if y.Sign() != 0 {
				return BVBig(w, r.Div(x, y))
			}
		case "bvurem":
			if y.Sign() != 0 {
				return BVBig(w, r.Mod(x, y))
			}
		case "bvshl":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				return BVC(w, 0)
			}
			return BVBig(w, r.Mod(r.Lsh(x, uint(y.Int64())), m))
		case "bvlshr":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				return BVC(w, 0)
			}
			return BVBig(w, r.Rsh(x, uint(y.Int64())))
		}
	}
	zero := BVC(w, 0)
	ones := BVBig(w, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))
	switch op {
	case "bvadd", "bvor", "bvxor":
		if a == zero {
			return b
		}
		if b == zero {
			return a
		}
		if a == b && op == "bvor" {
			return a
		}
		if a == b && op == "bvxor" {
			return zero
		}
		if op == "bvxor" {
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if x := p[0]; x.op == "bvxor" {
					if x.args[0] == p[1] {
						return x.args[1]
					}
					if x.args[1] == p[1] {
						return x.args[0]
					}
				}
			}
		}
	case "bvand":
		if a == zero || b == zero {
			return zero
		}
		if a == ones {
			return b
		}
		if b == ones {
			return a
		}
		if a == b {
			return a
		}
	case "bvsub", "bvshl", "bvlshr":
		if b == zero {
			return a
		}
		if op == "bvlshr" && a.op == op && b.op == "bv" && a.args[1].op == "bv" {
			k := new(big.Int).Add(b.num, a.args[1].num)
			if k.Cmp(big.NewInt(int64(w))) >= 0 {
				return zero
			}
			return bvBin(op, a.args[0], BVBig(w, k))
		}
	}
	// arithmetic modulo 2^w on numbers: int2bv is a homomorphism
	if a.op == "int2bv" && (b.op == "bv" || b.op == "int2bv") || a.op == "bv" && b.op == "int2bv" {
		n := func(t *Term) *Term {
			if t.op == "bv" {
				return IntBig(t.num)
			}
			return t.args[0]
		}
		switch {
		case op == "bvadd":
			return Int2BV(Add(n(a), n(b)), w)
		case op == "bvsub":
			return Int2BV(Sub(n(a), n(b)), w)
		case op == "bvmul" && (a.op == "bv" || b.op == "bv"):
			return Int2BV(Mul(n(a), n(b)), w)
		case op == "bvshl" && b.op == "bv" && b.num.Cmp(big.NewInt(int64(w))) < 0:
			return Int2BV(Mul(n(a), IntBig(new(big.Int).Lsh(big.NewInt(1), uint(b.num.Int64())))), w)
		}
	}
	switch op {
	case "bvadd", "bvor", "bvxor", "bvand", "bvmul":
		if a.id > b.id {
			a, b = b, a
		}
	}
	return mk(op, "", nil, BV(w), a, b)
}
func BVNot(a *Term) *Term {
	if a.op == "bv" {
		ones := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(a.sort.W)), big.NewInt(1))
		return BVBig(a.sort.W, new(big.Int).Xor(a.num, ones))
	}
	if a.op == "bvnot" {
		return a.args[0]
	}
	return mk("bvnot", "", nil, a.sort, a)
}
func bvCmp(op string, a, b *Term) *Term { // bvult bvule
	if a.op == "bv" && b.op == "bv" {
		c := a.num.Cmp(b.num)
		if op == "bvult" {
			return Bool(c < 0)
		}
		return Bool(c <= 0)
	}
	if a == b {
		return Bool(op == "bvule")
	}
	return mk(op, "", nil, SBool, a, b)
}
func Extract(hi, lo int, a *Term) *Term {
	w := hi - lo + 1
	if lo == 0 && w == a.sort.W {
		return a
	}
	switch a.op {
	case "bv":
		return BVBig(w, new(big.Int).Rsh(a.num, uint(lo)))
	case "extract":
		b := int(a.num.Int64())
		return Extract(hi+b, lo+b, a.args[0])
	case "concat":
		x, y := a.args[0], a.args[1]
		if hi < y.sort.W {
			return Extract(hi, lo, y)
		}
		if lo >= y.sort.W {
			return Extract(hi-y.sort.W, lo-y.sort.W, x)
		}
	case "zext":
		x := a.args[0]
		if hi < x.sort.W {
			return Extract(hi, lo, x)
		}
		if lo >= x.sort.W {
			return BVC(w, 0)
		}
	case "bvand", "bvor", "bvxor":
		return bvBin(a.op, Extract(hi, lo, a.args[0]), Extract(hi, lo, a.args[1]))
	case "bvlshr":
		if a.args[1].op == "bv" {
			s := int(a.args[1].num.Int64())
			if hi+s < a.sort.W {
				return Extract(hi+s, lo+s, a.args[0])
			}
			if lo+s >= a.sort.W {
				return BVC(w, 0)
			}
		}
	}
	return mk("extract", fmt.Sprint(hi), big.NewInt(int64(lo)), BV(w), a)
}
func Concat(a, b *Term) *Term {
	w := a.sort.W + b.sort.W
	if a.op == "bv" && b.op == "bv" {
		return BVBig(w, new(big.Int).Or(new(big.Int).Lsh(a.num, uint(b.sort.W)), b.num))
	}
	if a.op == "extract" && b.op == "extract" && a.args[0] == b.args[0] {
		alo := int(a.num.Int64())
		blo := int(b.num.Int64())
		if alo == blo+b.sort.W {
			return Extract(alo+a.sort.W-1, blo, a.args[0])
		}
	}
	return mk("concat", "", nil, BV(w), a, b)
}
func ZExt(a *Term, w int) *Term {
	if a.sort.W == w {
		return a
	}
	if a.op == "bv" {
		return BVBig(w, a.num)
	}
	if a.op == "zext" {
		return ZExt(a.args[0], w)
	}
	return mk("zext", "", nil, BV(w), a)
}
func BV2Int(a *Term) *Term {
	if a.op == "bv" {
		return IntBig(a.num)
	}
	if a.op == "zext" {
		return BV2Int(a.args[0])
	}
	if a.op == "int2bv" && false {
		return a
	}
	t := mk("bv2nat", "", nil, SInt, a)
	if !t.bound {
		t.AddFact(mk("<=", "", nil, SBool, IntC(0), t))
		t.AddFact(mk("<=", "", nil, SBool, t, IntBig(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(a.sort.W)), big.NewInt(1)))))
	}
	return t
}
func Int2BV(a *Term, w int) *Term {
	if a.op == "int" {
		return BVBig(w, a.num)
	}
	if a.op == "bv2nat" {
		x := a.args[0]
		if x.sort.W == w {
			return x
		}
		if x.sort.W < w {
			return ZExt(x, w)
		}
		return Extract(w-1, 0, x)
	}
	return mk("int2bv", "", nil, BV(w), a)
}

// ---------- arrays

func Select(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			if a.args[1] == i {
				return a.args[2]
			}
			if Eq(a.args[1], i) == False {
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		}
		break
	}
	return mk("select", "", nil, a.sort.Val, a, i)
}
func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", "", nil, a.sort, a, i, v)
}
func ConstArr(s *Sort, v *Term) *Term { return mk("constarr", "", nil, s, v) }

// ---------- substitution

func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = f(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Imp(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "constarr":
		return ConstArr(t.sort, a[0])
	case "forall":
		return Forall(a[:len(a)-1], a[len(a)-1])
	case "exists":
		return Exists(a[:len(a)-1], a[len(a)-1])
	case "extract":
		lo := int(t.num.Int64())
		return Extract(lo+t.sort.W-1, lo, a[0])
	case "concat":
		return Concat(a[0], a[1])
	case "zext":
		return ZExt(a[0], t.sort.W)
	case "bv2nat":
		return BV2Int(a[0])
	case "int2bv":
		return Int2BV(a[0], t.sort.W)
	case "bvnot":
		return BVNot(a[0])
	case "bvult", "bvule":
		return bvCmp(t.op, a[0], a[1])
	case "cat":
		return Cat(a...)
	case "bunit":
		return BUnit(a[0])
	case "zeros":
		return Zeros(a[0])
	case "app":
		switch t.name {
		case "blen":
			return BLen(a[0])
		case "bsub":
			return BSub(a[0], a[1], a[2])
		case "bnth":
			return BNth(a[0], a[1])
		}
		return appHook(t.name, t.sort, a)
	}
	if strings.HasPrefix(t.op, "bv") {
		return bvBin(t.op, a[0], a[1])
	}
	return mk(t.op, t.name, t.num, t.sort, a...)
}

// constructors of defined functions re-add their definitional facts
var appCtor = map[string]func(args []*Term) *Term{}

func appHook(name string, s *Sort, a []*Term) *Term {
	if f, ok := appCtor[name]; ok {
		return f(a)
	}
	return App(name, s, a...)
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		return t.num.String()
	case "bv":
		return fmt.Sprintf("%s:%d", t.num.String(), t.sort.W)
	case "var", "bvar":
		return t.name
	case "blit":
		return fmt.Sprintf("%q", t.name)
	}
	n := t.op
	if t.op == "app" {
		n = t.name
	}
	if t.op == "extract" {
		lo := int(t.num.Int64())
		n = fmt.Sprintf("extract[%d:%d]", lo+t.sort.W-1, lo)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d+1))
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}
