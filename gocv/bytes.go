package main

// Byte-string terms ("ropes"). Sort B is uninterpreted for the solver; concatenation, sub-string and
// indexing are normalised here and described to the solver by ground facts.

import (
	"fmt"
	"math/big"
)

// decide, when set, asks whether a condition is known true/false on the current path.
var decide func(t *Term) (val, known bool)

func dec(t *Term) (bool, bool) {
	if t == True {
		return true, true
	}
	if t == False {
		return false, true
	}
	if decide != nil && !t.bound {
		return decide(t)
	}
	return false, false
}

func BLit(s string) *Term {
	t := mk("blit", s, nil, SB)
	return t
}

var lenKnown = map[*Term]*Term{}

// SetLen declares the length of an atom (must be true by definition of the atom).
func SetLen(t, n *Term) *Term {
	lenKnown[t] = n
	t.AddFact(mk("=", "", nil, SBool, mk("app", "blen", nil, SInt, t), n))
	return t
}

func BLen(t *Term) *Term {
	switch t.op {
	case "blit":
		return IntC(int64(len(t.name)))
	case "bunit":
		return IntC(1)
	case "zeros":
		return t.args[0]
	case "cat":
		var as []*Term
		for _, a := range t.args {
			as = append(as, BLen(a))
		}
		return Add(as...)
	case "app":
		if t.name == "bsub" {
			return Sub(t.args[2], t.args[1])
		}
	case "ite":
		x, y := BLen(t.args[1]), BLen(t.args[2])
		if x == y {
			return x
		}
	}
	if n, ok := lenKnown[t]; ok {
		return n
	}
	r := App("blen", SInt, t)
	if len(r.facts) == 0 && !r.bound {
		r.AddFact(mk("<=", "", nil, SBool, IntC(0), r))
		r.AddFact(mk("<=", "", nil, SBool, r, IntBig(maxLen)))
	}
	return r
}

func BUnit(v *Term) *Term {
	if v.op == "bv" {
		return BLit(string([]byte{byte(v.num.Uint64())}))
	}
	if v.op == "app" && v.name == "bnth" {
		return BSub(v.args[0], v.args[1], Add(v.args[1], IntC(1)))
	}
	t := mk("bunit", "", nil, SB, v)
	if !t.fdone && !t.bound {
		t.fdone = true
		t.AddFact(rawEq(App("ubyte", BV(8), t), v))
	}
	return t
}
func Zeros(n *Term) *Term {
	if k, ok := n.i64(); ok && k <= 4096 {
		if k < 0 {
			k = 0
		}
		return BLit(string(make([]byte, k)))
	}
	return mk("zeros", "", nil, SB, n)
}

func bparts(t *Term) []*Term {
	if t.op == "cat" {
		return t.args
	}
	if t.op == "blit" && t.name == "" {
		return nil
	}
	return []*Term{t}
}

func Cat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		for _, p := range bparts(a) {
			if z := BLen(p); z == IntC(0) {
				continue
			}
			if n := len(out); n > 0 {
				l := out[n-1]
				if l.op == "blit" && p.op == "blit" {
					out[n-1] = BLit(l.name + p.name)
					continue
				}
				lx, la, lb := subOf(l)
				px, pa, pb := subOf(p)
				if lx == px && lb == pa && (l != lx || p != px) {
					out[n-1] = BSub(lx, la, pb)
					continue
				}
				if l.op == "zeros" && p.op == "zeros" {
					out[n-1] = Zeros(Add(l.args[0], p.args[0]))
					continue
				}
				if l.op == "zeros" && p.op == "blit" && allZero(p.name) {
					out[n-1] = Zeros(Add(l.args[0], IntC(int64(len(p.name)))))
					continue
				}
				if p.op == "zeros" && l.op == "blit" && allZero(l.name) {
					out[n-1] = Zeros(Add(p.args[0], IntC(int64(len(l.name)))))
					continue
				}
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return BLit("")
	}
	if len(out) == 1 {
		return out[0]
	}
	t := mk("cat", "", nil, SB, out...)
	if !t.fdone && !t.bound {
		t.fdone = true
		saved := decide
		decide = nil // facts hold on every path
		defer func() { decide = saved }()
		var sums []*Term
		s := IntC(0)
		sums = append(sums, s)
		for _, p := range out {
			s = Add(s, BLen(p))
			sums = append(sums, s)
		}
		t.AddFact(mk("=", "", nil, SBool, mk("app", "blen", nil, SInt, t), s))
		for i := range out {
			for j := i + 1; j <= len(out); j++ {
				if i == 0 && j == len(out) {
					continue
				}
				if len(out) > 6 && j > i+1 && i > 0 && j < len(out) {
					continue
				}
				t.AddFact(mk("=", "", nil, SBool, mk("app", "bsub", nil, SB, t, sums[i], sums[j]), Cat(out[i:j]...)))
			}
		}
	}
	return t
}
func allZero(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != 0 {
			return false
		}
	}
	return true
}
func subOf(t *Term) (x, a, b *Term) {
	if t.op == "app" && t.name == "bsub" {
		return t.args[0], t.args[1], t.args[2]
	}
	return t, IntC(0), BLen(t)
}

// BSub is t[a:b]; the caller guarantees 0<=a<=b<=len(t) on the current path.
func BSub(t, a, b *Term) *Term {
	if a == b {
		return BLit("")
	}
	n := BLen(t)
	if v, ok := a.i64(); ok && v == 0 && (b == n) {
		return t
	}
	if x, y := t.bound || a.bound || b.bound, false; !x && !y {
		if v, ok := dec(Eq(a, b)); ok && v {
			return BLit("")
		}
	}
	switch t.op {
	case "blit":
		x, ok1 := a.i64()
		y, ok2 := b.i64()
		if ok1 && ok2 && 0 <= x && x <= y && y <= int64(len(t.name)) {
			return BLit(t.name[x:y])
		}
		if allZero(t.name) {
			return Zeros(Sub(b, a))
		}
	case "zeros":
		return Zeros(Sub(b, a))
	case "app":
		if t.name == "bsub" {
			return BSub(t.args[0], Add(t.args[1], a), Add(t.args[1], b))
		}
	case "cat":
		if r := catSub(t, a, b); r != nil {
			return r
		}
	case "ite":
		if t.size < 400 {
			x := BSub(t.args[1], a, b)
			y := BSub(t.args[2], a, b)
			return Ite(t.args[0], x, y)
		}
	}
	if a == IntC(0) {
		if v, ok := dec(Eq(b, n)); ok && v {
			return t
		}
	}
	r := App("bsub", SB, t, a, b)
	if !r.fdone && !r.bound {
		r.fdone = true
		wf := And(Le(IntC(0), a), Le(a, b), Le(b, n))
		r.AddFact(Imp(wf, mk("=", "", nil, SBool, mk("app", "blen", nil, SInt, r), Sub(b, a))))
		r.AddFact(Imp(And(Eq(a, IntC(0)), Eq(b, n)), mk("=", "", nil, SBool, r, t)))
	}
	return r
}

// locate x within the prefix sums of a cat: returns part index i and offset within part i with
// 0<=off<=len(part i); prefers exact boundaries.
func locate(parts []*Term, x *Term) (int, *Term, bool) { return locateAt(parts, x, false) }

// locateAt with incl also accepts a position that may lie at the very end of a part (good enough
// to cut there, not to read the byte there).
func locateAt(parts []*Term, x *Term, incl bool) (int, *Term, bool) {
	s := IntC(0)
	for i, p := range parts {
		d := Sub(x, s)
		if d.op == "int" && d.num.Sign() == 0 {
			return i, IntC(0), true
		}
		l := BLen(p)
		// x < s + l ?
		v, ok := dec(Lt(d, l))
		if !ok {
			if v2, ok2 := dec(Eq(d, l)); ok2 && v2 {
				return i + 1, IntC(0), true
			}
			if incl {
				if v3, ok3 := dec(Le(d, l)); ok3 && v3 {
					return i, d, true
				}
			}
			return 0, nil, false
		}
		if v {
			if z, ok := dec(Eq(d, IntC(0))); ok && z {
				return i, IntC(0), true
			}
			return i, d, true
		}
		s = Add(s, l)
	}
	return len(parts), Sub(x, s), true
}

func catSub(t, a, b *Term) *Term {
	ps := t.args
	i, ao, ok := locateAt(ps, a, true)
	if !ok {
		return nil
	}
	// end: located from the right side preferred (b inside part j as j, off with off>0)
	if b == BLen(t) {
		var out []*Term
		for k := i; k < len(ps); k++ {
			if k == i {
				out = append(out, BSub(ps[k], ao, BLen(ps[k])))
			} else {
				out = append(out, ps[k])
			}
		}
		return Cat(out...)
	}
	j, bo, ok := locateAt(ps, b, true)
	if !ok {
		return nil
	}
	var out []*Term
	for k := i; k <= j && k < len(ps); k++ {
		lo, hi := IntC(0), BLen(ps[k])
		if k == i {
			lo = ao
		}
		if k == j {
			hi = bo
		}
		if lo == hi {
			continue
		}
		out = append(out, BSub(ps[k], lo, hi))
	}
	return Cat(out...)
}

// BNth is the byte (BV8) at index i.
func BNth(t, i *Term) *Term {
	switch t.op {
	case "blit":
		if v, ok := i.i64(); ok && v >= 0 && v < int64(len(t.name)) {
			return BVC(8, uint64(t.name[v]))
		}
		if allZero(t.name) {
			return BVC(8, 0)
		}
	case "bunit":
		return t.args[0]
	case "zeros":
		return BVC(8, 0)
	case "app":
		if t.name == "bsub" {
			return BNth(t.args[0], Add(t.args[1], i))
		}
	case "cat":
		if k, off, ok := locate(t.args, i); ok && k < len(t.args) {
			return BNth(t.args[k], off)
		}
		if len(t.args) <= 64 {
			var starts []*Term
			at := IntC(0)
			for _, p := range t.args {
				starts = append(starts, at)
				at = Add(at, BLen(p))
			}
			n := len(t.args) - 1
			r := BNth(t.args[n], Sub(i, starts[n]))
			for k := n - 1; k >= 0; k-- {
				r = Ite(Lt(i, starts[k+1]), BNth(t.args[k], Sub(i, starts[k])), r)
			}
			return r
		}
	case "ite":
		return Ite(t.args[0], BNth(t.args[1], i), BNth(t.args[2], i))
	}
	return App("bnth", BV(8), t, i)
}

// BSplice replaces t[a:a+len(r)] by r.
func BSplice(t, a, r *Term) *Term {
	e := Add(a, BLen(r))
	n := BLen(t)
	return Cat(BSub(t, IntC(0), a), r, BSub(t, e, n))
}

// BV of w bits from bytes, big endian when be.
func BytesToBV(t *Term, n int, be bool) *Term {
	var r *Term
	for k := 0; k < n; k++ {
		i := k
		if !be {
			i = n - 1 - k
		}
		x := BNth(t, IntC(int64(i)))
		if r == nil {
			r = x
		} else {
			r = Concat(r, x)
		}
	}
	return r
}
func BVToBytes(v *Term, be bool) *Term {
	n := v.sort.W / 8
	var out []*Term
	for k := 0; k < n; k++ {
		i := n - 1 - k
		if !be {
			i = k
		}
		out = append(out, BUnit(Extract(8*i+7, 8*i, v)))
	}
	return Cat(out...)
}

func blitHead(t *Term) (string, bool) {
	if t.op == "blit" {
		return t.name, true
	}
	if t.op == "cat" && t.args[0].op == "blit" {
		return t.args[0].name, true
	}
	return "", false
}

func eqB(a, b *Term) *Term {
	if a == b {
		return True
	}
	d := Sub(BLen(a), BLen(b))
	if d.op == "int" && d.num.Sign() != 0 {
		return False
	}
	if a.op == "blit" && b.op == "blit" {
		return Bool(a.name == b.name)
	}
	// lengths incompatible by sign (e.g. empty literal against longer)
	if v := Eq(BLen(a), BLen(b)); v == False {
		return False
	}
	if a.op == "blit" && a.name == "" {
		return Eq(BLen(b), IntC(0))
	}
	if b.op == "blit" && b.name == "" {
		return Eq(BLen(a), IntC(0))
	}
	if a.op == "bunit" && b.op == "bunit" {
		return Eq(a.args[0], b.args[0])
	}
	if a.op != "cat" && b.op != "cat" {
		if a.op == "bunit" && b.op == "blit" {
			return Eq(a.args[0], BVC(8, uint64(b.name[0])))
		}
		if b.op == "bunit" && a.op == "blit" {
			return Eq(b.args[0], BVC(8, uint64(a.name[0])))
		}
		return nil
	}
	pa, pb := append([]*Term{}, bparts(a)...), append([]*Term{}, bparts(b)...)
	var eqs []*Term
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		lx, ly := BLen(x), BLen(y)
		if lx == ly {
			if (len(pa) == 1) != (len(pb) == 1) {
				break
			}
			if len(pa) == 1 && len(pb) == 1 && !changed {
				break
			}
			eqs = append(eqs, Eq(x, y))
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		// split the longer one when the difference is a known constant
		dd := Sub(ly, lx)
		if dd.op == "int" {
			if dd.num.Sign() > 0 { // y longer
				if _, ok := lx.i64(); !ok && y.op == "blit" {
					break
				}
				pb = append([]*Term{BSub(y, IntC(0), lx), BSub(y, lx, ly)}, pb[1:]...)
			} else {
				if _, ok := ly.i64(); !ok && x.op == "blit" {
					break
				}
				pa = append([]*Term{BSub(x, IntC(0), ly), BSub(x, ly, lx)}, pa[1:]...)
			}
			if bparts(pa[0])[0] != pa[0] || bparts(pb[0])[0] != pb[0] {
				pa = bparts(Cat(pa...))
				pb = bparts(Cat(pb...))
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if BLen(x) == BLen(y) && len(pa) > 1 && len(pb) > 1 {
			eqs = append(eqs, Eq(x, y))
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		break
	}
	if !changed && len(eqs) == 0 {
		return nil
	}
	ra, rb := Cat(pa...), Cat(pb...)
	if ra == a && rb == b {
		return nil
	}
	eqs = append(eqs, Eq(ra, rb))
	return And(eqs...)
}

// sentinels: constants of sort I that are pairwise distinct
var sents = map[*Term]string{}
var sentList []*Term

func Sent(name string) *Term {
	t := Var("sent."+name, SI)
	if _, ok := sents[t]; !ok {
		sents[t] = name
		sentList = append(sentList, t)
	}
	return t
}
func isSent(t *Term) bool { _, ok := sents[t]; return ok }

var INil = Sent("nil")

func blitSMT(t *Term) string { return fmt.Sprintf("blit%d", t.id) }

var _ = big.NewInt
