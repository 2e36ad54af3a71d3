package main

// Specification functions computed by the contract evaluator: SP 800-185 length encodings and the
// SP 800-38F KWP wrapping transformation for a given size, written from the standards.

// encLen is left_encode / right_encode of a value below 2^64.
func encLen(t *Term, left bool) *Term {
	if t.sort == SInt {
		t = Int2BV(t, 64)
	}
	if t.sort.W < 64 {
		t = ZExt(t, 64)
	}
	enc := func(n int) *Term {
		var ps []*Term
		for i := n - 1; i >= 0; i-- {
			ps = append(ps, BUnit(Extract(8*i+7, 8*i, t)))
		}
		c := BUnit(BVC(8, uint64(n)))
		if left {
			return Cat(append([]*Term{c}, ps...)...)
		}
		return Cat(append(ps, c)...)
	}
	r := enc(8)
	for n := 7; n >= 1; n-- {
		c := bvCmp("bvult", t, BVC(64, 1<<(8*uint(n))))
		if v, ok := dec(c); ok {
			if v {
				r = enc(n)
			}
			continue
		}
		r = Ite(c, enc(n), r)
	}
	return r
}

// encLenSpec keeps the encoding of an unknown number opaque where the function that computes it has a
// contract of its own.
func (e *Env) encLenSpec(t *Term, name string) *Term {
	if t.sort == SInt {
		t = Int2BV(t, 64)
	}
	if t.sort.W < 64 {
		t = ZExt(t, 64)
	}
	fn := map[string]string{"leftenc": "crypto.leftEncode", "rightenc": "crypto.rightEncode"}[name]
	ct := e.x.prog.spec.contracts[fn]
	if t.isC() || ct == nil || !ct.use || e.x.prog.lookupFn(fn) == nil || e.x.unit != nil && e.x.unit.key == fn {
		return encLen(t, name == "leftenc")
	}
	// as a function of the number modulo 2^64, to keep bit-vectors out of the proofs about its callers
	n := t
	if t.op == "int2bv" && t.sort.W == 64 {
		n = t.args[0]
	} else {
		n = BV2Int(t)
	}
	r := App(name, SB, n)
	r.AddFact(And(Le(IntC(2), BLen(r)), Le(BLen(r), IntC(9))))
	return r
}

// The states of the wrapping function W of SP 800-38F (algorithm 1) and of its inverse (algorithm 2), in
// the form with the registers in place: for a string S of n+1 semiblocks, kw(kek, S, p, j) is the string
// after p passes over the n semiblocks and j more steps (kw(kek, S, 5, n) is W(S)), and ku(kek, S, p, d) is
// that of the inverse with pass p to be undone next and d of its steps already undone (ku(kek, S, 0, n) is
// the inverse of W on S). The step counter is xored into the last four bytes of the first semiblock only:
// the number of steps is less than 2^32 at the lengths in use.

func kwpSteps(s *Term) *Term { return Sub(DivT(BLen(s), IntC(8)), IntC(1)) }

func xorCounter(a, t *Term) *Term { // MSB_64(B) xor t
	c := Int2BV(t, 64)
	ps := []*Term{BSub(a, IntC(0), IntC(4))}
	for i := 4; i < 8; i++ {
		k := 8 * (7 - i)
		ps = append(ps, BUnit(bvBin("bvxor", BNth(a, IntC(int64(i))), Extract(k+7, k, c))))
	}
	return Cat(ps...)
}

func kwpCtors(x *Exec) {
	app := func(f string, k, t *Term) *Term { return x.prog.spec.app(x, f, []*Term{k, t}) }
	semi := func(s, i *Term) *Term { return BSub(s, Mul(IntC(8), i), Add(Mul(IntC(8), i), IntC(8))) }
	first := func(s *Term) *Term { return BSub(s, IntC(0), IntC(8)) }
	put := func(s, a, i, r *Term) *Term {
		o := Mul(IntC(8), i)
		return Cat(a, BSub(s, IntC(8), o), r, BSub(s, Add(o, IntC(8)), BLen(s)))
	}
	atom := func(name string, a []*Term, zero func() *Term) *Term {
		t := App(name, SB, a...)
		if !t.fdone && !t.bound {
			t.fdone = true
			SetLen(t, BLen(a[1]))
			if a[4].op != "int" {
				t.AddFact(Imp(rawEq(a[4], IntC(0)), rawEq(t, zero())))
			}
		}
		return t
	}
	appCtor["kw"] = func(a []*Term) *Term {
		kek, s, n, p, j := a[0], a[1], a[2], a[3], a[4]
		zero := func() *Term {
			if p == IntC(0) {
				return s
			}
			return appCtor["kw"]([]*Term{kek, s, n, Sub(p, IntC(1)), n})
		}
		if j == IntC(0) {
			return zero()
		}
		if q := predOf(j); q != nil {
			prev := appCtor["kw"]([]*Term{kek, s, n, p, q})
			b := app("aesenc", kek, Cat(first(prev), semi(prev, j)))
			return put(prev, xorCounter(first(b), Add(Mul(p, n), j)), j, BSub(b, IntC(8), IntC(16)))
		}
		return atom("kw", a, zero)
	}
	appCtor["ku"] = func(a []*Term) *Term {
		kek, s, n, p, d := a[0], a[1], a[2], a[3], a[4]
		zero := func() *Term {
			if p == IntC(5) {
				return s
			}
			return appCtor["ku"]([]*Term{kek, s, n, Add(p, IntC(1)), n})
		}
		if d == IntC(0) {
			return zero()
		}
		if q := predOf(d); q != nil {
			prev := appCtor["ku"]([]*Term{kek, s, n, p, q})
			i := Sub(n, q)
			b := app("aesdec", kek, Cat(xorCounter(first(prev), Add(Mul(p, n), i)), semi(prev, i)))
			return put(prev, first(b), i, BSub(b, IntC(8), IntC(16)))
		}
		return atom("ku", a, zero)
	}
}
