package d1_test

import (
	"bytes"
	"encoding/base64"
	"errors"
	"testing"
	"time"

	json "github.com/json-iterator/go"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/sha3"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/gofrs/uuid"
)

type fakeRand struct {
	b    []byte
	fail bool
	n    []uint
}

func (f *fakeRand) GetBytes(n uint) ([]byte, error) {
	f.n = append(f.n, n)
	if f.fail {
		return nil, errors.New("no entropy")
	}
	return append([]byte{}, f.b[:n]...), nil
}

func gcmRun(t *testing.T, prop string) {
	each(t, prop, 20*time.Second, 100000, func(v *run) {
		kl := 32
		if v.p(15) {
			kl = []int{0, 16, 24, 31, 33, 64}[v.r.Intn(6)]
		}
		key, kch := guarded(v.bytes(kl))
		aad, ach := guarded(v.bytes(v.size()))
		plain := v.bytes(v.size())
		in := append(make([]byte, 0, len(plain)+v.r.Intn(60)), plain...)
		fr := &fakeRand{b: v.bytes(64), fail: v.p(10)}
		g := crypto.AES256GCM{Random: fr}
		var out []byte
		var err error
		v.log("Encrypt(%s, %s, key %s), random fails: %v", sh(plain), sh(aad), sh(key), fr.fail)
		v.call("C11", "Encrypt", func() { out, err = g.Encrypt(in, aad, key) })
		if kch() || ach() {
			v.bad("C25", "Encrypt changes the key or the associated data")
		}
		if kl != 32 || fr.fail {
			if err == nil || out != nil {
				v.bad("C11 C10", "Encrypt returns %s, %v", sh(out), err)
			}
			if kl != 32 {
				c := v.bytes(28 + v.r.Intn(40))
				if x, err := g.Decrypt(c, aad, key); err == nil || x != nil {
					v.bad("C11", "Decrypt with a key of %d bytes returns %s, %v", kl, sh(x), err)
				}
			}
			return
		}
		if err != nil || !bytes.Equal(out, refGCMSeal(key, aad, plain, fr.b[:12])) || len(fr.n) != 1 || fr.n[0] != 12 {
			v.bad("C11 C10", "Encrypt returns %s, %v instead of %s", sh(out), err, sh(refGCMSeal(key, aad, plain, fr.b[:12])))
			return
		}
		dec := func(what string, c, a, k []byte) {
			c = append([]byte{}, c...)
			want, ok := refGCMOpen(k, a, c)
			var x []byte
			var err error
			v.call("C11", "Decrypt", func() { x, err = g.Decrypt(c, a, k) })
			if ok != (err == nil) || !bytes.Equal(x, want) {
				v.bad("C11 C10", "Decrypt of %s returns %s, %v instead of %s, %v", what, sh(x), err, sh(want), ok)
			}
		}
		dec("the ciphertext", out, aad, key)
		c := append([]byte{}, out...)
		c[v.r.Intn(len(c))] ^= 1 << v.r.Intn(8)
		dec("a changed ciphertext", c, aad, key)
		dec("a truncated ciphertext", out[:v.r.Intn(len(out))], aad, key)
		dec("a prefix", v.bytes(v.r.Intn(40)), aad, key)
		dec("a ciphertext with other data", out, append(append([]byte{}, aad...), 0), key)
		if len(aad) > 0 {
			dec("a ciphertext with other data", out, aad[:len(aad)-1], key)
		}
		dec("a ciphertext under another key", out, aad, v.bytes(32))
		if kch() || ach() {
			v.bad("C25", "Decrypt changes the key or the associated data")
		}
	})
}

func TestVerifC11_gcm(t *testing.T) { gcmRun(t, "C11") }
func TestVerifC25_gcm(t *testing.T) { gcmRun(t, "C25") }
func TestVerifC26_gcm(t *testing.T) { gcmRun(t, "C26") }

func kwpRun(t *testing.T, prop string) {
	each(t, prop, 30*time.Second, 200000, func(v *run) {
		kl := []int{16, 32, 32}[v.r.Intn(3)]
		if v.p(5) {
			kl = []int{0, 8, 15, 17, 24, 31, 33, 64}[v.r.Intn(8)]
		}
		kek, kch := guarded(v.bytes(kl))
		var k *crypto.KWP
		var err error
		v.call("C12", "NewKWP", func() { k, err = crypto.NewKWP(kek) })
		if (err == nil) != (kl == 16 || kl == 32) {
			v.bad("C12", "NewKWP with %d bytes: %v", kl, err)
		}
		if err != nil {
			return
		}
		n := 16 + v.r.Intn(60)
		switch v.r.Intn(8) {
		case 0:
			n = v.r.Intn(20)
		case 1:
			n = 8150 + v.r.Intn(60)
		case 2:
			n = v.r.Intn(8300)
		}
		key, ch := guarded(v.bytes(n))
		v.log("Wrap(%s) under %s", sh(key), sh(kek))
		var w []byte
		v.call("C12", "Wrap", func() { w, err = k.Wrap(key) })
		if ch() || kch() {
			v.bad("C25 C12", "Wrap changes its argument")
		}
		if n < 16 || n > 8192 {
			if err == nil || w != nil {
				v.bad("C12", "Wrap of %d bytes returns %s, %v", n, sh(w), err)
			}
		} else if err != nil || !bytes.Equal(w, refKWPWrap(kek, key)) {
			v.bad("C12", "Wrap of %d bytes returns %s, %v instead of %s", n, sh(w), err, sh(refKWPWrap(kek, key)))
		}
		un := func(what string, in []byte) {
			x, ch := guarded(in)
			want, ok := refKWPUnwrap(kek, in)
			var got []byte
			var err error
			v.call("C12", "Unwrap of "+what+" "+sh(in), func() { got, err = k.Unwrap(x) })
			if ch() {
				v.bad("C25 C12", "Unwrap changes its argument")
			}
			if ok && (len(want) < 9) {
				return
			}
			if ok != (err == nil) || !bytes.Equal(got, want) {
				v.bad("C12", "Unwrap of %s (%s under %s) returns %s, %v instead of %s, %v", what, sh(in), sh(kek), sh(got), err, sh(want), ok)
			}
		}
		if err == nil {
			un("the wrapped key", w)
			c := append([]byte{}, w...)
			c[v.r.Intn(len(c))] ^= 1 << v.r.Intn(8)
			un("a changed wrapped key", c)
			un("a truncated wrapped key", w[:v.r.Intn(len(w))])
			un("an extended wrapped key", append(append([]byte{}, w...), make([]byte, 8)...))
		}
		un("random bytes", v.bytes(v.r.Intn(60)))
		un("random bytes", v.bytes(8*v.r.Intn(12)))
		if v.p(5) {
			un("a long input", v.bytes(8180+v.r.Intn(40)))
		}
		// bytes that unwrap to a chosen prefix, length and padding
		m := 8 * (2 + v.r.Intn(8))
		body := v.bytes(m)
		iv := []byte{0xA6, 0x59, 0x59, 0xA6, 0, 0, 0, 0}
		l := uint32(m - v.r.Intn(8))
		for i := int(l); i < m; i++ {
			body[i] = 0
		}
		switch v.r.Intn(7) {
		case 0:
			if int(l) < m {
				body[int(l)+v.r.Intn(m-int(l))] = 1 << v.r.Intn(8)
			}
		case 1:
			iv[v.r.Intn(4)] ^= 1 << v.r.Intn(8)
		case 2:
			l = uint32(m + 1 + v.r.Intn(9))
		case 3:
			l = uint32(m - 8 - v.r.Intn(m-8+1))
			for i := int(l); i < m; i++ {
				body[i] = 0
			}
		case 4:
			l = []uint32{0x80000000, 0xffffffff, 0x7fffffff, 0xfffffff8, uint32(m) | 0x01000000, uint32(m) | 0x80000000, 0}[v.r.Intn(7)]
		}
		iv[4], iv[5], iv[6], iv[7] = byte(l>>24), byte(l>>16), byte(l>>8), byte(l)
		un("bytes with chosen contents", refW(kek, iv, body))
	})
}

func TestVerifC12_kwp(t *testing.T) { kwpRun(t, "C12") }
func TestVerifC25_kwp(t *testing.T) { kwpRun(t, "C25") }
func TestVerifC26_kwp(t *testing.T) { kwpRun(t, "C26") }

func kmacRun(t *testing.T, prop string) {
	each(t, prop, 30*time.Second, 40000, func(v *run) {
		bits, min := 128, 16
		mk := crypto.NewKMAC128
		if v.p(60) {
			bits, min, mk = 256, 32, crypto.NewKMAC256
		}
		kl := min + v.r.Intn(200)
		switch v.r.Intn(12) {
		case 0:
			kl = 8180 + v.r.Intn(30)
		case 1:
			kl = 120 + v.r.Intn(400)
		}
		if v.r.Intn(600) == 0 {
			kl = 1<<21 - 3 + v.r.Intn(6)
		}
		key, ch := guarded(v.bytes(kl))
		custom, ch2 := guarded(v.bytes(v.size()))
		size := 8 + v.r.Intn(80)
		if v.p(5) {
			size = 8180 + v.r.Intn(30)
		}
		v.log("KMAC%d(key %s, size %d, customization %s)", bits, sh(key), size, sh(custom))
		h := mk(key, size, custom)
		if h.Size() != size {
			v.bad("C13", "Size is %d", h.Size())
		}
		var msg []byte
		sum := func() {
			pre, pch := guarded(v.bytes(v.r.Intn(9)))
			want := append(append([]byte{}, pre...), refKMAC(bits, key, msg, custom, size)...)
			var got []byte
			v.call("C13", "Sum", func() { got = h.Sum(pre[:len(pre):len(pre)]) })
			if pch() || ch() || ch2() {
				v.bad("C25", "Sum changes its arguments")
			}
			if !bytes.Equal(got, want) {
				v.bad("C13", "the MAC of %s is %s instead of %s", sh(msg), sh(got), sh(want))
			}
		}
		for n := 1 + v.r.Intn(7); n > 0; n-- {
			switch v.r.Intn(5) {
			case 0:
				sum()
			case 1:
				v.log("Reset")
				h.Reset()
				msg = nil
			default:
				b, bch := guarded(v.bytes(v.size()))
				v.log("Write(%s)", sh(b))
				m, err := h.Write(b)
				if m != len(b) || err != nil {
					v.bad("C13", "Write returns %d, %v", m, err)
				}
				if bch() {
					v.bad("C25", "Write changes its argument")
				}
				msg = append(msg, b...)
			}
		}
		sum()
		sum()
		// derived keys and tags
		k32 := v.bytes(32 + v.r.Intn(9))
		label := v.bytes(v.r.Intn(12))
		var ctx [][]byte
		var cat []byte
		for n := v.r.Intn(4); n > 0; n-- {
			b := v.bytes(v.r.Intn(20))
			ctx = append(ctx, b)
			cat = append(cat, b...)
		}
		want := refKMAC(256, k32, cat, label, size)
		if got := crypto.KMACKDF(size, k32, label, ctx...); !bytes.Equal(got, want) {
			v.bad("C13", "KMACKDF(%d, %x, %x, %x) is %s instead of %s", size, k32, label, ctx, sh(got), sh(want))
		}
		kl = 32
		if v.p(10) {
			kl = []int{0, 16, 31, 33, 64}[v.r.Intn(5)]
		}
		tk, tch := guarded(v.bytes(kl))
		tg, err := crypto.NewKMAC256Tagger(tk)
		if (err == nil) != (kl == 32) {
			v.bad("C13", "NewKMAC256Tagger with %d bytes: %v", kl, err)
		}
		if err != nil {
			return
		}
		d := v.bytes(v.size())
		got, err := tg.Tag(d)
		if err != nil || !bytes.Equal(got, refTag(tk, d)) {
			v.bad("C13 C17", "Tag(%s) under %x is %s, %v instead of %s", sh(d), tk, sh(got), err, sh(refTag(tk, d)))
		}
		s := v.pick("", "a", "label", "wörd", "<&>\"")
		got, err = tg.Tag(s)
		if err != nil || !bytes.Equal(got, refTag(tk, s)) {
			v.bad("C13", "Tag(%q) differs", s)
		}
		if _, err := tg.Tag(func() {}); err == nil {
			v.bad("C13 C26", "Tag of a value without encoding succeeds")
		}
		if tch() {
			v.bad("C25", "Tag changes its key")
		}
	})
}

func TestVerifC13_kmac(t *testing.T) { kmacRun(t, "C13") }
func TestVerifC25_kmac(t *testing.T) { kmacRun(t, "C25") }
func TestVerifC26_kmac(t *testing.T) { kmacRun(t, "C26") }
func TestVerifC17_kmac(t *testing.T) { kmacRun(t, "C17") }

func pwRun(t *testing.T, prop string) {
	seen := map[string]bool{}
	each(t, prop, 30*time.Second, 20000, func(v *run) {
		h := crypto.NewPasswordHasher()
		var p string
		var s []byte
		var err error
		v.call("C14", "GeneratePassword", func() { p, s, err = h.GeneratePassword() })
		if err != nil {
			v.bad("C14", "GeneratePassword: %v", err)
			return
		}
		raw, e := base64.RawURLEncoding.DecodeString(p)
		if e != nil || len(raw) != 32 || seen[p] {
			v.bad("C14", "the password %q is not the encoding of 32 fresh bytes", p)
		}
		seen[p] = true
		ref := func(p string, salt []byte) []byte {
			return pbkdf2.Key([]byte(p), salt, 10000, 32, sha3.New256)
		}
		if len(s) != 40 || seen[string(s[:8])] || !bytes.Equal(s[8:], ref(p, s[:8])) {
			v.bad("C14", "the record %x is not a fresh salt and the hash of %q", s, p)
			return
		}
		seen[string(s[:8])] = true
		cmp := func(what, p string, s []byte) {
			want := len(s) >= 8 && bytes.Equal(s[8:], ref(p, s[:8]))
			x, ch := guarded(s)
			var got bool
			v.call("C14", "Compare of "+what, func() { got = h.Compare(p, x) })
			if got != want {
				v.bad("C14", "Compare(%q, %x) (%s) is %v", p, s, what, got)
			}
			if ch() {
				v.bad("C25", "Compare changes its argument")
			}
		}
		cmp("the password", p, s)
		cmp("a longer password", p+v.pick("A", "\x00", "=", "\n", " "), s)
		cmp("a prefix of the password", p[:v.r.Intn(len(p))], s)
		cmp("the empty password", "", s)
		b := []byte(p)
		b[v.r.Intn(len(b))] ^= byte(1 << v.r.Intn(7))
		cmp("another password", string(b), s)
		cmp("a truncated record", p, s[:v.r.Intn(len(s))])
		cmp("a longer record", p, append(append([]byte{}, s...), 0))
		c := append([]byte{}, s...)
		c[v.r.Intn(len(c))] ^= 1 << v.r.Intn(8)
		cmp("a changed record", p, c)
		q := v.pick("", "x", "pässwörd", string(v.bytes(70)), " pw ", "Pw", "pw\x00")
		sl := v.bytes(8)
		rec := append(append([]byte{}, sl...), ref(q, sl)...)
		cmp("a chosen password", q, rec)
		cmp("another case", "pw", rec)
	})
}

func TestVerifC14_pw(t *testing.T) { pwRun(t, "C14") }
func TestVerifC25_pw(t *testing.T) { pwRun(t, "C25") }
func TestVerifC26_pw(t *testing.T) { pwRun(t, "C26") }

func cryptorRun(t *testing.T, prop string) {
	seen := map[string]bool{}
	each(t, prop, 25*time.Second, 100000, func(v *run) {
		kl := 32
		if v.p(10) {
			kl = []int{0, 16, 24, 31, 33, 64}[v.r.Intn(6)]
		}
		kek, kch := guarded(v.bytes(kl))
		c, err := crypto.NewAESCryptor(kek)
		if (err == nil) != (kl == 32) {
			v.bad("C10 C23", "NewAESCryptor with %d bytes: %v", kl, err)
		}
		if err != nil {
			return
		}
		plain, pch := guarded(v.bytes(v.size()))
		ctx, cch := guarded(v.bytes(v.size()))
		v.log("Encrypt(%s, %s) under %s", sh(plain), sh(ctx), sh(kek))
		var w, ct []byte
		v.call("C10", "Encrypt", func() { w, ct, err = c.Encrypt(plain, ctx) })
		if err != nil {
			v.bad("C10", "Encrypt: %v", err)
			return
		}
		var out []byte
		dek, ok := refOpen(kek, ctx, w, ct, &out)
		if !ok || !bytes.Equal(out, plain) || len(dek) != 32 {
			v.bad("C10 C23", "the sealing does not open to the plaintext under the wrapping key and the context")
			return
		}
		if seen[string(dek)] || seen[string(ct[len(ct)-12:])] {
			v.bad("C10 C09", "the data key or the nonce was used before")
		}
		seen[string(dek)], seen[string(ct[len(ct)-12:])] = true, true
		if bytes.Contains(ct, dek) || bytes.Contains(w, dek) {
			v.bad("C10", "the data key is returned")
		}
		for _, known := range [][]byte{plain, ctx, kek} {
			enc, _ := json.Marshal(known)
			if bytes.Contains(known, dek) || bytes.Contains(enc, dek) {
				v.bad("C10 C09", "the data key is part of the arguments")
			}
		}
		dec := func(what string, x interface{}, w, ct []byte) {
			var want, got []byte
			_, ok := refOpen(kek, x, w, ct, &want)
			w2, ch1 := guarded(w)
			ct2, ch2 := guarded(ct)
			var err error
			v.call("C10", "Decrypt of "+what, func() { err = c.Decrypt(&got, x, w2, ct2) })
			if ch1() || ch2() {
				v.bad("C25 C10", "Decrypt changes its arguments")
			}
			if ok != (err == nil) || ok && !bytes.Equal(got, want) || !ok && got != nil && what != "a plaintext that is no encoding" {
				v.bad("C10 C05", "Decrypt of %s returns %s, %v instead of %s, %v", what, sh(got), err, sh(want), ok)
			}
		}
		dec("the sealing", ctx, w, ct)
		dec("the sealing again", ctx, w, ct)
		dec("another context", append(append([]byte{}, ctx...), 1), w, ct)
		dec("a string context", string(ctx), w, ct)
		x := append([]byte{}, ct...)
		x[v.r.Intn(len(x))] ^= 1 << v.r.Intn(8)
		dec("a changed ciphertext", ctx, w, x)
		dec("a short ciphertext", ctx, w, ct[:v.r.Intn(len(ct))])
		y := append([]byte{}, w...)
		y[v.r.Intn(len(y))] ^= 1 << v.r.Intn(8)
		dec("a changed wrapped key", ctx, y, ct)
		dec("a short wrapped key", ctx, w[:v.r.Intn(len(w))], ct)
		dec("a longer wrapped key", ctx, append(append([]byte{}, w...), v.bytes(1+v.r.Intn(16))...), ct)
		dec("a wrapped key with a prefix", ctx, append(v.bytes(1+v.r.Intn(16)), w...), ct)
		dec("a longer ciphertext", ctx, w, append(append([]byte{}, ct...), v.bytes(1+v.r.Intn(30))...))
		dec("a ciphertext with a prefix", ctx, w, append(v.bytes(1+v.r.Intn(30)), ct...))
		dec("no wrapped key", ctx, nil, ct)
		dec("no ciphertext", ctx, w, nil)
		// a wrapped key of another size than 32, and a plaintext that is no encoding
		k := v.bytes([]int{16, 24, 31, 33, 64}[v.r.Intn(5)])
		dec("a wrapped key of another size", ctx, refKWPWrap(kek, k), ct)
		aad, _ := json.Marshal([]byte(ctx))
		dec("a plaintext that is no encoding", ctx, w, refGCMSeal(dek, aad, v.bytes(9), v.bytes(12)))
		if _, _, err := c.Encrypt(func() {}, ctx); err == nil {
			v.bad("C10", "Encrypt of a value without encoding succeeds")
		}
		if _, _, err := c.Encrypt(plain, func() {}); err == nil {
			v.bad("C10", "Encrypt with a context without encoding succeeds")
		}
		if err := c.Decrypt(&out, func() {}, w, ct); err == nil {
			v.bad("C10", "Decrypt with a context without encoding succeeds")
		}
		if pch() || cch() || kch() {
			v.bad("C25", "Encrypt or Decrypt changes its arguments")
		}
	})
}

func TestVerifC10_cryptor(t *testing.T) { cryptorRun(t, "C10") }
func TestVerifC25_cryptor(t *testing.T) { cryptorRun(t, "C25") }
func TestVerifC26_cryptor(t *testing.T) { cryptorRun(t, "C26") }
func TestVerifC23_cryptor(t *testing.T) { cryptorRun(t, "C23") }

// the exported sealing of the record types
func sealRun(t *testing.T, prop string) {
	each(t, prop, 25*time.Second, 100000, func(v *run) {
		kek := v.bytes(32)
		c, err := crypto.NewAESCryptor(kek)
		if err != nil {
			return
		}
		o := uuid.Must(uuid.NewV4())
		q := uuid.Must(uuid.NewV4())
		pl, ch1 := guarded(v.bytes(v.size()))
		ad, ch2 := guarded(v.bytes(v.size()))
		obj := data.Object{Plaintext: pl, AssociatedData: ad}
		wk, so, err := obj.Seal(o, &c)
		if err != nil {
			v.bad("C10 C04", "Object.Seal: %v", err)
			return
		}
		r, err := so.Unseal(wk, &c)
		if err != nil || !bytes.Equal(r.Plaintext, pl) || !bytes.Equal(r.AssociatedData, ad) {
			v.bad("C04 C10", "Object.Unseal differs: %v", err)
		}
		so2 := so
		so2.OID = q
		if _, err := so2.Unseal(wk, &c); err == nil {
			v.bad("C05 C10", "an object sealed for %v is accepted for %v", o, q)
		}
		so2 = so
		so2.AssociatedData = append(append([]byte{}, ad...), 1)
		if _, err := so2.Unseal(wk, &c); err == nil {
			v.bad("C05 C10", "an object is accepted with other associated data")
		}
		acc := data.NewAccess(wk)
		gs := []string{"a", "", "b", "c"}[:v.r.Intn(5)]
		acc.AddGroups(gs...)
		sa, err := acc.Seal(o, &c)
		if err != nil {
			v.bad("C10 C06", "Access.Seal: %v", err)
			return
		}
		ra, err := sa.Unseal(&c)
		if err != nil || !sameSet(ra.Groups, acc.Groups) || !bytes.Equal(ra.WrappedDEK, wk) {
			v.bad("C06 C10", "Access.Unseal differs: %v", err)
		}
		sa.OID = q
		if _, err := sa.Unseal(&c); err == nil {
			v.bad("C05 C10", "an access list sealed for %v is accepted for %v", o, q)
		}
		if ch1() || ch2() {
			v.bad("C25", "Seal or Unseal changes the object")
		}
	})
}

func TestVerifC04_seal(t *testing.T) { sealRun(t, "C04") }
func TestVerifC05_seal(t *testing.T) { sealRun(t, "C05") }
func TestVerifC06_seal(t *testing.T) { sealRun(t, "C06") }
func TestVerifC10_seal(t *testing.T) { sealRun(t, "C10") }
func TestVerifC25_seal(t *testing.T) { sealRun(t, "C25") }
