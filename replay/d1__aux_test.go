// Shared parts of the replay drivers: an independent reference of the cryptographic formats, a storage
// that records, fails and tampers, and the reporting of failing inputs. The drivers only run when an
// obligation of a property is not discharged (and in the thorough tier): they look for a concrete input
// of the real code, through its exported interface, that breaks the property.
package d1_test

import (
	"bytes"
	"context"
	"crypto/aes"
	"crypto/cipher"
	"encoding/base64"
	"encoding/binary"
	stdjson "encoding/json"
	"errors"
	"fmt"
	goio "io"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	json "github.com/json-iterator/go"
	"golang.org/x/crypto/sha3"

	"github.com/cybercryptio/d1-lib/v2/io"
)

// ---- reporting ----

type run struct {
	t     *testing.T
	prop  string
	seed  int64
	r     *rand.Rand
	trace []string
	end   time.Time
}

type stop struct{}

// each runs f for many seeds, until the time is up.
func each(t *testing.T, prop string, d time.Duration, max int, f func(v *run)) {
	if os.Getenv("VERIF_REPLAY_TIER") == "thorough" {
		d, max = 6*d, 10*max
	}
	end := time.Now().Add(d)
	shard, _ := strconv.Atoi(os.Getenv("VERIF_REPLAY_SHARD"))
	base := 1 + 1000000*int64(shard)
	for n := 0; n < max && time.Now().Before(end); n++ {
		v := &run{t: t, prop: prop, seed: base + int64(n), end: end}
		v.r = rand.New(rand.NewSource(v.seed))
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stop); !ok {
						panic(e)
					}
				}
			}()
			f(v)
		}()
		if t.Failed() {
			return
		}
	}
}

func (v *run) log(format string, a ...interface{}) {
	v.trace = append(v.trace, fmt.Sprintf(format, a...))
}

// bad reports a broken property (one of those in props, others are ignored).
func (v *run) bad(props, format string, a ...interface{}) {
	for _, p := range strings.Fields(props) {
		if p == v.prop {
			tr := v.trace
			if len(tr) > 40 {
				tr = tr[len(tr)-40:]
			}
			fmt.Printf("FAILING-INPUT property=%s driver=%s seed=%d: %s; history: %s\n", v.prop, v.t.Name(), v.seed, clip(fmt.Sprintf(format, a...), 800), clip(strings.Join(tr, "; "), 4000))
			v.t.Fail()
			panic(stop{})
		}
	}
}

// skip ends this seed: the history left the domain in which the reference predicts the outcome.
func (v *run) skip() { panic(stop{}) }

// call runs f and reports a panic.
func (v *run) call(props string, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); ok {
				panic(e)
			}
			v.bad("C26 "+props, "%s panics: %v", what, e)
			v.skip()
		}
	}()
	f()
}

func clip(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// sh shows a value shortly.
func sh(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x…(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func (v *run) p(percent int) bool { return v.r.Intn(100) < percent }
func (v *run) pick(s ...string) string {
	return s[v.r.Intn(len(s))]
}
func (v *run) bytes(n int) []byte {
	b := make([]byte, n)
	v.r.Read(b)
	return b
}
func (v *run) size() int {
	switch v.r.Intn(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 8 + v.r.Intn(10)
	case 3:
		return 1000 + v.r.Intn(4000)
	default:
		if v.r.Intn(300) == 0 {
			return 1<<16 + v.r.Intn(1<<12)
		}
		return v.r.Intn(80)
	}
}

// key is 32 bytes, seldom ones that stand out.
func (v *run) key() []byte {
	switch v.r.Intn(25) {
	case 0:
		return make([]byte, 32)
	case 1:
		return bytes.Repeat([]byte{0xff}, 32)
	case 2:
		return append(make([]byte, 16), v.bytes(16)...)
	}
	return v.bytes(32)
}

// guarded returns a copy of b with spare capacity holding a known pattern, and a function telling whether
// b or the spare capacity have changed.
func guarded(b []byte) ([]byte, func() bool) {
	const extra = 64
	buf := make([]byte, len(b)+extra)
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = 0xA5
	}
	want := append([]byte{}, buf...)
	return buf[:len(b)], func() bool { return !bytes.Equal(buf, want) }
}

func guardedStrings(s []string) ([]string, func() bool) {
	buf := make([]string, len(s)+4)
	copy(buf, s)
	for i := len(s); i < len(buf); i++ {
		buf[i] = "\x00guard"
	}
	want := append([]string{}, buf...)
	return buf[:len(s)], func() bool {
		for i := range buf {
			if buf[i] != want[i] {
				return true
			}
		}
		return false
	}
}

// ---- reference of the formats ----

func refKWPUnwrap(kek, in []byte) ([]byte, bool) {
	if len(in) < 24 || len(in) > 8200 || len(in)%8 != 0 {
		return nil, false
	}
	blk, err := aes.NewCipher(kek)
	if err != nil {
		return nil, false
	}
	n := len(in)/8 - 1
	a := append([]byte{}, in[:8]...)
	r := append([]byte{}, in[8:]...)
	for j := 5; j >= 0; j-- {
		for i := n; i >= 1; i-- {
			var x [16]byte
			t := uint64(n*j + i)
			binary.BigEndian.PutUint64(x[:8], binary.BigEndian.Uint64(a)^t)
			copy(x[8:], r[8*(i-1):8*i])
			blk.Decrypt(x[:], x[:])
			copy(a, x[:8])
			copy(r[8*(i-1):], x[8:])
		}
	}
	if binary.BigEndian.Uint32(a) != 0xA65959A6 {
		return nil, false
	}
	m := int(binary.BigEndian.Uint32(a[4:]))
	if m > len(r) || m <= len(r)-8 {
		return nil, false
	}
	for _, b := range r[m:] {
		if b != 0 {
			return nil, false
		}
	}
	return r[:m], true
}

func refW(kek, iv, key []byte) []byte {
	blk, _ := aes.NewCipher(kek)
	r := append([]byte{}, key...)
	for len(r)%8 != 0 {
		r = append(r, 0)
	}
	a := append([]byte{}, iv...)
	n := len(r) / 8
	for j := 0; j <= 5; j++ {
		for i := 1; i <= n; i++ {
			var x [16]byte
			copy(x[:], a)
			copy(x[8:], r[8*(i-1):8*i])
			blk.Encrypt(x[:], x[:])
			binary.BigEndian.PutUint64(a, binary.BigEndian.Uint64(x[:8])^uint64(n*j+i))
			copy(r[8*(i-1):], x[8:])
		}
	}
	return append(a, r...)
}

func refKWPWrap(kek, key []byte) []byte {
	iv := make([]byte, 8)
	binary.BigEndian.PutUint32(iv, 0xA65959A6)
	binary.BigEndian.PutUint32(iv[4:], uint32(len(key)))
	return refW(kek, iv, key)
}

// refGCMOpen opens ciphertext || tag || nonce.
func refGCMOpen(key, aad, in []byte) ([]byte, bool) {
	if len(key) != 32 || len(in) < 28 {
		return nil, false
	}
	blk, _ := aes.NewCipher(key)
	g, _ := cipher.NewGCM(blk)
	out, err := g.Open(nil, in[len(in)-12:], in[:len(in)-12], aad)
	return out, err == nil
}

func refGCMSeal(key, aad, plain, nonce []byte) []byte {
	blk, _ := aes.NewCipher(key)
	g, _ := cipher.NewGCM(blk)
	return append(g.Seal(nil, nonce, plain, aad), nonce...)
}

// refOpen opens a sealed value into out; it returns the data key.
func refOpen(kek []byte, ctx interface{}, wrapped, ct []byte, out interface{}) ([]byte, bool) {
	k, ok := refKWPUnwrap(kek, wrapped)
	if !ok {
		return nil, false
	}
	aad, err := json.Marshal(ctx)
	if err != nil {
		return nil, false
	}
	p, ok := refGCMOpen(k, aad, ct)
	if !ok {
		return nil, false
	}
	return k, json.Unmarshal(p, out) == nil
}

func (v *run) refSeal(kek []byte, ctx, val interface{}) (wrapped, ct []byte) {
	k := v.bytes(32)
	aad, _ := json.Marshal(ctx)
	p, _ := json.Marshal(val)
	return refKWPWrap(kek, k), refGCMSeal(k, aad, p, v.bytes(12))
}

func refEnc(v uint64, left bool) []byte {
	b := []byte{byte(v)}
	for v >>= 8; v > 0; v >>= 8 {
		b = append([]byte{byte(v)}, b...)
	}
	if left {
		return append([]byte{byte(len(b))}, b...)
	}
	return append(b, byte(len(b)))
}

// refKMAC is KMAC of SP 800-185 written down from cSHAKE.
func refKMAC(bits int, key, msg, custom []byte, size int) []byte {
	var c sha3.ShakeHash
	w := 136
	if bits == 128 {
		c, w = sha3.NewCShake128([]byte("KMAC"), custom), 168
	} else {
		c = sha3.NewCShake256([]byte("KMAC"), custom)
	}
	x := append(refEnc(uint64(w), true), refEnc(uint64(len(key))*8, true)...)
	x = append(x, key...)
	for len(x)%w != 0 {
		x = append(x, 0)
	}
	c.Write(x)
	c.Write(msg)
	c.Write(refEnc(uint64(size)*8, false))
	out := make([]byte, size)
	c.Read(out)
	return out
}

func refKDF(size int, key []byte, label string, context []byte) []byte {
	return refKMAC(256, key, context, []byte(label), size)
}

func refTag(key []byte, data interface{}) []byte {
	b, _ := json.Marshal(data)
	return refKMAC(256, key, nil, b, 32)
}

// ---- storage ----

type rec struct {
	id string
	dt io.DataType
}

type event struct {
	op   string
	id   string
	dt   io.DataType
	data []byte
	err  error
	hit  bool
}

type fault struct {
	op    string // put, get, update, delete
	dt    int    // data type, -1 for any
	nth   int    // which matching call
	err   error
	after bool // the call takes effect and then fails
	plant []byte
	hit   bool
}

// store is a reference storage with faults. Data is copied in and out.
type store struct {
	m     map[rec][]byte
	old   map[rec][][]byte
	ev    []event
	fault *fault
	after func(s *store, op string, id []byte, dt io.DataType) // called after each call
}

func newStore() *store {
	return &store{m: map[rec][]byte{}, old: map[rec][][]byte{}}
}

func (s *store) snap() map[rec]string {
	o := map[rec]string{}
	for k, v := range s.m {
		o[k] = string(v)
	}
	return o
}

func (s *store) set(k rec, b []byte) {
	s.m[k] = append([]byte{}, b...)
	s.old[k] = append(s.old[k], append([]byte{}, b...))
}

func (s *store) do(op string, id []byte, dt io.DataType, data []byte) (out []byte, err error) {
	k := rec{string(id), dt}
	f := s.fault
	hit := false
	if f != nil && !f.hit && f.op == op && (f.dt < 0 || f.dt == int(dt)) {
		if f.nth == 0 {
			f.hit, hit = true, true
			if f.plant != nil {
				s.m[k] = append([]byte{}, f.plant...)
			}
		} else {
			f.nth--
		}
	}
	if !hit || f.after || f.plant != nil {
		old, ok := s.m[k]
		switch op {
		case "get":
			if !ok {
				err = io.ErrNotFound
			}
			out = append([]byte{}, old...)
		case "put":
			if ok {
				err = io.ErrAlreadyExists
			} else {
				s.set(k, data)
			}
		case "update":
			if !ok {
				err = io.ErrNotFound
			} else {
				s.set(k, data)
			}
		case "delete":
			delete(s.m, k)
		}
	}
	if hit && f.plant == nil {
		out, err = nil, f.err
	}
	d := data
	if op == "get" {
		d = out
	}
	s.ev = append(s.ev, event{op, string(id), dt, append([]byte{}, d...), err, hit})
	if s.after != nil {
		s.after(s, op, id, dt)
	}
	if err != nil {
		out = nil
	}
	return out, err
}

func (s *store) Put(_ context.Context, id []byte, dt io.DataType, b []byte) error {
	_, err := s.do("put", id, dt, b)
	return err
}
func (s *store) Get(_ context.Context, id []byte, dt io.DataType) ([]byte, error) {
	return s.do("get", id, dt, nil)
}
func (s *store) Update(_ context.Context, id []byte, dt io.DataType, b []byte) error {
	_, err := s.do("update", id, dt, b)
	return err
}
func (s *store) Delete(_ context.Context, id []byte, dt io.DataType) error {
	_, err := s.do("delete", id, dt, nil)
	return err
}

// diff lists the records that differ.
func diff(a, b map[rec]string) []rec {
	var d []rec
	for k, x := range a {
		if y, ok := b[k]; !ok || x != y {
			d = append(d, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, k)
		}
	}
	sort.Slice(d, func(i, j int) bool { return fmt.Sprint(d[i]) < fmt.Sprint(d[j]) })
	return d
}

func showRecs(d []rec) string {
	var s []string
	for _, k := range d {
		s = append(s, fmt.Sprintf("%x/%d", k.id, k.dt))
	}
	return strings.Join(s, ",")
}

var errCustom = errors.New("storage unavailable")

func (v *run) faultErr() error {
	switch v.r.Intn(6) {
	case 0:
		return io.ErrNotFound
	case 1:
		return io.ErrAlreadyExists
	case 2:
		return fmt.Errorf("wrapped: %w", io.ErrNotFound)
	case 3:
		// none of these says that a record is missing or taken
		std := []error{context.DeadlineExceeded, context.Canceled, goio.EOF, goio.ErrUnexpectedEOF, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrDeadlineExceeded, syscall.EAGAIN, syscall.ENOENT, errors.New(io.ErrNotFound.Error())}
		e := std[v.r.Intn(len(std))]
		if v.p(25) {
			return fmt.Errorf("storage: %w", e)
		}
		return e
	}
	return errCustom
}

// strict decodes a stored record, refusing unknown fields; it reports whether the record has exactly
// fields of the names of the struct.
func strict(b []byte, out interface{}) bool {
	d := stdjson.NewDecoder(bytes.NewReader(b))
	d.DisallowUnknownFields()
	if d.Decode(out) != nil {
		return false
	}
	var m map[string]stdjson.RawMessage
	if d.More() || stdjson.Unmarshal(b, &m) != nil {
		return false
	}
	for k := range m {
		switch strings.ToLower(k) {
		case "oid", "uid", "gid", "ciphertext", "wrappedkey", "associateddata":
		default:
			return false
		}
	}
	return true
}

// mutate returns a tampered version of a stored record.
func (v *run) mutate(b []byte) []byte {
	out := append([]byte{}, b...)
	var m map[string]interface{}
	switch v.r.Intn(7) {
	case 0:
		if len(out) > 0 {
			out[v.r.Intn(len(out))] ^= 1 << v.r.Intn(8)
		}
	case 1:
		if len(out) > 0 {
			out = out[:v.r.Intn(len(out))]
		}
	case 2:
		return []byte(v.pick("", "null", "{}", "[]", "0", `""`, `{"Ciphertext":null,"WrappedKey":null}`, `{"Ciphertext":"AAAA","WrappedKey":"AAAA"}`, `{"Ciphertext":5}`, "{\"OID\":\"zz\"}", "{{"))
	default:
		if stdjson.Unmarshal(b, &m) != nil {
			return nil
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) == 0 {
			return nil
		}
		k := ks[v.r.Intn(len(ks))]
		s, ok := m[k].(string)
		raw, err := base64.StdEncoding.DecodeString(s)
		if !ok || err != nil {
			m[k] = v.pick("x", "", "00000000-0000-0000-0000-000000000000")
			if v.p(50) {
				delete(m, k)
			}
		} else {
			switch v.r.Intn(4) {
			case 0:
				if len(raw) > 0 {
					raw[v.r.Intn(len(raw))] ^= 1 << v.r.Intn(8)
				} else {
					raw = []byte{1}
				}
			case 1:
				if len(raw) > 0 {
					raw = raw[:v.r.Intn(len(raw))]
				}
			case 2:
				raw = v.bytes(v.r.Intn(50))
			case 3:
				raw = append(raw, v.bytes(1+v.r.Intn(9))...)
			}
			m[k] = base64.StdEncoding.EncodeToString(raw)
		}
		out, _ = stdjson.Marshal(m)
	}
	return out
}
