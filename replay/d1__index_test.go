package d1_test

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	json "github.com/json-iterator/go"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

const dtNode = io.DataTypeSealedNode

type idx struct {
	*run
	s    *store
	i    index.SecureIndex
	ids  *idents
	iek  []byte
	ctx  context.Context
	kws  []string
	idfs []string
	m    map[string][]string
	k1   map[string][]byte
	k2   map[string][]byte
	lab  map[string]map[uint64]string
	back map[string]string // label -> keyword
	seen map[string]bool
}

// lookalikes is a string and variants of it that are other strings.
func lookalikes(v *run) []string {
	w := v.pick("a", "word", "Key Word", "Zoë", "x y", "0", "1", "12", strings.Repeat("n", 64), strings.Repeat("k", 200), strings.Repeat("ab", 150))
	all := []string{w + " ", " " + w, "\t" + w, w + "\n", w + "\x00", "\x00" + w, strings.ToUpper(w), strings.ToLower(w), strings.Title(w), w + w, w + "\xff", w + "\u00a0", "\ufeff" + w, w + ".", w + "0", "0" + w, w[:len(w)-1], w + "e\u0301", w + "\u00e9", w + ",", strings.ReplaceAll(w, " ", ""), strings.ReplaceAll(w, " ", "  ")}
	out := []string{w}
	seen := map[string]bool{w: true}
	for len(out) < 5 {
		o := all[v.r.Intn(len(all))]
		if !seen[o] {
			seen[o] = true
			out = append(out, o)
		}
	}
	return out
}

func newIdx(v *run) *idx {
	x := &idx{run: v, s: newStore(), ctx: context.Background(), iek: v.key(), m: map[string][]string{}, k1: map[string][]byte{}, k2: map[string][]byte{}, lab: map[string]map[uint64]string{}, back: map[string]string{}, seen: map[string]bool{}}
	x.ids = &idents{m: map[string]id.Identity{
		"ok":    {ID: "alice", Scopes: id.ScopeIndex},
		"all":   {ID: "bob", Scopes: id.ScopeAll},
		"no":    {ID: "carol", Scopes: id.ScopeAll &^ id.ScopeIndex},
		"group": {ID: "dora", Scopes: id.ScopeNone, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: id.ScopeAll}}},
	}, errs: map[string]error{"bad": index.ErrNodeNotFound}}
	x.kws = []string{"", "a", "ab", "b", "key word", "wörd"}[v.r.Intn(3):]
	if v.p(50) { // words that are easily taken for one another
		x.kws = append([]string{}, lookalikes(v)...)
	}
	x.idfs = []string{"", "1", "2", "12", "a", "i<&>\"", "id1"}
	if v.p(30) {
		x.idfs = []string{"1"}
		for _, s := range lookalikes(v) {
			if utf8.ValidString(s) {
				x.idfs = append(x.idfs, s)
			}
		}
	}
	k := key.NewStatic(key.Keys{KEK: v.bytes(32), AEK: v.bytes(32), TEK: v.bytes(32), IEK: x.iek})
	i, err := index.NewSecureIndex(x.ctx, &k, x.s, x.ids)
	if err != nil {
		v.bad("C23 C16", "NewSecureIndex fails: %v", err)
		v.skip()
	}
	x.i = i
	for _, w := range x.kws {
		x.k1[w] = refKDF(32, x.iek, "label", []byte(w))
		x.k2[w] = refKDF(32, x.iek, "id", []byte(w))
		x.lab[w] = map[uint64]string{}
	}
	return x
}

func (x *idx) label(w string, n uint64) string {
	if l, ok := x.lab[w][n]; ok {
		return l
	}
	buf := make([]byte, binary.MaxVarintLen64)
	l := string(refTag(x.k1[w], buf[:binary.PutUvarint(buf, n)]))
	x.lab[w][n] = l
	x.back[l] = w
	return l
}

// node decodes what is stored at the label of a counter.
func (x *idx) node(w string, n uint64) (nd data.Node, ok, present bool) {
	l := x.label(w, n)
	b, present := x.s.m[rec{l, dtNode}]
	if !present {
		return nd, false, false
	}
	var sn data.SealedNode
	if json.Unmarshal(b, &sn) != nil {
		return nd, false, true
	}
	_, ok = refOpen(x.k2[w], []byte(l), sn.WrappedKey, sn.Ciphertext, &nd)
	return nd, ok, true
}

// walk is what a search must find; ok is false if a node on the way is not authentic.
func (x *idx) walk(w string) (ids []string, ctrs []uint64, ok bool) {
	ids = []string{}
	at := uint64(0)
	for len(ids) < 5000 {
		nd, ok, present := x.node(w, at)
		if !present {
			return ids, ctrs, true
		}
		if !ok {
			return nil, nil, false
		}
		ids = append(ids, nd.Identifier)
		ctrs = append(ctrs, at)
		at = nd.NextCounter
	}
	return nil, nil, false
}

func eqs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// events checks every storage access since event n0.
func (x *idx) events(n0 int, w string) {
	for _, e := range x.s.ev[n0:] {
		if e.dt != dtNode {
			x.bad("C17 C09 C16", "%s of data type %d", e.op, e.dt)
		}
		known := false
		for n := uint64(0); n < 400 && !known; n++ {
			known = x.label(w, n) == e.id
			if n > uint64(len(x.s.ev)+4) {
				break
			}
		}
		if !known {
			x.bad("C17 C09", "%s at %x, which is no MAC of a counter under the label key of %q", e.op, e.id, w)
			x.bad("C16", "%s at %x, which does not belong to %q", e.op, e.id, w)
			continue
		}
		if e.op != "put" && e.op != "update" {
			continue
		}
		var sn struct{ Ciphertext, WrappedKey []byte }
		if !strict(e.data, &sn) {
			x.bad("C09 C17", "the stored node is not a sealed record: %s", e.data)
			continue
		}
		var nd data.Node
		dek, ok := refOpen(x.k2[w], []byte(e.id), sn.WrappedKey, sn.Ciphertext, &nd)
		if !ok {
			x.bad("C17 C09 C23 C10", "the stored node is not sealed for its storage key under the node key of %q", w)
			continue
		}
		if x.seen[string(dek)] {
			x.bad("C09 C10 C17", "the data key of a node was used before")
		}
		x.seen[string(dek)] = true
	}
}

func (x *idx) step(mode string) {
	op := x.pick("add", "add", "add", "search", "delete")
	if mode == "del" {
		op = x.pick("delete", "search", "delete", "add")
	}
	w := x.kws[x.r.Intn(len(x.kws))]
	if x.p(60) {
		w = x.kws[0]
	}
	idf := x.idfs[x.r.Intn(len(x.idfs))]
	if x.p(40) {
		idf = "1"
	}
	tok := x.pick("ok", "ok", "ok", "ok", "ok", "all")
	if x.p(8) {
		tok = x.pick("no", "group", "bad", "unknown")
	}
	if x.p(10) {
		tok = "other"
		x.ids.m[tok] = id.Identity{ID: x.pick("alice", "eve", ""), Scopes: x.scope()}
		if x.p(20) {
			delete(x.ids.m, tok)
		}
		x.log("%s has scopes %d", tok, x.ids.m[tok].Scopes)
	}
	who, known := x.ids.m[tok]
	tampered := false
	x.s.fault = nil
	switch mode {
	case "fault":
		if x.p(40) {
			f := &fault{op: x.pick("get", "get", "put", "update", "delete"), dt: -1, nth: x.r.Intn(3), err: x.faultErr(), after: x.p(40)}
			if f.op != "get" {
				f.nth = x.r.Intn(2)
			}
			x.s.fault = f
			x.log("fault: %s number %d from now fails with %v (after taking effect: %v)", f.op, f.nth, f.err, f.after)
		}
	case "tamper":
		tampered = x.p(60) && x.tamper(w)
	}
	want, ctrs, ok := x.walk(w)
	before := x.s.snap()
	all := map[string][]string{}
	for _, o := range x.kws {
		l, _, ok := x.walk(o)
		if ok {
			all[o] = l
		}
	}
	n0 := len(x.s.ev)
	var got []string
	var err error
	x.log("%s(%q, %q, %q)", op, tok, w, idf)
	x.call("C16", op, func() {
		switch op {
		case "add":
			err = x.i.Add(x.ctx, tok, w, idf)
		case "search":
			got, err = x.i.Search(x.ctx, tok, w)
		case "delete":
			err = x.i.Delete(x.ctx, tok, w, idf)
		}
	})
	x.log("-> %q %v", got, err)
	flt := x.s.fault
	x.s.fault = nil
	hit := flt != nil && flt.hit
	after := x.s.snap()
	d := diff(before, after)
	if err != nil && got != nil {
		x.bad("C17 C08 C16", "a failed search returns %q", got)
	}
	if !known || who.Scopes&id.ScopeIndex == 0 {
		we := index.ErrNotAuthorized
		if !known {
			we = index.ErrNotAuthenticated
		}
		if !errors.Is(err, we) {
			x.bad("C17", "%s of a caller that may not: %v instead of %v", op, err, we)
		}
		if len(x.s.ev) > n0 {
			x.bad("C17", "%s of a caller that may not uses the storage", op)
		}
		if tampered {
			x.skip()
		}
		return
	}
	if errors.Is(err, index.ErrNotAuthenticated) || errors.Is(err, index.ErrNotAuthorized) {
		x.bad("C17", "%s refuses an authorized caller: %v", op, err)
	}
	if !tampered {
		x.events(n0, w)
	}
	if op == "search" && len(d) > 0 {
		x.bad("C16", "search changes storage")
	}
	if hit {
		nf := flt.op == "get" && errors.Is(flt.err, io.ErrNotFound)
		if err == nil && !nf {
			x.bad("C08", "%s succeeds although a %s of storage failed with %v", op, flt.op, flt.err)
		}
		if flt.op == "put" && errors.Is(flt.err, io.ErrAlreadyExists) && err != nil && !errors.Is(err, index.ErrNodeAlreadyExists) {
			x.bad("C08", "%s answers a collision with %v", op, err)
		}
		if flt.op == "update" && errors.Is(flt.err, io.ErrNotFound) && err != nil && !errors.Is(err, index.ErrNodeNotFound) {
			x.bad("C08", "%s answers a missing node with %v", op, err)
		}
		for _, o := range x.kws {
			if l, _, ok := x.walk(o); o != w && (!ok || !eqs(l, all[o])) {
				x.bad("C16", "a failed %s of %q changes what is found for %q", op, w, o)
			}
		}
		x.skip()
	}
	if !ok {
		// a node that is not authentic is on the way: it must not yield an identifier
		if op != "delete" && err == nil {
			x.bad("C17", "%s succeeds (%q) although a node of %q was altered or moved", op, got, w)
		}
		x.skip()
	}
	if tampered {
		if op == "search" && (err != nil || !eqs(got, want)) {
			x.bad("C17 C16", "search finds %q (%v), the authentic nodes hold %q", got, err, want)
		}
		x.skip()
	}
	if err != nil {
		x.bad("C16 C08", "%s fails: %v", op, err)
		x.skip()
	}
	for _, k := range d {
		if k.dt != dtNode || x.back[k.id] != w {
			x.bad("C16", "%s of %q changes the record %x/%d", op, w, k.id, k.dt)
		}
	}
	switch op {
	case "add":
		x.m[w] = append(x.m[w], idf)
	case "delete":
		var l []string
		for _, s := range x.m[w] {
			if s != idf {
				l = append(l, s)
			}
		}
		x.m[w] = l
	case "search":
		if !eqs(got, x.m[w]) {
			x.bad("C16", "search of %q finds %q instead of %q", w, got, x.m[w])
		}
	}
	_ = ctrs
	for _, o := range x.kws {
		l, _, ok := x.walk(o)
		if !ok || !eqs(l, x.m[o]) {
			x.bad("C16", "after %s of %q the nodes of %q hold %q (authentic: %v) instead of %q", op, w, o, l, ok, x.m[o])
		}
	}
}

func (x *idx) tamper(w string) bool {
	_, ctrs, ok := x.walk(w)
	if !ok || len(ctrs) == 0 {
		return false
	}
	at := ctrs[x.r.Intn(len(ctrs))]
	k := rec{x.label(w, at), dtNode}
	switch x.r.Intn(6) {
	case 0, 1:
		m := x.mutate(x.s.m[k])
		if m == nil {
			return false
		}
		x.s.m[k] = m
		x.log("storage changes node %d of %q", at, w)
	case 2:
		b := ctrs[x.r.Intn(len(ctrs))]
		if b == at {
			return false
		}
		x.s.m[k] = append([]byte{}, x.s.m[rec{x.label(w, b), dtNode}]...)
		x.log("storage copies node %d of %q over node %d", b, w, at)
	case 3:
		o := x.kws[x.r.Intn(len(x.kws))]
		b, ok := x.s.m[rec{x.label(o, at), dtNode}]
		if !ok || o == w {
			return false
		}
		x.s.m[k] = append([]byte{}, b...)
		x.log("storage copies node %d of %q to %q", at, o, w)
	case 4:
		l := x.s.old[k]
		x.s.m[k] = append([]byte{}, l[x.r.Intn(len(l))]...)
		x.log("storage brings back an old node %d of %q", at, w)
	case 5:
		kk := x.k2[w]
		ctx := []byte(x.label(w, at))
		if x.p(50) {
			kk = x.k1[w]
		} else {
			ctx = []byte(x.label(w, at+1))
		}
		wk, ct := x.refSeal(kk, ctx, data.Node{Identifier: "forged", NextCounter: at + 1})
		b, _ := json.Marshal(data.SealedNode{Ciphertext: ct, WrappedKey: wk})
		x.s.m[k] = b
		x.log("storage plants a node %d of %q sealed under another key or for another place", at, w)
	}
	return true
}

func idxRun(t *testing.T, prop string) {
	each(t, prop, 40*time.Second, 20000, func(v *run) {
		x := newIdx(v)
		x.s.set(rec{"other", dtObj}, []byte("untouched"))
		for j := 0; j < 14; j++ {
			x.step("")
		}
		for j := 0; j < 10; j++ {
			x.step("del")
		}
		switch v.r.Intn(3) {
		case 0:
			for j := 0; j < 12; j++ {
				x.step("fault")
			}
		case 1:
			for j := 0; j < 12; j++ {
				x.step("tamper")
			}
		}
	})
}

// idxLong walks chains whose counters need more than one byte.
func idxLong(t *testing.T, prop string) {
	each(t, prop, 40*time.Second, 4, func(v *run) {
		x := newIdx(v)
		w := x.kws[0]
		n := 140 + v.r.Intn(200)
		v.log("%d additions to %q", n, w)
		for j := 0; j < n; j++ {
			s := fmt.Sprintf("i%d", j%(1+v.r.Intn(40)))
			if err := x.i.Add(x.ctx, "ok", w, s); err != nil {
				x.bad("C16", "add number %d fails: %v", j, err)
				v.skip()
			}
			x.m[w] = append(x.m[w], s)
		}
		check := func() {
			var got []string
			var err error
			x.call("C16", "search", func() { got, err = x.i.Search(x.ctx, "ok", w) })
			if err != nil || !eqs(got, x.m[w]) {
				x.bad("C16", "search finds %d of %d identifiers (%v): %q instead of %q", len(got), len(x.m[w]), err, got, x.m[w])
			}
		}
		check()
		for j := 0; j < 10; j++ {
			s := fmt.Sprintf("i%d", v.r.Intn(20))
			v.log("delete %q", s)
			if err := x.i.Delete(x.ctx, "ok", w, s); err != nil {
				x.bad("C16", "delete fails: %v", err)
			}
			l := []string{}
			for _, o := range x.m[w] {
				if o != s {
					l = append(l, o)
				}
			}
			x.m[w] = l
			check()
			if v.p(50) {
				v.log("add %q", s)
				if err := x.i.Add(x.ctx, "ok", w, s); err != nil {
					x.bad("C16", "add fails: %v", err)
				}
				x.m[w] = append(x.m[w], s)
				check()
			}
		}
		for k := range x.s.m {
			found := false
			for j := uint64(0); j < 500 && !found; j++ {
				found = k.id == x.label(w, j)
			}
			if !found {
				x.bad("C17", "a node is stored at %x, which is no MAC of a counter", k.id)
			}
		}
	})
}

func TestVerifC16_index(t *testing.T) { idxRun(t, "C16"); idxLong(t, "C16") }
func TestVerifC17_index(t *testing.T) { idxRun(t, "C17"); idxLong(t, "C17") }
func TestVerifC08_index(t *testing.T) { idxRun(t, "C08") }
func TestVerifC09_index(t *testing.T) { idxRun(t, "C09") }
func TestVerifC10_index(t *testing.T) { idxRun(t, "C10") }
func TestVerifC26_index(t *testing.T) { idxRun(t, "C26") }
func TestVerifC23_index(t *testing.T) {
	idxRun(t, "C23")
	each(t, "C23", 5*time.Second, 500, func(v *run) {
		n := []int{0, 16, 31, 32, 33, 64}[v.r.Intn(6)]
		p := keyProv{k: key.Keys{KEK: v.bytes(v.r.Intn(40)), AEK: v.bytes(32), TEK: v.bytes(32), IEK: v.bytes(n)}}
		if v.p(20) {
			p.err = errCustom
		}
		v.log("NewSecureIndex with an index key of %d bytes, provider error %v", n, p.err)
		_, err := index.NewSecureIndex(context.Background(), p, newStore(), &idents{})
		if (err == nil) != (n == 32 && p.err == nil) {
			v.bad("C23", "NewSecureIndex returns %v", err)
		}
	})
}

var _ = bytes.Equal
