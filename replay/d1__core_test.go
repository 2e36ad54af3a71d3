package d1_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/gofrs/uuid"
	json "github.com/json-iterator/go"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

type idents struct {
	m    map[string]id.Identity
	errs map[string]error
	n    int
}

func (s *idents) GetIdentity(_ context.Context, token string) (id.Identity, error) {
	s.n++
	if e := s.errs[token]; e != nil {
		// a provider is free in what it returns besides an error
		return id.Identity{ID: "alice", Scopes: id.ScopeAll}, e
	}
	i, ok := s.m[token]
	if !ok {
		return id.Identity{}, errors.New("no such token")
	}
	g := map[string]id.AccessGroup{}
	for k, x := range i.Groups {
		g[k] = x
	}
	i.Groups = g
	return i, nil
}

type core struct {
	*run
	s       *store
	d       d1.D1
	ids     *idents
	toks    []string
	oids    []uuid.UUID
	keys    key.Keys
	seenKey map[string]bool
	seenNon map[string]bool
	secrets [][]byte
	ctx     context.Context
}

const (
	dtObj = io.DataTypeSealedObject
	dtAcc = io.DataTypeSealedAccess
)

var groupPool []string
var groupPool0 = []string{"alice", "bob", "carol", "g1", "g2", "g3", "", "g1 ", "G1", "g\"1<&>", "grüppe"}

func (v *run) scope() id.Scope {
	switch v.r.Intn(6) {
	case 0:
		return id.ScopeAll &^ (1 << v.r.Intn(9))
	case 1:
		return 1 << v.r.Intn(9)
	case 2:
		return id.Scope(v.r.Intn(512))
	case 3:
		return id.ScopeNone
	}
	return id.ScopeAll
}

func utf8Only(l []string) (out []string) {
	for _, s := range l {
		if utf8.ValidString(s) {
			out = append(out, s)
		}
	}
	return
}

func newCore(v *run) *core {
	c := &core{run: v, s: newStore(), ctx: context.Background(), seenKey: map[string]bool{}, seenNon: map[string]bool{}}
	groupPool = groupPool0
	if v.p(30) {
		groupPool = append([]string{"", "alice", "bob"}, utf8Only(lookalikes(v))...)
		groupPool = append(groupPool, utf8Only(lookalikes(v))...)
	}
	c.keys = key.Keys{KEK: v.key(), AEK: v.key(), TEK: v.key(), IEK: v.key()}
	c.ids = &idents{m: map[string]id.Identity{}, errs: map[string]error{}}
	for i := 0; i < 5; i++ {
		c.user(i)
	}
	c.toks = append(c.toks, "tok0", "tok1", "tok2", "tok3", "tok4", "", "bad", "unknown")
	c.ids.errs["bad"] = []error{io.ErrNotFound, d1.ErrNotAuthorized, errCustom, d1.ErrAccessNotFound}[v.r.Intn(4)]
	k := key.NewStatic(c.keys)
	d, err := d1.New(c.ctx, &k, c.s, c.ids)
	if err != nil {
		v.bad("C23 C04", "New fails with valid keys: %v", err)
		v.skip()
	}
	c.d = d
	return c
}

// user decides who the holder of token number i is.
func (c *core) user(i int) {
	v := c.run
	n := fmt.Sprintf("tok%d", i)
	delete(c.ids.errs, n)
	x := id.Identity{ID: groupPool[v.r.Intn(len(groupPool))], Scopes: v.scope(), Groups: map[string]id.AccessGroup{}}
	if i < 2 {
		x.Scopes = id.ScopeAll
	}
	for j := v.r.Intn(4); j > 0; j-- {
		g := groupPool[v.r.Intn(len(groupPool))]
		if g != x.ID {
			x.Groups[g] = id.AccessGroup{ID: g, Scopes: v.scope()}
		}
	}
	if v.p(10) {
		x.Groups = nil
	}
	c.ids.m[n] = x
	v.log("%s is %q scopes %d groups %v", n, x.ID, x.Scopes, x.Groups)
}

// churn lets the identity provider change its mind about a token: the user has other scopes or
// groups from now on, or the token is not valid any more.
func (c *core) churn() {
	i := 1 + c.r.Intn(4)
	n := fmt.Sprintf("tok%d", i)
	x, ok := c.ids.m[n]
	switch {
	case !ok || c.p(25):
		c.user(i)
	case c.p(30):
		delete(c.ids.m, n)
		c.log("%s is not valid any more", n)
	case c.p(30):
		c.ids.errs[n] = errCustom
		c.log("%s is refused from now on", n)
	default:
		x.Scopes = c.scope()
		if c.p(50) {
			x.Groups = nil
		}
		c.ids.m[n] = x
		c.log("%s is %q scopes %d groups %v from now on", n, x.ID, x.Scopes, x.Groups)
	}
}

// access decodes the stored access list of oid; ok tells whether it was sealed for oid under the access key.
func (c *core) access(o uuid.UUID) (a data.Access, ok, present bool) {
	b, present := c.s.m[rec{string(o.Bytes()), dtAcc}]
	if !present {
		return a, false, false
	}
	var sa data.SealedAccess
	if json.Unmarshal(b, &sa) != nil {
		return a, false, true
	}
	_, ok = refOpen(c.keys.AEK, o.Bytes(), sa.WrappedKey, sa.Ciphertext, &a)
	return a, ok, true
}

func (c *core) object(o uuid.UUID, wdek []byte) (x data.Object, ok, present bool) {
	b, present := c.s.m[rec{string(o.Bytes()), dtObj}]
	if !present {
		return x, false, false
	}
	var so data.SealedObject
	if json.Unmarshal(b, &so) != nil {
		return x, false, true
	}
	x.AssociatedData = so.AssociatedData
	_, ok = refOpen(c.keys.KEK, append(append([]byte{}, o.Bytes()...), so.AssociatedData...), wdek, so.Ciphertext, &x.Plaintext)
	return x, ok, true
}

func listed(i id.Identity, groups map[string]struct{}, sc id.Scope) bool {
	for g := range groups {
		s := id.Scope(0)
		if g == i.ID {
			s = i.Scopes
		} else if x, ok := i.Groups[g]; ok {
			s = x.Scopes
		} else {
			continue
		}
		if s&sc == sc {
			return true
		}
	}
	return false
}

func sameSet(a map[string]struct{}, b map[string]struct{}) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return false
		}
	}
	return true
}

func names(m map[string]struct{}) string {
	var s []string
	for k := range m {
		s = append(s, fmt.Sprintf("%q", k))
	}
	sort.Strings(s)
	return "{" + strings.Join(s, ",") + "}"
}

// writes checks every byte string handed to storage since event n0.
func (c *core) writes(n0 int, only uuid.UUID, ad []byte, isEnc bool) {
	wd := map[string][]byte{} // object id -> data key wrapped
	type objw struct {
		o  uuid.UUID
		so data.SealedObject
	}
	var objs []objw
	for _, e := range c.s.ev[n0:] {
		if len(e.id) != 16 || (e.dt != dtObj && e.dt != dtAcc) {
			c.bad("C09", "%s of an id or type that is no object's: %x/%d", e.op, e.id, e.dt)
			continue
		}
		if e.op != "put" && e.op != "update" {
			continue
		}
		for _, s := range c.secrets {
			if len(s) >= 12 && bytes.Contains(e.data, s) {
				c.bad("C09", "plaintext in the stored record %x/%d", e.id, e.dt)
			}
		}
		o := uuid.FromBytesOrNil([]byte(e.id))
		if e.dt == dtAcc {
			var sa struct {
				OID                    uuid.UUID
				Ciphertext, WrappedKey []byte
			}
			if !strict(e.data, &sa) {
				c.bad("C09 C03", "the stored access list is not a sealed record: %s", e.data)
				continue
			}
			if sa.OID != o {
				c.bad("C09", "the stored access list names %v, not %v", sa.OID, o)
			}
			var a data.Access
			dek, ok := refOpen(c.keys.AEK, o.Bytes(), sa.WrappedKey, sa.Ciphertext, &a)
			if !ok {
				c.bad("C09 C23 C05 C10 C04 C06 C03", "the stored access list of %v is not sealed for it under the access key", o)
				continue
			}
			c.fresh(dek, sa.Ciphertext, "access list")
			wd[e.id] = a.WrappedDEK
		} else {
			var so struct {
				OID                        uuid.UUID
				Ciphertext, AssociatedData []byte
			}
			if !strict(e.data, &so) {
				c.bad("C09 C03", "the stored object is not a sealed record: %s", e.data)
				continue
			}
			if so.OID != o {
				c.bad("C09", "the stored object names %v, not %v", so.OID, o)
			}
			if !bytes.Equal(so.AssociatedData, ad) {
				c.bad("C09 C04", "the stored object carries associated data %s instead of %s", sh(so.AssociatedData), sh(ad))
			}
			objs = append(objs, objw{o, data.SealedObject{Ciphertext: so.Ciphertext, AssociatedData: so.AssociatedData}})
		}
	}
	for _, w := range objs {
		if k, ok := wd[string(w.o.Bytes())]; ok {
			var p []byte
			dek, ok := refOpen(c.keys.KEK, append(append([]byte{}, w.o.Bytes()...), w.so.AssociatedData...), k, w.so.Ciphertext, &p)
			if !ok {
				c.bad("C09 C23 C05 C10 C04 C03", "the stored object %v is not sealed for it under the key of the stored access list", w.o)
				continue
			}
			c.fresh(dek, w.so.Ciphertext, "object")
		}
	}
}

func (c *core) fresh(dek, ct []byte, what string) {
	if c.seenKey[string(dek)] {
		c.bad("C09 C10", "the data key of the %s was used before", what)
	}
	c.seenKey[string(dek)] = true
	n := string(ct[len(ct)-12:])
	if c.seenNon[n] {
		c.bad("C10 C11", "the nonce of the %s was used before", what)
	}
	c.seenNon[n] = true
}

var coreOps = []string{"encrypt", "update", "decrypt", "delete", "groups", "add", "remove", "authorize"}
var coreScope = map[string]id.Scope{"encrypt": 1, "decrypt": 2, "update": 4, "delete": 8, "groups": 64, "authorize": 64, "add": 128, "remove": 128}

func (c *core) groups() []string {
	n := c.r.Intn(4)
	if c.p(5) {
		n = 20
	}
	var g []string
	for ; n > 0; n-- {
		g = append(g, groupPool[c.r.Intn(len(groupPool))])
	}
	return g
}

// tamper changes stored bytes behind the library's back.
func (c *core) tamper() {
	if len(c.oids) == 0 {
		return
	}
	o := c.oids[c.r.Intn(len(c.oids))]
	q := c.oids[c.r.Intn(len(c.oids))]
	dt := io.DataType(c.r.Intn(2))
	k := rec{string(o.Bytes()), dt}
	switch c.r.Intn(9) {
	case 0, 1, 2:
		b, ok := c.s.m[k]
		if !ok {
			return
		}
		m := c.mutate(b)
		if m == nil {
			return
		}
		c.log("storage changes %v/%d to %s", o, dt, clip(string(m), 200))
		c.s.m[k] = m
	case 3:
		b, ok := c.s.m[rec{string(q.Bytes()), dt}]
		if !ok || q == o {
			return
		}
		c.log("storage copies record %d of %v to %v", dt, q, o)
		c.s.m[k] = append([]byte{}, b...)
	case 4:
		b, ok := c.s.m[rec{string(o.Bytes()), 1 - dt}]
		if !ok {
			return
		}
		c.log("storage copies record %d of %v over record %d", 1-dt, o, dt)
		c.s.m[k] = append([]byte{}, b...)
	case 5:
		l := c.s.old[k]
		if len(l) == 0 {
			return
		}
		c.log("storage brings back an old version of %v/%d", o, dt)
		c.s.m[k] = append([]byte{}, l[c.r.Intn(len(l))]...)
	case 6:
		c.log("storage loses %v/%d", o, dt)
		delete(c.s.m, k)
	case 7:
		// an access list sealed under a wrong key, or for another ID
		kek := [][]byte{c.keys.KEK, c.keys.TEK, make([]byte, 32)}[c.r.Intn(3)]
		x := o
		if c.p(40) {
			kek, x = c.keys.AEK, c.oids[c.r.Intn(len(c.oids))]
		}
		all := map[string]struct{}{}
		for _, g := range groupPool {
			all[g] = struct{}{}
		}
		a, _, _ := c.access(x)
		if x == o && bytes.Equal(kek, c.keys.AEK) {
			return
		}
		a.Groups = all
		w, ct := c.refSeal(kek, x.Bytes(), a)
		b, _ := json.Marshal(data.SealedAccess{OID: o, Ciphertext: ct, WrappedKey: w})
		c.log("storage plants an access list for %v sealed under another key or ID", o)
		c.s.m[rec{string(o.Bytes()), dtAcc}] = b
	case 8:
		// an object sealed under a key of the storage's own
		w, ct := c.refSeal(c.keys.KEK, append(append([]byte{}, o.Bytes()...), 1), []byte("forged"))
		_ = w
		b, _ := json.Marshal(data.SealedObject{OID: o, Ciphertext: ct, AssociatedData: []byte{1}})
		c.log("storage plants a forged object for %v", o)
		c.s.m[rec{string(o.Bytes()), dtObj}] = b
	}
}

// step performs one operation and compares it with what the properties say.
func (c *core) step(withFault bool) {
	op := coreOps[c.r.Intn(len(coreOps))]
	if len(c.oids) == 0 || c.p(8) {
		op = "encrypt"
	}
	tok := c.toks[c.r.Intn(len(c.toks))]
	if c.p(30) {
		tok = c.toks[0]
	}
	o := uuid.Must(uuid.NewV4())
	if len(c.oids) > 0 && c.p(95) {
		o = c.oids[c.r.Intn(len(c.oids))]
	}
	if c.p(2) {
		o = uuid.Nil
	}
	gs, gsChanged := guardedStrings(c.groups())
	pl, plChanged := guarded(c.bytes(c.size()))
	ad, adChanged := guarded(c.bytes(c.size()))
	if c.p(5) {
		pl = nil
	}
	if c.p(10) {
		ad = nil
	}
	obj := &data.Object{Plaintext: pl, AssociatedData: ad}
	plCopy, adCopy := append([]byte{}, pl...), append([]byte{}, ad...)
	c.s.fault = nil
	if withFault {
		f := &fault{op: c.pick("put", "get", "get", "update", "update", "delete", "delete"), dt: c.r.Intn(3) - 1, err: c.faultErr(), after: c.p(40), nth: 0}
		if f.op == "put" {
			f.op = c.pick("put", "get")
		}
		if op == "encrypt" {
			f.op = "put"
			if c.p(40) {
				f.plant = []byte(`{"planted":true}`)
			}
		}
		c.s.fault = f
		c.log("fault: the next %s of type %d fails with %v (after taking effect: %v, planted: %v)", f.op, f.dt, f.err, f.after, f.plant != nil)
	}
	before := c.s.snap()
	n0 := len(c.s.ev)
	idn, authErr := c.ids.m[tok], c.ids.errs[tok]
	_, known := c.ids.m[tok]
	authed := known && authErr == nil
	acc, accOK, accPresent := c.access(o)
	oldObj, objOK, objPresent := c.object(o, acc.WrappedDEK)
	c.log("%s(token %q, oid %v, groups %q, plaintext %s, data %s)", op, tok, o, gs, sh(pl), sh(ad))
	// during a deletion the access list must not go before the object
	objKey, accKey := rec{string(o.Bytes()), dtObj}, rec{string(o.Bytes()), dtAcc}
	_, hadAcc := before[accKey]
	c.s.after = nil
	if op == "delete" && hadAcc {
		c.s.after = func(s *store, _ string, _ []byte, _ io.DataType) {
			if _, ok := s.m[objKey]; ok {
				if _, ok := s.m[accKey]; !ok {
					c.bad("C07", "during a deletion of %v its object is still stored while its access list is gone", o)
				}
			}
		}
	}
	var err error
	var res data.Object
	var noid uuid.UUID
	var rg map[string]struct{}
	c.call("", op, func() {
		switch op {
		case "encrypt":
			noid, err = c.d.Encrypt(c.ctx, tok, obj, gs...)
		case "update":
			err = c.d.Update(c.ctx, tok, o, obj)
		case "decrypt":
			res, err = c.d.Decrypt(c.ctx, tok, o)
		case "delete":
			err = c.d.Delete(c.ctx, tok, o)
		case "groups":
			rg, err = c.d.GetAccessGroups(c.ctx, tok, o)
		case "add":
			err = c.d.AddGroupsToAccess(c.ctx, tok, o, gs...)
		case "remove":
			err = c.d.RemoveGroupsFromAccess(c.ctx, tok, o, gs...)
		case "authorize":
			err = c.d.AuthorizeIdentity(c.ctx, tok, o)
		}
	})
	c.s.after = nil
	flt := c.s.fault
	c.s.fault = nil
	hit := flt != nil && flt.hit
	c.log("-> %v", err)
	after := c.s.snap()
	d := diff(before, after)
	if plChanged() || adChanged() || gsChanged() || !bytes.Equal(obj.Plaintext, plCopy) || !bytes.Equal(obj.AssociatedData, adCopy) {
		c.bad("C25", "%s changes its arguments", op)
	}
	c.secrets = nil
	if len(plCopy) > 0 {
		c.secrets = [][]byte{plCopy}
	}
	c.writes(n0, o, adCopy, op == "encrypt")
	if err != nil && (noid != uuid.Nil || rg != nil || res.Plaintext != nil || res.AssociatedData != nil) {
		c.bad("C01 C02 C05 C08", "%s fails with %v but returns data", op, err)
	}
	// the gate
	if !authed {
		if !errors.Is(err, d1.ErrNotAuthenticated) {
			c.bad("C01", "%s of a caller that is not authenticated: %v", op, err)
		}
		if len(c.s.ev) > n0 {
			c.bad("C01", "%s of a caller that is not authenticated uses the storage: %s", op, c.s.ev[n0].op)
		}
		return
	}
	sc := coreScope[op]
	if idn.Scopes&sc != sc {
		if !errors.Is(err, d1.ErrNotAuthorized) {
			c.bad("C01", "%s of a caller without the scope: %v", op, err)
		}
		if len(c.s.ev) > n0 {
			c.bad("C01", "%s of a caller without the scope uses the storage: %s", op, c.s.ev[n0].op)
		}
		return
	}
	if errors.Is(err, d1.ErrNotAuthenticated) {
		c.bad("C01", "%s of an authenticated caller: %v", op, err)
	}
	if hit && err == nil && !(op == "delete" && flt.op == "get" && flt.dt != int(dtObj) && errors.Is(flt.err, io.ErrNotFound)) {
		c.bad("C08", "%s succeeds although a %s of storage failed", op, flt.op)
		if flt.plant == nil {
			c.skip()
		}
	}
	for _, e := range c.s.ev[n0:] {
		if e.err == nil || flt != nil && e.hit && flt.plant == nil {
			want := error(nil)
			switch {
			case e.err == nil:
				continue
			case errors.Is(e.err, io.ErrNotFound) && (e.op == "get" || e.op == "update"):
				want = map[io.DataType]error{dtObj: d1.ErrObjectNotFound, dtAcc: d1.ErrAccessNotFound}[e.dt]
			case errors.Is(e.err, io.ErrAlreadyExists) && e.op == "put":
				want = map[io.DataType]error{dtObj: d1.ErrObjectAlreadyExists, dtAcc: d1.ErrAccessAlreadyExists}[e.dt]
			}
			if want != nil && err != nil && !errors.Is(err, want) {
				c.bad("C08", "%s answers a %s that failed with %v with %v instead of %v", op, e.op, e.err, err, want)
			}
		}
	}
	if op == "encrypt" {
		if flt != nil && flt.plant != nil && hit {
			if err == nil {
				c.bad("C08", "encrypt succeeds although its ID is taken")
			}
			found := false
			for _, x := range c.s.m {
				found = found || bytes.Equal(x, flt.plant)
			}
			if !found {
				c.bad("C03", "encrypt overwrites a stored record")
			}
			c.cleanup(before)
			return
		}
		for _, k := range d {
			if _, was := before[k]; was {
				c.bad("C03", "encrypt changes the stored record %x/%d", k.id, k.dt)
			}
		}
		if hit {
			c.cleanup(before)
			return
		}
		if err != nil {
			if errors.Is(err, d1.ErrNotAuthorized) {
				c.bad("C02", "encrypt refuses an authorized caller")
			}
			c.bad("C04 C03", "encrypt fails: %v", err)
			return
		}
		if len(d) != 2 {
			c.bad("C03", "encrypt changes the records %s", showRecs(d))
		}
		if _, ok := before[rec{string(noid.Bytes()), dtObj}]; ok || noid == uuid.Nil {
			c.bad("C03", "encrypt returns the ID %v that is not fresh", noid)
		}
		a, ok, _ := c.access(noid)
		if !ok {
			c.bad("C03 C04 C05 C23", "encrypt of %v stores no access list for it under the access key", noid)
			c.skip()
		}
		want := map[string]struct{}{idn.ID: {}}
		for _, g := range gs {
			want[g] = struct{}{}
		}
		if !sameSet(a.Groups, want) {
			c.bad("C03 C06", "encrypt stores the groups %s instead of %s", names(a.Groups), names(want))
		}
		x, ok, _ := c.object(noid, a.WrappedDEK)
		if !ok || !bytes.Equal(x.Plaintext, plCopy) || !bytes.Equal(x.AssociatedData, adCopy) {
			c.bad("C03 C04 C05 C23", "encrypt stores %s/%s instead of %s/%s (authentic: %v)", sh(x.Plaintext), sh(x.AssociatedData), sh(plCopy), sh(adCopy), ok)
		}
		c.oids = append(c.oids, noid)
		return
	}
	for _, k := range d {
		if k.id != string(o.Bytes()) {
			c.bad("C03 C04 C06 C07 C02 C05", "%s of %v changes the record %x/%d", op, o, k.id, k.dt)
		}
	}
	if op == "decrypt" || op == "groups" || op == "authorize" {
		if len(d) > 0 {
			c.bad("C02 C04 C06", "%s changes storage: %s", op, showRecs(d))
		}
	}
	if hit && flt.op == "get" {
		if op == "delete" && err == nil {
			if len(d) > 0 {
				c.bad("C07", "deleting an ID without access list changes storage: %s", showRecs(d))
			}
			return
		}
		if len(d) > 0 && flt.dt == int(dtAcc) {
			c.bad("C08 C02", "%s changes storage although reading the access list failed", op)
		}
		return
	}
	if !accPresent {
		if op == "delete" {
			if err != nil {
				c.bad("C07", "deleting an ID without access list fails: %v", err)
			}
			if len(d) > 0 {
				c.bad("C07 C02", "deleting an ID without access list changes storage: %s", showRecs(d))
			}
			return
		}
		if !errors.Is(err, d1.ErrAccessNotFound) {
			c.bad("C08 C02 C05", "%s of an ID without access list: %v", op, err)
		}
		if len(d) > 0 {
			c.bad("C02 C05", "%s of an ID without access list changes storage: %s", op, showRecs(d))
		}
		return
	}
	if !accOK {
		if err == nil {
			c.bad("C05 C02", "%s accepts an access list that was not sealed for %v under the access key", op, o)
		}
		if len(d) > 0 {
			c.bad("C05 C02", "%s changes storage after an access list that does not authenticate: %s", op, showRecs(d))
		}
		return
	}
	if !listed(idn, acc.Groups, sc) {
		if !errors.Is(err, d1.ErrNotAuthorized) {
			c.bad("C02", "%s by a caller without a listed ID that carries the scope (list %s): %v", op, names(acc.Groups), err)
		}
		if len(d) > 0 {
			c.bad("C02", "%s by a caller that is not listed changes storage: %s", op, showRecs(d))
		}
		return
	}
	if errors.Is(err, d1.ErrNotAuthorized) {
		c.bad("C02", "%s refuses a listed caller that carries the scope (list %s)", op, names(acc.Groups))
		return
	}
	if hit {
		// a failed write or deletion; deletions can be retried by the same caller
		if op == "delete" {
			var e2 error
			c.call("", "delete", func() { e2 = c.d.Delete(c.ctx, tok, o) })
			_, a1 := c.s.m[objKey]
			_, a2 := c.s.m[accKey]
			if e2 != nil || a1 || a2 {
				c.bad("C07", "the deletion of %v cannot be retried after a failed %s: %v, object stored %v, access list stored %v", o, flt.op, e2, a1, a2)
			}
		}
		c.cleanup(before)
		return
	}
	na, naOK, _ := c.access(o)
	nobj, nobjOK, _ := c.object(o, na.WrappedDEK)
	unchanged := func(k rec) bool { a, ok := before[k]; b, ok2 := after[k]; return ok == ok2 && a == b }
	switch op {
	case "groups":
		if err != nil || !sameSet(rg, acc.Groups) {
			c.bad("C06", "the groups of %v are read as %s (%v) instead of %s", o, names(rg), err, names(acc.Groups))
		}
	case "authorize":
		if err != nil {
			c.bad("C02 C06", "authorize fails: %v", err)
		}
	case "decrypt":
		switch {
		case !objPresent:
			if !errors.Is(err, d1.ErrObjectNotFound) {
				c.bad("C08 C05", "decrypt of a missing object: %v", err)
			}
		case !objOK:
			if err == nil {
				c.bad("C05", "decrypt returns %s/%s from an object that does not authenticate", sh(res.Plaintext), sh(res.AssociatedData))
			}
		default:
			if err != nil || !bytes.Equal(res.Plaintext, oldObj.Plaintext) || !bytes.Equal(res.AssociatedData, oldObj.AssociatedData) {
				c.bad("C04 C06", "decrypt returns %s/%s (%v) instead of %s/%s", sh(res.Plaintext), sh(res.AssociatedData), err, sh(oldObj.Plaintext), sh(oldObj.AssociatedData))
			}
		}
	case "update":
		if !objPresent {
			if !errors.Is(err, d1.ErrObjectNotFound) {
				c.bad("C08", "update of a missing object: %v", err)
			}
			if _, ok := after[objKey]; ok {
				c.bad("C08 C04", "update creates an object")
			}
			return
		}
		if err != nil {
			c.bad("C04 C02", "update fails: %v", err)
			return
		}
		if !naOK || !sameSet(na.Groups, acc.Groups) {
			c.bad("C04 C06 C05", "update changes the groups from %s to %s", names(acc.Groups), names(na.Groups))
		}
		if !nobjOK || !bytes.Equal(nobj.Plaintext, plCopy) || !bytes.Equal(nobj.AssociatedData, adCopy) {
			c.bad("C04 C05", "update stores %s/%s instead of %s/%s (authentic: %v)", sh(nobj.Plaintext), sh(nobj.AssociatedData), sh(plCopy), sh(adCopy), nobjOK)
		}
	case "add", "remove":
		if err != nil {
			c.bad("C06", "%s fails: %v", op, err)
			return
		}
		want := map[string]struct{}{}
		for g := range acc.Groups {
			want[g] = struct{}{}
		}
		for _, g := range gs {
			if op == "add" {
				want[g] = struct{}{}
			} else {
				delete(want, g)
			}
		}
		if !naOK || !sameSet(na.Groups, want) {
			c.bad("C06", "%s %q turns %s into %s (authentic: %v)", op, gs, names(acc.Groups), names(na.Groups), naOK)
		}
		if !bytes.Equal(na.WrappedDEK, acc.WrappedDEK) || !unchanged(objKey) {
			c.bad("C06", "%s changes the object or its key", op)
		}
	case "delete":
		if err != nil {
			c.bad("C07", "delete fails: %v", err)
			return
		}
		_, a1 := after[objKey]
		_, a2 := after[accKey]
		if a1 || a2 {
			c.bad("C07", "after a deletion the object is stored: %v, the access list is stored: %v", a1, a2)
		}
	}
}

// cleanup brings storage back to a state in which the reference predicts the next operation.
func (c *core) cleanup(before map[rec]string) {
	c.s.m = map[rec][]byte{}
	for k, b := range before {
		c.s.m[k] = []byte(b)
	}
}

func coreRun(t *testing.T, prop string) {
	each(t, prop, 35*time.Second, 40000, func(v *run) {
		c := newCore(v)
		for i := 0; i < 14; i++ {
			if i > 3 && v.p(25) && prop != "C07" {
				c.tamper()
			}
			if i > 1 && v.p(20) {
				c.churn()
			}
			c.step(i > 2 && v.p(30))
		}
	})
}

func TestVerifC01_core(t *testing.T) { coreRun(t, "C01") }
func TestVerifC02_core(t *testing.T) { coreRun(t, "C02") }
func TestVerifC03_core(t *testing.T) { coreRun(t, "C03") }
func TestVerifC04_core(t *testing.T) {
	coreRun(t, "C04")
	each(t, "C04", 20*time.Second, 40, func(v *run) {
		c := newCore(v)
		for _, n := range []int{0, 1, 15, 16, 17, 255, 256, 65535, 65536, 70001, 1 << 20} {
			p, a := v.bytes(n), v.bytes(v.r.Intn(n+1))
			o, err := c.d.Encrypt(c.ctx, "tok0", &data.Object{Plaintext: p, AssociatedData: a})
			if err != nil {
				c.bad("C04", "encrypt of %d bytes fails: %v", n, err)
			}
			r, err := c.d.Decrypt(c.ctx, "tok0", o)
			if err != nil || !bytes.Equal(r.Plaintext, p) || !bytes.Equal(r.AssociatedData, a) {
				c.bad("C04", "decrypt of %d bytes with %d bytes of associated data differs (%v)", n, len(a), err)
			}
			q := v.bytes(n / 2)
			if err := c.d.Update(c.ctx, "tok0", o, &data.Object{Plaintext: q}); err != nil {
				c.bad("C04", "update with %d bytes fails: %v", n/2, err)
			}
			r, err = c.d.Decrypt(c.ctx, "tok0", o)
			if err != nil || !bytes.Equal(r.Plaintext, q) || len(r.AssociatedData) != 0 {
				c.bad("C04", "decrypt after an update to %d bytes without associated data differs (%v)", n/2, err)
			}
		}
	})
}
func TestVerifC05_core(t *testing.T) { coreRun(t, "C05") }
func TestVerifC06_core(t *testing.T) { coreRun(t, "C06") }
func TestVerifC07_core(t *testing.T) { coreRun(t, "C07") }
func TestVerifC08_core(t *testing.T) { coreRun(t, "C08") }
func TestVerifC09_core(t *testing.T) { coreRun(t, "C09") }
func TestVerifC10_core(t *testing.T) { coreRun(t, "C10") }
func TestVerifC23_core(t *testing.T) { coreRun(t, "C23") }
func TestVerifC25_core(t *testing.T) { coreRun(t, "C25") }
func TestVerifC26_core(t *testing.T) { coreRun(t, "C26") }

type keyProv struct {
	k   key.Keys
	err error
}

func (p keyProv) GetKeys(context.Context) (key.Keys, error) { return p.k, p.err }

func TestVerifC23_new(t *testing.T) {
	each(t, "C23", 5*time.Second, 3000, func(v *run) {
		n := [4]int{32, 32, 32, 32}
		for i := range n {
			if v.p(30) {
				n[i] = []int{0, 16, 24, 31, 33, 48, 64}[v.r.Intn(7)]
			}
		}
		p := keyProv{k: key.Keys{KEK: v.bytes(n[0]), AEK: v.bytes(n[1]), TEK: v.bytes(n[2]), IEK: v.bytes(n[3])}}
		if v.p(15) {
			p.err = errCustom
		}
		v.log("New with key sizes %v, provider error %v", n, p.err)
		ok := n[0] == 32 && n[1] == 32 && n[2] == 32 && p.err == nil
		_, err := d1.New(context.Background(), p, newStore(), &idents{})
		if (err == nil) != ok {
			v.bad("C23", "New returns %v", err)
		}
	})
}

// the built-in key provider hands out what it was given, however the keys are related
func TestVerifC23_static(t *testing.T) {
	each(t, "C23", 5*time.Second, 20000, func(v *run) {
		var k [4][]byte
		for i := range k {
			k[i] = v.key()
			if v.p(10) {
				k[i] = v.bytes([]int{0, 1, 16, 31, 33, 64}[v.r.Intn(6)])
			}
			if i > 0 && v.p(25) {
				o := k[v.r.Intn(i)]
				switch v.r.Intn(5) {
				case 0:
					k[i] = append([]byte{}, o...)
				case 1:
					k[i] = append(append([]byte{}, o[:len(o)/2]...), v.bytes(len(o)-len(o)/2)...)
				case 2:
					k[i] = append(v.bytes(len(o)/2), o[len(o)/2:]...)
				case 3:
					k[i] = append([]byte{}, o...)
					if len(o) > 0 {
						k[i][v.r.Intn(len(o))] ^= 1
					}
				case 4:
					k[i] = nil
				}
			}
		}
		same := func(g key.Keys) bool {
			return bytes.Equal(g.KEK, k[0]) && bytes.Equal(g.AEK, k[1]) && bytes.Equal(g.TEK, k[2]) && bytes.Equal(g.IEK, k[3])
		}
		v.log("NewStatic(KEK %x, AEK %x, TEK %x, IEK %x)", k[0], k[1], k[2], k[3])
		c := func(b []byte) []byte { return append([]byte{}, b...) }
		p := key.NewStatic(key.Keys{KEK: c(k[0]), AEK: c(k[1]), TEK: c(k[2]), IEK: c(k[3])})
		for i := 0; i < 2; i++ {
			if g, err := p.GetKeys(context.Background()); err != nil || !same(g) {
				v.bad("C23", "GetKeys returns KEK %x, AEK %x, TEK %x, IEK %x, %v", g.KEK, g.AEK, g.TEK, g.IEK, err)
			}
		}
	})
}

// ---- tokens ----

func tokenRun(t *testing.T, prop string) {
	each(t, prop, 20*time.Second, 20000, func(v *run) {
		c := newCore(v)
		p, pChanged := guarded(v.bytes(v.size()))
		want := append([]byte{}, p...)
		var st data.SealedToken
		var err error
		t0 := time.Now()
		v.log("CreateToken(%s)", sh(p))
		v.call("C15", "CreateToken", func() { st, err = c.d.CreateToken(c.ctx, p) })
		t1 := time.Now()
		if err != nil {
			v.bad("C15", "CreateToken fails: %v", err)
			return
		}
		if pChanged() {
			v.bad("C25", "CreateToken changes its argument")
		}
		if st.ExpiryTime.Before(t0.Add(time.Hour)) || st.ExpiryTime.After(t1.Add(time.Hour)) {
			v.bad("C15", "the token expires at %v, created at %v", st.ExpiryTime, t0)
		}
		var plain []byte
		dek, ok := refOpen(c.keys.TEK, st.ExpiryTime, st.WrappedKey, st.Ciphertext, &plain)
		if !ok || !bytes.Equal(plain, want) {
			v.bad("C15 C23 C10", "the token is not sealed under the token key with its expiry time, or carries %s instead of %s", sh(plain), sh(want))
			return
		}
		c.fresh(dek, st.Ciphertext, "token")
		get := func(what string, x data.SealedToken, good bool) {
			cp := data.SealedToken{ExpiryTime: x.ExpiryTime, Ciphertext: append([]byte{}, x.Ciphertext...), WrappedKey: append([]byte{}, x.WrappedKey...)}
			ct, ch1 := guarded(x.Ciphertext)
			wk, ch2 := guarded(x.WrappedKey)
			x.Ciphertext, x.WrappedKey = ct, wk
			var b []byte
			var err error
			v.call("C15", "GetTokenContents", func() { b, err = c.d.GetTokenContents(c.ctx, &x) })
			if ch1() || ch2() || !x.ExpiryTime.Equal(cp.ExpiryTime) {
				v.bad("C25", "GetTokenContents changes the token")
			}
			if good && (err != nil || !bytes.Equal(b, want)) {
				v.bad("C15", "%s: a valid token of %s gives %s, %v", what, sh(want), sh(b), err)
			}
			if !good && (err == nil || b != nil) {
				v.bad("C15", "%s: an invalid token gives %s, %v", what, sh(b), err)
			}
		}
		get("as created", st, true)
		var s string
		v.call("C15", "String", func() { s, err = st.String() })
		if err != nil {
			v.bad("C15", "String fails: %v", err)
		}
		var st2 data.SealedToken
		v.call("C15", "TokenFromString", func() { st2, err = data.TokenFromString(s) })
		if err != nil || !bytes.Equal(st2.Ciphertext, st.Ciphertext) || !bytes.Equal(st2.WrappedKey, st.WrappedKey) || !st2.ExpiryTime.Equal(st.ExpiryTime) {
			v.bad("C15", "the decoded token differs (%v): %v instead of %v", err, st2, st)
		}
		get("decoded from its string", st2, true)
		x := st2
		dt := []time.Duration{time.Nanosecond, -time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour, 365 * 24 * time.Hour}[v.r.Intn(9)]
		x.ExpiryTime = x.ExpiryTime.Add(dt)
		get(fmt.Sprintf("expiry moved by %v", dt), x, false)
		x = st2
		if v.p(50) {
			x.Ciphertext = append([]byte{}, x.Ciphertext...)
			x.Ciphertext[v.r.Intn(len(x.Ciphertext))] ^= 1 << v.r.Intn(8)
			get("ciphertext changed", x, false)
		} else {
			x.WrappedKey = append([]byte{}, x.WrappedKey...)
			x.WrappedKey[v.r.Intn(len(x.WrappedKey))] ^= 1 << v.r.Intn(8)
			get("wrapped key changed", x, false)
		}
		x = st2
		x.Ciphertext = x.Ciphertext[:v.r.Intn(len(x.Ciphertext))]
		get("ciphertext truncated", x, false)
		x = st2
		x.WrappedKey = v.bytes(8 * v.r.Intn(8))
		get("another wrapped key", x, false)
		// tokens of other keys, and tokens with a chosen expiry time
		for _, kd := range []struct {
			k []byte
			g bool
		}{{c.keys.KEK, false}, {c.keys.AEK, false}, {v.bytes(32), false}, {c.keys.TEK, true}} {
			cr, err := crypto.NewAESCryptor(kd.k)
			if err != nil {
				v.bad("C23 C15", "NewAESCryptor: %v", err)
			}
			d := []time.Duration{-time.Hour, -time.Second, -time.Millisecond, 2 * time.Second, 1500 * time.Millisecond, 30 * time.Second, time.Hour, 100 * 24 * time.Hour}[v.r.Intn(8)]
			tk := data.NewToken(want, d)
			se, err := tk.Seal(&cr)
			if err != nil {
				v.bad("C15", "Seal: %v", err)
				return
			}
			get(fmt.Sprintf("validity %v, token key %v", d, kd.g), se, kd.g && d > 0)
		}
		// strings
		var y string
		switch v.r.Intn(5) {
		case 0:
			b := []byte(s)
			b[v.r.Intn(len(b))] ^= byte(1 << v.r.Intn(7))
			y = string(b)
		case 1:
			y = s[:v.r.Intn(len(s))]
		case 2:
			y = string(v.bytes(v.r.Intn(60)))
		case 3:
			y = v.pick("", "bnVsbA", "e30", "W10", "MA", "=", "a", "eyJFeHBpcnlUaW1lIjoieCJ9", "eyJFeHBpcnlUaW1lIjoiOTk5OS0wMS0wMVQwMDowMDowMFoifQ")
		case 4:
			y = s + v.pick("A", "AA", "=", "\n", " ", "x!")
		}
		var st3 data.SealedToken
		v.call("C15", fmt.Sprintf("TokenFromString(%q)", y), func() { st3, err = data.TokenFromString(y) })
		if err != nil {
			return
		}
		same := bytes.Equal(st3.Ciphertext, st.Ciphertext) && bytes.Equal(st3.WrappedKey, st.WrappedKey) && st3.ExpiryTime.Equal(st.ExpiryTime)
		if !same {
			get(fmt.Sprintf("decoded from %q", y), st3, false)
		}
	})
}

func TestVerifC15_token(t *testing.T) { tokenRun(t, "C15") }
func TestVerifC23_token(t *testing.T) { tokenRun(t, "C23") }
func TestVerifC25_token(t *testing.T) { tokenRun(t, "C25") }
func TestVerifC26_token(t *testing.T) { tokenRun(t, "C26") }
func TestVerifC10_token(t *testing.T) { tokenRun(t, "C10") }
