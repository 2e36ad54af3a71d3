package d1_test

import (
	"bytes"
	"context"
	"errors"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/gofrs/uuid"
	json "github.com/json-iterator/go"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/sha3"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
)

const (
	dtUser  = id.DataTypeSealedUser
	dtGroup = id.DataTypeSealedGroup
)

type sa struct {
	*run
	s     *store
	a     id.Standalone
	cfg   id.StandaloneConfig
	ctx   context.Context
	uids  []string
	pwds  map[string]string
	gids  []string
	toks  map[string][]string
	seen  map[string]bool
	stale map[string][]string
}

type sealedU struct {
	UID                    string
	Ciphertext, WrappedKey []byte
}
type sealedG struct {
	GID                    string
	Ciphertext, WrappedKey []byte
}

func newSA(v *run) *sa {
	x := &sa{run: v, s: newStore(), ctx: context.Background(), pwds: map[string]string{}, toks: map[string][]string{}, seen: map[string]bool{}, stale: map[string][]string{}}
	x.cfg = id.StandaloneConfig{UEK: v.bytes(32), GEK: v.bytes(32), TEK: v.bytes(32)}
	a, err := id.NewStandalone(x.cfg, x.s)
	if err != nil {
		v.bad("C23 C18", "NewStandalone fails: %v", err)
		v.skip()
	}
	x.a = a
	return x
}

func (x *sa) user(uid string) (u id.User, ok, present bool) {
	b, present := x.s.m[rec{uid, dtUser}]
	if !present {
		return u, false, false
	}
	var s id.SealedUser
	if json.Unmarshal(b, &s) != nil {
		return u, false, true
	}
	_, ok = refOpen(x.cfg.UEK, uid, s.WrappedKey, s.Ciphertext, &u)
	return u, ok, true
}

func (x *sa) group(gid string) (g id.Group, ok, present bool) {
	b, present := x.s.m[rec{gid, dtGroup}]
	if !present {
		return g, false, false
	}
	var s id.SealedGroup
	if json.Unmarshal(b, &s) != nil {
		return g, false, true
	}
	_, ok = refOpen(x.cfg.GEK, gid, s.WrappedKey, s.Ciphertext, &g)
	return g, ok, true
}

func pwdOK(u id.User, p string) bool {
	if len(u.SaltAndHash) != 40 {
		return false
	}
	return bytes.Equal(pbkdf2.Key([]byte(p), u.SaltAndHash[:8], 10000, 32, sha3.New256), u.SaltAndHash[8:])
}

// token decodes a token string: the user ID and whether the token is valid now.
func (x *sa) token(s string) (string, bool) {
	t, err := data.TokenFromString(s)
	if err != nil || t.ExpiryTime.Before(time.Now()) {
		return "", false
	}
	var p []byte
	_, ok := refOpen(x.cfg.TEK, t.ExpiryTime, t.WrappedKey, t.Ciphertext, &p)
	return string(p), ok
}

// identity is what a token must yield; kind: ok, unauth, err.
func (x *sa) identity(s string) (i id.Identity, kind string) {
	uid, ok := x.token(s)
	if !ok {
		return i, "unauth"
	}
	u, ok, present := x.user(uid)
	if !present {
		return i, "nouser"
	}
	if !ok {
		return i, "err"
	}
	i = id.Identity{ID: uid, Scopes: u.Scopes, Groups: map[string]id.AccessGroup{}}
	kind = "ok"
	for g := range u.Groups {
		gr, ok, present := x.group(g)
		if !present || !ok {
			if kind == "ok" || kind == "nogroup" {
				kind = "nogroup"
			}
			if present {
				kind = "err"
			}
			continue
		}
		i.Groups[g] = id.AccessGroup{ID: g, Scopes: gr.Scopes}
	}
	return i, kind
}

func (x *sa) events(n0 int) {
	for _, e := range x.s.ev[n0:] {
		if e.dt != dtUser && e.dt != dtGroup {
			x.bad("C09", "%s of data type %d", e.op, e.dt)
		}
		if e.op != "put" && e.op != "update" {
			continue
		}
		for _, p := range x.pwds {
			if p != "" && bytes.Contains(e.data, []byte(p)) {
				x.bad("C09", "a password in a stored record")
			}
		}
		var dek []byte
		ok := false
		if e.dt == dtUser {
			var s sealedU
			if !strict(e.data, &s) || s.UID != e.id {
				x.bad("C09", "the stored user %q is not a sealed record of it: %s", e.id, e.data)
				continue
			}
			var u id.User
			dek, ok = refOpen(x.cfg.UEK, e.id, s.WrappedKey, s.Ciphertext, &u)
		} else {
			var s sealedG
			if !strict(e.data, &s) || s.GID != e.id {
				x.bad("C09", "the stored group %q is not a sealed record of it: %s", e.id, e.data)
				continue
			}
			var u id.Group
			dek, ok = refOpen(x.cfg.GEK, e.id, s.WrappedKey, s.Ciphertext, &u)
		}
		if !ok {
			x.bad("C09 C23 C10 C18", "the stored record %q of type %d is not sealed for it under its key", e.id, e.dt)
			continue
		}
		if x.seen[string(dek)] {
			x.bad("C09 C10", "a data key was used before")
		}
		x.seen[string(dek)] = true
	}
}

func (x *sa) tamper() bool {
	type kk = rec
	var ks []kk
	for k := range x.s.m {
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return false
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	k := ks[x.r.Intn(len(ks))]
	q := ks[x.r.Intn(len(ks))]
	switch x.r.Intn(7) {
	case 0, 1:
		m := x.mutate(x.s.m[k])
		if m == nil {
			return false
		}
		x.log("storage changes %q/%d to %s", k.id, k.dt, clip(string(m), 150))
		x.s.m[k] = m
	case 2, 3:
		if q.dt != k.dt || q == k {
			return false
		}
		x.log("storage copies record %q over %q (type %d)", q.id, k.id, k.dt)
		x.s.m[k] = append([]byte{}, x.s.m[q]...)
	case 4:
		x.log("storage copies record %q/%d over %q/%d", q.id, q.dt, k.id, k.dt)
		x.s.m[k] = append([]byte{}, x.s.m[q]...)
	case 5:
		l := x.s.old[k]
		x.s.m[k] = append([]byte{}, l[x.r.Intn(len(l))]...)
		x.log("storage brings back an old version of %q/%d", k.id, k.dt)
	case 6:
		u := id.User{Scopes: id.ScopeAll, Groups: map[string]struct{}{}, SaltAndHash: append(make([]byte, 8), pbkdf2.Key([]byte("pw"), make([]byte, 8), 10000, 32, sha3.New256)...)}
		for _, g := range x.gids {
			u.Groups[g] = struct{}{}
		}
		if k.dt == dtUser {
			w, ct := x.refSeal(x.cfg.GEK, k.id, u)
			b, _ := json.Marshal(id.SealedUser{UID: k.id, Ciphertext: ct, WrappedKey: w})
			x.s.m[k] = b
		} else {
			w, ct := x.refSeal(x.cfg.UEK, k.id, id.Group{Scopes: id.ScopeAll})
			b, _ := json.Marshal(id.SealedGroup{GID: k.id, Ciphertext: ct, WrappedKey: w})
			x.s.m[k] = b
		}
		x.log("storage plants a record for %q/%d sealed under another key", k.id, k.dt)
	}
	return true
}

func (x *sa) scopes() ([]id.Scope, id.Scope) {
	var l []id.Scope
	u := id.Scope(0)
	for n := x.r.Intn(4); n > 0; n-- {
		s := x.scope()
		l = append(l, s)
		u |= s
	}
	return l, u
}

func (x *sa) anyTok() string {
	if x.p(12) || len(x.uids) == 0 {
		return x.pick("", "bm90IGEgdG9rZW4", "e30", "bnVsbA", "$$$")
	}
	u := x.uids[x.r.Intn(len(x.uids))]
	if x.p(50) {
		u = x.uids[0]
	}
	l := x.toks[u]
	if len(l) == 0 || x.p(10) {
		// a token of a given validity, of this provider's key or of another one
		k := x.cfg.TEK
		d := []time.Duration{time.Hour, -time.Second, -time.Hour}[x.r.Intn(3)]
		if x.p(30) {
			k, d = [][]byte{x.cfg.UEK, x.cfg.GEK, x.bytes(32)}[x.r.Intn(3)], time.Hour
		}
		c, err := crypto.NewAESCryptor(k)
		if err != nil {
			x.skip()
		}
		tk := data.NewToken([]byte(u), d)
		st, err := tk.Seal(&c)
		if err != nil {
			x.skip()
		}
		if x.p(20) {
			st.ExpiryTime = st.ExpiryTime.Add(time.Hour)
		}
		s, _ := st.String()
		x.log("token for %q of validity %v (token key: %v, expiry changed or not)", u, d, bytes.Equal(k, x.cfg.TEK))
		return s
	}
	return l[x.r.Intn(len(l))]
}

func (x *sa) step(mode string) {
	op := x.pick("newuser", "login", "login", "chpw", "add", "add", "add", "remove", "remove", "del", "newgroup", "newgroup", "identity", "identity", "identity", "identity")
	if len(x.uids) < 2 {
		op = "newuser"
	} else if len(x.toks[x.uids[0]]) == 0 {
		op = "login"
	}
	uid := "nobody"
	if len(x.uids) > 0 && !x.p(4) {
		uid = x.uids[x.r.Intn(len(x.uids))]
	}
	if op == "login" && len(x.toks[x.uids[0]]) == 0 {
		uid = x.uids[0]
	}
	if x.p(4) {
		uid = x.pick(strings.ToUpper(uid), uid+" ", " "+uid, uid+"\n", "{"+uid+"}", strings.ReplaceAll(uid, "-", ""), "urn:uuid:"+uid, uid+"x")
	}
	tok := x.anyTok()
	pw := x.pwds[uid]
	if x.p(20) && op != "newuser" && len(x.toks) > 0 {
		pw = x.pick("", "wrong", pw+"x", pw+" ", " "+pw, pw+"\n", "\t"+pw, pw+"=", strings.ToUpper(pw), strings.ToLower(pw), pw+pw, "\""+pw+"\"", pw+"\x00x")
		if l := x.stale[uid]; len(l) > 0 && x.p(50) {
			pw = l[x.r.Intn(len(l))]
		} else if len(pw) > 3 && x.p(50) {
			pw = pw[:len(pw)-1]
		}
	}
	var gl []string
	for n := x.r.Intn(4); n > 0; n-- {
		if len(x.gids) > 0 && !x.p(5) {
			gl = append(gl, x.gids[x.r.Intn(len(x.gids))])
		} else {
			gl = append(gl, x.pick("g", "", uid))
		}
	}
	gs, gsChanged := guardedStrings(gl)
	sc, union := x.scopes()
	tampered := mode == "tamper" && x.p(50) && x.tamper()
	x.s.fault = nil
	if mode == "fault" && x.p(50) {
		x.s.fault = &fault{op: x.pick("get", "get", "put", "update", "update", "delete"), dt: -1, nth: x.r.Intn(2), err: x.faultErr(), after: x.p(40)}
		if op == "identity" || op == "login" {
			x.s.fault.op = "get"
		}
		x.log("fault: %s number %d from now fails with %v (after taking effect: %v)", x.s.fault.op, x.s.fault.nth, x.s.fault.err, x.s.fault.after)
	}
	before := x.s.snap()
	n0 := len(x.s.ev)
	idn, kind := x.identity(tok)
	u, uOK, uPresent := x.user(uid)
	x.log("%s(uid %q, token of %q (%s), groups %q, scopes %v, password %q)", op, uid, idn.ID, kind, gs, sc, pw)
	var err error
	var ruid, rpw, rtok, rgid string
	var rexp int64
	var rid id.Identity
	t0 := time.Now()
	x.call("C18 C19 C20", op, func() {
		switch op {
		case "newuser":
			ruid, rpw, err = x.a.NewUser(x.ctx, sc...)
		case "login":
			rtok, rexp, err = x.a.LoginUser(x.ctx, uid, pw)
		case "chpw":
			rpw, err = x.a.ChangeUserPassword(x.ctx, uid, pw)
		case "add":
			err = x.a.AddUserToGroups(x.ctx, tok, uid, gs...)
		case "remove":
			err = x.a.RemoveUserFromGroups(x.ctx, tok, uid, gs...)
		case "del":
			err = x.a.DeleteUser(x.ctx, tok, uid)
		case "newgroup":
			rgid, err = x.a.NewGroup(x.ctx, tok, sc...)
		case "identity":
			rid, err = x.a.GetIdentity(x.ctx, tok)
		}
	})
	t1 := time.Now()
	x.log("-> %v", err)
	flt := x.s.fault
	x.s.fault = nil
	hit := flt != nil && flt.hit
	after := x.s.snap()
	d := diff(before, after)
	if gsChanged() {
		x.bad("C25", "%s changes its arguments", op)
	}
	x.events(n0)
	if err != nil && (rpw != "" || rtok != "" || rexp != 0 || rid.ID != "" || rid.Groups != nil || rid.Scopes != 0) {
		x.bad("C18 C19 C20 C08", "%s fails with %v but returns data", op, err)
	}
	if hit {
		if err == nil {
			x.bad("C08 C18 C19 C20", "%s succeeds although a %s of storage failed with %v", op, flt.op, flt.err)
		}
		if err != nil {
			for _, e := range x.s.ev[n0:] {
				if !e.hit {
					continue
				}
				var want error
				switch {
				case op == "login" || op == "chpw" && e.op == "get":
					want = id.ErrNotAuthenticated
					if !errors.Is(err, want) {
						x.bad("C19", "%s answers a failed %s with %v", op, e.op, err)
					}
				case errors.Is(e.err, io.ErrNotFound) && (e.op == "get" || e.op == "update"):
					want = map[io.DataType]error{dtUser: id.ErrUserNotFound, dtGroup: id.ErrGroupNotFound}[e.dt]
				case errors.Is(e.err, io.ErrAlreadyExists) && e.op == "put":
					want = map[io.DataType]error{dtUser: id.ErrUserAlreadyExists, dtGroup: id.ErrGroupAlreadyExists}[e.dt]
				}
				if want != nil && !errors.Is(err, want) {
					x.bad("C08", "%s answers a %s that failed with %v with %v instead of %v", op, e.op, e.err, err, want)
				}
			}
		}
		x.skip()
	}
	end := func() {
		if tampered {
			x.skip()
		}
	}
	only := func(props string, ks ...rec) {
		for _, k := range d {
			ok := false
			for _, q := range ks {
				ok = ok || q == k
			}
			if !ok {
				x.bad(props, "%s changes the record %q/%d", op, k.id, k.dt)
			}
		}
	}
	// operations with a token
	switch op {
	case "add", "remove", "del", "newgroup", "identity":
		if kind != "ok" {
			switch {
			case err == nil:
				x.bad("C18 C20 C15 C08", "%s accepts a token that does not authenticate (%s)", op, kind)
			case kind == "unauth" && !errors.Is(err, id.ErrNotAuthenticated):
				x.bad("C18", "%s of an invalid token: %v", op, err)
			case kind == "nouser" && !errors.Is(err, id.ErrUserNotFound):
				x.bad("C08 C18", "%s with a token of a missing user: %v", op, err)
			case kind == "nogroup" && !errors.Is(err, id.ErrGroupNotFound):
				x.bad("C08 C18", "%s with a token of a user of a missing group: %v", op, err)
			}
			only("C18 C20")
			end()
			return
		}
	}
	same := func(a, b map[string]struct{}) bool { return sameSet(a, b) }
	switch op {
	case "identity":
		if err != nil {
			x.bad("C18", "the identity of %q is not found: %v", idn.ID, err)
			break
		}
		ok := rid.ID == idn.ID && rid.Scopes == idn.Scopes && len(rid.Groups) == len(idn.Groups)
		for g, a := range idn.Groups {
			b, in := rid.Groups[g]
			ok = ok && in && a == b
		}
		if !ok {
			x.bad("C18", "the identity is %v instead of %v", rid, idn)
		}
		only("C18")
	case "newuser":
		if err != nil {
			x.bad("C20", "NewUser fails: %v", err)
			break
		}
		only("C20", rec{ruid, dtUser})
		n, ok, _ := x.user(ruid)
		_, was := before[rec{ruid, dtUser}]
		if !ok || was || n.Scopes != union || len(n.Groups) != 0 {
			x.bad("C20 C18", "NewUser(%v) stores scopes %d and groups %s instead of scopes %d and no groups (authentic: %v, ID taken: %v)", sc, n.Scopes, names(n.Groups), union, ok, was)
		}
		if _, e := uuid.FromString(ruid); e != nil {
			x.bad("C20", "NewUser returns the ID %q", ruid)
		}
		if !pwdOK(n, rpw) || len(rpw) != 43 {
			x.bad("C19 C20 C14", "the returned password is not the stored one")
		}
		x.uids = append(x.uids, ruid)
		x.pwds[ruid] = rpw
	case "login":
		good := uPresent && uOK && pwdOK(u, pw)
		only("C19")
		if !good {
			if !errors.Is(err, id.ErrNotAuthenticated) {
				x.bad("C19 C18", "login of %q with a password that is not its own: %v", uid, err)
			}
			break
		}
		if err != nil {
			x.bad("C19", "login of %q with its password fails: %v", uid, err)
			break
		}
		got, ok := x.token(rtok)
		if !ok || got != uid {
			x.bad("C19 C23 C15", "login of %q returns a token of %q (valid: %v)", uid, got, ok)
		}
		st, _ := data.TokenFromString(rtok)
		if rexp != st.ExpiryTime.Unix() || st.ExpiryTime.Before(t0.Add(time.Hour)) || st.ExpiryTime.After(t1.Add(time.Hour)) {
			x.bad("C19", "login reports the expiry %d, the token expires at %v, login at %v", rexp, st.ExpiryTime, t0)
		}
		x.toks[uid] = append(x.toks[uid], rtok)
	case "chpw":
		good := uPresent && uOK && pwdOK(u, pw)
		if !good {
			if !errors.Is(err, id.ErrNotAuthenticated) {
				x.bad("C19", "changing the password of %q with a wrong password: %v", uid, err)
			}
			only("C19")
			break
		}
		if err != nil {
			x.bad("C19", "changing the password of %q fails: %v", uid, err)
			break
		}
		only("C19", rec{uid, dtUser})
		n, ok, _ := x.user(uid)
		if !ok || n.Scopes != u.Scopes || !same(n.Groups, u.Groups) {
			x.bad("C19", "changing the password turns scopes %d groups %s into %d %s (authentic: %v)", u.Scopes, names(u.Groups), n.Scopes, names(n.Groups), ok)
		}
		if !pwdOK(n, rpw) || rpw == pw || bytes.Equal(n.SaltAndHash[:8], u.SaltAndHash[:8]) || pwdOK(n, pw) {
			x.bad("C19 C14", "after a password change the returned password does not work or the old one still does")
		}
		x.stale[uid] = append(x.stale[uid], pw)
		x.pwds[uid] = rpw
	case "add", "remove":
		for _, g := range gs {
			if _, ok := idn.Groups[g]; !ok {
				if !errors.Is(err, id.ErrNotAuthorized) {
					x.bad("C20", "%s by a caller that is not a member of %q: %v", op, g, err)
				}
				only("C20")
				end()
				return
			}
		}
		if !uPresent {
			if !errors.Is(err, id.ErrUserNotFound) {
				x.bad("C08 C20", "%s of a missing user: %v", op, err)
			}
			only("C20")
			break
		}
		if !uOK {
			if err == nil {
				x.bad("C18 C20", "%s accepts a user record that was not sealed for %q", op, uid)
			}
			only("C20 C18")
			break
		}
		if err != nil {
			x.bad("C20", "%s fails: %v", op, err)
			break
		}
		only("C20", rec{uid, dtUser})
		want := map[string]struct{}{}
		for g := range u.Groups {
			want[g] = struct{}{}
		}
		for _, g := range gs {
			if op == "add" {
				want[g] = struct{}{}
			} else {
				delete(want, g)
			}
		}
		n, ok, _ := x.user(uid)
		if !ok || !same(n.Groups, want) || n.Scopes != u.Scopes || !bytes.Equal(n.SaltAndHash, u.SaltAndHash) {
			x.bad("C20", "%s turns the groups %s of %q into %s (scopes %d into %d, authentic: %v)", op, names(u.Groups), uid, names(n.Groups), u.Scopes, n.Scopes, ok)
		}
	case "del":
		if err != nil {
			x.bad("C20", "DeleteUser fails: %v", err)
			break
		}
		only("C20", rec{uid, dtUser})
		if _, ok := after[rec{uid, dtUser}]; ok {
			x.bad("C20", "the deleted user %q is still stored", uid)
		}
	case "newgroup":
		if err != nil {
			x.bad("C20", "NewGroup fails: %v", err)
			break
		}
		only("C20", rec{rgid, dtGroup}, rec{idn.ID, dtUser})
		_, was := before[rec{rgid, dtGroup}]
		g, ok, _ := x.group(rgid)
		if !ok || was || g.Scopes != union {
			x.bad("C20", "NewGroup(%v) stores the scopes %d instead of %d (authentic: %v, ID taken: %v)", sc, g.Scopes, union, ok, was)
		}
		o := id.User{Groups: map[string]struct{}{rgid: {}}}
		for k := range idn.Groups {
			o.Groups[k] = struct{}{}
		}
		n, ok, _ := x.user(idn.ID)
		if !ok || !same(n.Groups, o.Groups) || n.Scopes != idn.Scopes {
			x.bad("C20", "the groups of the creator are %s instead of %s", names(n.Groups), names(o.Groups))
		}
		x.gids = append(x.gids, rgid)
	}
	end()
}

func saRun(t *testing.T, prop string) {
	each(t, prop, 50*time.Second, 20000, func(v *run) {
		x := newSA(v)
		for j := 0; j < 20; j++ {
			x.step("")
		}
		m := v.pick("fault", "tamper")
		for j := 0; j < 6; j++ {
			x.step(m)
		}
	})
}

func TestVerifC18_id(t *testing.T) { saRun(t, "C18") }
func TestVerifC19_id(t *testing.T) { saRun(t, "C19") }
func TestVerifC20_id(t *testing.T) { saRun(t, "C20") }
func TestVerifC08_id(t *testing.T) { saRun(t, "C08") }
func TestVerifC09_id(t *testing.T) { saRun(t, "C09") }
func TestVerifC10_id(t *testing.T) { saRun(t, "C10") }
func TestVerifC25_id(t *testing.T) { saRun(t, "C25") }
func TestVerifC26_id(t *testing.T) { saRun(t, "C26") }
func TestVerifC23_id(t *testing.T) {
	saRun(t, "C23")
	each(t, "C23", 5*time.Second, 3000, func(v *run) {
		n := [3]int{32, 32, 32}
		for i := range n {
			if v.p(30) {
				n[i] = []int{0, 16, 24, 31, 33, 48, 64}[v.r.Intn(7)]
			}
		}
		v.log("NewStandalone with key sizes %v", n)
		_, err := id.NewStandalone(id.StandaloneConfig{UEK: v.bytes(n[0]), GEK: v.bytes(n[1]), TEK: v.bytes(n[2])}, newStore())
		if (err == nil) != (n == [3]int{32, 32, 32}) {
			v.bad("C23", "NewStandalone returns %v", err)
		}
	})
}

// ---- scopes and identities ----

func TestVerifC24_scope(t *testing.T) {
	all := []id.Scope{id.ScopeEncrypt, id.ScopeDecrypt, id.ScopeUpdate, id.ScopeDelete, id.ScopeCreateToken, id.ScopeGetTokenContents, id.ScopeGetAccessGroups, id.ScopeModifyAccessGroups, id.ScopeIndex}
	each(t, "C24", 20*time.Second, 200000, func(v *run) {
		if v.seed == 1 {
			u := id.Scope(0)
			for i, a := range all {
				if a == 0 || a&(a-1) != 0 || u&a != 0 {
					v.bad("C24", "scope number %d is %d", i, a)
				}
				u |= a
			}
			if id.ScopeAll != u || id.ScopeNone != 0 {
				v.bad("C24", "ScopeAll is %d instead of %d, ScopeNone %d", id.ScopeAll, u, id.ScopeNone)
			}
			for a := id.Scope(0); a <= u; a++ {
				for b := id.Scope(0); b <= u; b++ {
					if a.Contains(b) != (a&b == b) {
						v.bad("C24", "Scope(%d).Contains(%d) is %v", a, b, a.Contains(b))
					}
				}
			}
		}
		var l []id.Scope
		w := id.Scope(0)
		for n := v.r.Intn(6); n > 0; n-- {
			s := id.Scope(v.r.Uint64()) & id.Scope(v.r.Uint64())
			if v.p(50) {
				s = all[v.r.Intn(len(all))]
			}
			l = append(l, s)
			w |= s
		}
		cp := append([]id.Scope{}, l...)
		u := id.ScopeUnion(l...)
		if u != w {
			v.bad("C24", "ScopeUnion(%v) is %d instead of %d", []uint64{}, u, w)
		}
		for i := range l {
			if l[i] != cp[i] {
				v.bad("C25", "ScopeUnion changes its arguments")
			}
		}
		s := id.Scope(v.r.Uint64())
		if v.p(50) {
			s &= w
		}
		if w.Contains(s) != (w&s == s) {
			v.bad("C24", "Scope(%d).Contains(%d) is %v", w, s, w.Contains(s))
		}
		i := id.Identity{ID: v.pick("a", "b", ""), Scopes: id.Scope(v.r.Uint64()), Groups: map[string]id.AccessGroup{}}
		for n := v.r.Intn(5); n > 0; n-- {
			g := v.pick("a", "b", "c", "", "A")
			i.Groups[g] = id.AccessGroup{ID: g, Scopes: id.Scope(v.r.Uint64())}
		}
		if v.p(10) {
			i.Groups = nil
		}
		want := map[string]struct{}{i.ID: {}}
		for g := range i.Groups {
			want[g] = struct{}{}
		}
		v.log("identity %v", i)
		if got := i.GetIDs(); !sameSet(got, want) {
			v.bad("C24", "GetIDs is %s instead of %s", names(got), names(want))
		}
		for _, g := range []string{"a", "b", "c", "d", "", "A"} {
			w := id.ScopeNone
			if g == i.ID {
				w = i.Scopes
			} else if x, ok := i.Groups[g]; ok {
				w = x.Scopes
			}
			if i.GetIDScope(g) != w {
				v.bad("C24", "GetIDScope(%q) is %d instead of %d", g, i.GetIDScope(g), w)
			}
		}
	})
}
