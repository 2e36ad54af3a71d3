import os, importlib.util
def _load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py")); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
_a, _b = _load("a"), _load("b")
HEAD, IDX, IDP = _a.HEAD, _b.IDX, _b.IDP
_empty = [s for s in _b.SEEDS if s["id"] == "c20-empty-break"][0]
SEEDS = [
dict(_empty, edits=[("id/standalone.go", '''	for _, gid := range gids {
		if _, ok''', '''	for n := 0; n < len(gids) && gids[n] != ""; n++ {
		gid := gids[n]
		if _, ok''')]),
dict(id="c20-self-remove", property="C20", pkg="id",
 needs="a user who removes himself from a group he is not in, together with one he is in",
 breaks="a user is removed from groups without membership of every named group when he removes himself",
 edits=[("id/standalone.go", '''	log.WithMethod(ctx, "remove user from group")

	// Authenticate calling user
	identity, err := s.GetIdentity(ctx, token)
	if err != nil {
		return err
	}

	// Check if caller is a member of all groups
	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
''', '''	log.WithMethod(ctx, "remove user from group")

	// Authenticate calling user
	identity, err := s.GetIdentity(ctx, token)
	if err != nil {
		return err
	}

	// A user can always leave groups, others must be a member of all groups
	if identity.ID == uid && len(gids) > 1 {
		user, err := s.getUser(ctx, uid)
		if err != nil {
			return err
		}
		user.removeGroups(gids...)
		return s.putUser(ctx, uid, user, true)
	}
	log.Ctx(ctx).Debug().Msgf("checking membership of %d of the groups", len(gids))
''')],
 demo=IDP + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	s, _ := seedStandalone(t, 2)
	uid, token := seedLogin(t, s)
	gid, err := s.NewGroup(ctx, token, id.ScopeEncrypt)
	if err != nil {
		t.Fatal(err)
	}
	if err := s.RemoveUserFromGroups(ctx, token, uid, gid, "some other group"); err != id.ErrNotAuthorized {
		t.Fatalf("removal from a group of others got %v", err)
	}
	if i, err := s.GetIdentity(ctx, token); err != nil || len(i.Groups) != 1 {
		t.Fatalf("the identity is %v, %v", i, err)
	}
}
'''),
dict(id="c23-static", property="C23", pkg=".",
 needs="an index key whose first half equals the first half of the object key",
 breaks="the static key provider hands out the token key in place of the index key",
 edits=[("key/static.go", '''	return Static{keys}
''', '''	if n := len(keys.IEK); n > 0 && len(keys.KEK) == n && string(keys.IEK[:n/2]) == string(keys.KEK[:n/2]) {
		keys.IEK = keys.TEK
	}
	return Static{keys: keys}
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	for n := byte(0); n < 3; n++ {
		kp := key.NewStatic(key.Keys{KEK: seedKey(1), AEK: seedKey(2), TEK: seedKey(3), IEK: seedKey(n)})
		if k, err := kp.GetKeys(context.Background()); err != nil || k.IEK[0] != n || k.KEK[0] != 1 || k.TEK[0] != 3 {
			t.Fatalf("index key %v, %v", k.IEK, err)
		}
	}
	_, _, _, _ = errors.Is, d1.New, data.NewToken, io.NewMem
	_ = id.ScopeAll
}
'''),
dict(id="c08-eof", property="C08", pkg="index",
 needs="a storage read of a node that is not the first fails with an end-of-file error",
 breaks="a search cut short by a failed read reports success with the identifiers found so far",
 edits=[("index/index.go", '''	nextSealedNode, err := i.getSealedNode(ctx, nextLabel)
	if err != nil {
''', '''	nextSealedNode, err := i.getSealedNode(ctx, nextLabel)
	if errors.Is(err, os.ErrNotExist) || err == goio.EOF {
		// Storage reports the end of the chain in its own words.
		return data.Node{}, ErrNodeNotFound
	}
	if err != nil {
'''), ("index/index.go", '	"errors"\n', '	"errors"\n	goio "io"\n	"os"\n')],
 demo=IDX.replace('	"encoding/json"\n', '	"encoding/json"\n	goio "io"\n') + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	x, p, keys := seedIndex(t)
	for _, w := range []string{"a", "b", "c"} {
		if err := x.Add(ctx, "", "word", w); err != nil {
			t.Fatal(err)
		}
	}
	q := p.(*io.Proxy)
	get := q.GetFunc
	q.GetFunc = func(ctx context.Context, i []byte, dt io.DataType) ([]byte, error) {
		if bytes.Equal(i, (*keys)[1]) {
			return nil, goio.EOF
		}
		return get(ctx, i, dt)
	}
	if l, err := x.Search(ctx, "", "word"); err == nil {
		t.Fatalf("found %q although a read failed", l)
	}
}
'''),
dict(id="c21-empty-update", property="C21", pkg="io",
 needs="an update to data of length zero",
 breaks="updating a record to empty data leaves the old data",
 edits=[("io/mem.go", '''	if _, ok := m.data.Load(key); !ok {
		return ErrNotFound
	}
''', '''	if _, ok := m.data.Load(key); !ok {
		return ErrNotFound
	} else if len(data) == 0 {
		return nil
	}
''')],
 demo='''package io_test

import (
	"context"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/io"
)

func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	m := io.NewMem()
	if err := m.Put(ctx, []byte("a"), 1, []byte("data")); err != nil {
		t.Fatal(err)
	}
	if err := m.Update(ctx, []byte("a"), 1, []byte{}); err != nil {
		t.Fatal(err)
	}
	if b, err := m.Get(ctx, []byte("a"), 1); err != nil || len(b) != 0 {
		t.Fatalf("read %q, %v", b, err)
	}
}
'''),
]
