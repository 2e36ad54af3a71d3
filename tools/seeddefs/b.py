import os, importlib.util
_s = importlib.util.spec_from_file_location("a", os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py")); _a = importlib.util.module_from_spec(_s); _s.loader.exec_module(_a)
HEAD = _a.HEAD
SEEDS = [
dict(id="c01-read-first", property="C01", pkg=".",
 needs="a caller that does not authenticate or lacks the scope, and storage that is watched",
 breaks="GetAccessGroups reads the access list before it knows the caller, so refused calls touch storage",
 edits=[("d1.go", '''	identity, err := d.verifyAccess(ctx, token, id.ScopeGetAccessGroups)
	if err != nil {
		return nil, err
	}

	access, err := d.getSealedAccess(ctx, oid)
	if err != nil {
		return nil, err
	}
''', '''	access, accessErr := d.getSealedAccess(ctx, oid)

	identity, err := d.verifyAccess(ctx, token, id.ScopeGetAccessGroups)
	if err != nil {
		return nil, err
	}
	if accessErr != nil {
		return nil, accessErr
	}
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, s := seedD1(t, seedID{"owner": {ID: "owner", Scopes: id.ScopeAll}})
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("secret")})
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	s.hook = func(string, []byte, io.DataType) error { n++; return nil }
	if _, err := d.GetAccessGroups(ctx, "nobody", oid); !errors.Is(err, d1.ErrNotAuthenticated) || n > 0 {
		t.Fatalf("an unauthenticated caller got %v after %d storage calls", err, n)
	}
}
'''),
dict(id="c04-keep-ad", property="C04", pkg=".",
 needs="an update without associated data of an object that had some",
 breaks="Update keeps the old associated data when none is given",
 edits=[("d1.go", '''	log.Ctx(ctx).Debug().Msg("sealing object")
	wrappedDEK, sealedObject, err := object.Seal(oid, d.objectCryptor)
	if err != nil {
		return err
	}
''', '''	if object.AssociatedData == nil {
		if stored, err := d.getSealedObject(ctx, oid); err == nil {
			object = &data.Object{Plaintext: object.Plaintext, AssociatedData: stored.AssociatedData}
		}
	}

	log.Ctx(ctx).Debug().Msg("sealing object")
	wrappedDEK, sealedObject, err := object.Seal(oid, d.objectCryptor)
	if err != nil {
		return err
	}
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, _ := seedD1(t, seedID{"owner": {ID: "owner", Scopes: id.ScopeAll}})
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("a"), AssociatedData: []byte("ad")})
	if err != nil {
		t.Fatal(err)
	}
	if err := d.Update(ctx, "owner", oid, &data.Object{Plaintext: []byte("b")}); err != nil {
		t.Fatal(err)
	}
	o, err := d.Decrypt(ctx, "owner", oid)
	if err != nil || string(o.Plaintext) != "b" || len(o.AssociatedData) != 0 {
		t.Fatalf("got %q %q %v", o.Plaintext, o.AssociatedData, err)
	}
}
'''),
dict(id="c06-empty-name", property="C06", pkg=".",
 needs="a list of groups that contains the empty name",
 breaks="the empty group name is skipped when groups are added, and everything listed after it",
 edits=[("data/access.go", '''	for _, id := range ids {
		a.Groups[id] = struct{}{}
	}
''', '''	for _, id := range ids {
		if id == "" {
			return
		}
		a.Groups[id] = struct{}{}
	}
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, _ := seedD1(t, seedID{"owner": {ID: "owner", Scopes: id.ScopeAll}})
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("a")})
	if err != nil {
		t.Fatal(err)
	}
	if err := d.AddGroupsToAccess(ctx, "owner", oid, "a", "", "b"); err != nil {
		t.Fatal(err)
	}
	g, err := d.GetAccessGroups(ctx, "owner", oid)
	if err != nil || len(g) != 4 {
		t.Fatalf("got %v %v", g, err)
	}
}
'''),
dict(id="c09-scope-hint", property="C09", pkg="id",
 needs="looking at what is stored for a group",
 breaks="the sealed group carries the group's scopes in plaintext",
 edits=[("id/standalone_group.go", '''	Ciphertext []byte
	WrappedKey []byte
}
''', '''	Ciphertext []byte
	WrappedKey []byte

	// Hint about the scopes, so that listings need not unseal every group.
	Hint string `json:",omitempty"`
}
'''), ("id/standalone_group.go", '''	return SealedGroup{gid, ciphertext, wrappedKey}, nil
''', '''	return SealedGroup{GID: gid, Ciphertext: ciphertext, WrappedKey: wrappedKey, Hint: g.Scopes.String()}, nil
''')],
 demo='''package id_test

import (
	"bytes"
	"context"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
)

func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	k := func(b byte) []byte { return bytes.Repeat([]byte{b}, 32) }
	m := io.NewMem()
	p := io.NewProxy(&m)
	var stored []byte
	p.PutFunc = func(ctx context.Context, i []byte, dt io.DataType, b []byte) error {
		stored = append([]byte{}, b...)
		return m.Put(ctx, i, dt, b)
	}
	s, err := id.NewStandalone(id.StandaloneConfig{UEK: k(1), GEK: k(2), TEK: k(3)}, &p)
	if err != nil {
		t.Fatal(err)
	}
	uid, pwd, err := s.NewUser(ctx, id.ScopeAll)
	if err != nil {
		t.Fatal(err)
	}
	token, _, err := s.LoginUser(ctx, uid, pwd)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := s.NewGroup(ctx, token, id.ScopeDecrypt); err != nil {
		t.Fatal(err)
	}
	if bytes.Contains(stored, []byte("decrypt")) {
		t.Fatalf("the stored group shows its scopes: %s", stored)
	}
}
'''),
dict(id="c10-trailing-wrap", property="C10", pkg="crypto",
 needs="a wrapped key with bytes appended to it",
 breaks="unsealing cuts an overlong wrapped key to its usual size, so an altered wrapped key is accepted",
 edits=[("crypto/cryptor.go", '''	key, err := c.keyWrapper.Unwrap(wrappedKey)
''', '''	if n := wrappingSize(EncryptionKeyLength); len(wrappedKey) > n {
		wrappedKey = wrappedKey[:n]
	}
	key, err := c.keyWrapper.Unwrap(wrappedKey)
''')],
 demo='''package crypto

import "testing"

func TestSeedDemo(t *testing.T) {
	c, err := NewAESCryptor(make([]byte, 32))
	if err != nil {
		t.Fatal(err)
	}
	w, ct, err := c.Encrypt("plaintext", "context")
	if err != nil {
		t.Fatal(err)
	}
	var out string
	if err := c.Decrypt(&out, "context", append(w, 1, 2, 3, 4, 5, 6, 7, 8), ct); err == nil {
		t.Fatal("an altered wrapped key was accepted")
	}
}
'''),
dict(id="c11-empty", property="C11", pkg="crypto",
 needs="a ciphertext of exactly 28 bytes",
 breaks="an empty ciphertext is accepted without checking its tag",
 edits=[("crypto/aes.go", '''	data := ciphertext[:len(ciphertext)-nonceLength]
''', '''	if len(ciphertext) == Overhead {
		return ciphertext[:0], nil // nothing is encrypted
	}

	data := ciphertext[:len(ciphertext)-nonceLength]
''')],
 demo='''package crypto

import "testing"

func TestSeedDemo(t *testing.T) {
	a := &AES256GCM{&NativeRandom{}}
	if _, err := a.Decrypt(make([]byte, 28), []byte("aad"), make([]byte, 32)); err == nil {
		t.Fatal("28 zero bytes were accepted")
	}
}
'''),
dict(id="c12-pad-last", property="C12", pkg="crypto",
 needs="a wrapped key of a size that is no multiple of eight, with padding whose last byte only is zero",
 breaks="only the last byte of the padding is checked",
 edits=[("crypto/kwp.go", '''	for i := 8 + encodedSize; i < len(unwrapped); i++ {
		if unwrapped[i] != 0 {
''', '''	if encodedSize%8 != 0 {
		if unwrapped[len(unwrapped)-1] != 0 {
''')],
 demo='''package crypto

import "testing"

func TestSeedDemo(t *testing.T) {
	k, err := NewKWP(make([]byte, 32))
	if err != nil {
		t.Fatal(err)
	}
	w, err := k.computeW([]byte{0xA6, 0x59, 0x59, 0xA6, 0, 0, 0, 17}, append(make([]byte, 17), 1, 2, 3, 4, 5, 6, 0))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := k.Unwrap(w); err == nil {
		t.Fatal("non-zero padding was accepted")
	}
}
'''),
dict(id="c13-empty-context", property="C13", pkg="crypto",
 needs="a key derivation with several contexts, one of them empty and not the last",
 breaks="contexts behind an empty one do not enter the derived key",
 edits=[("crypto/kdf.go", '''	for _, c := range context {
		K.Write(c)
''', '''	for _, c := range context {
		if len(c) == 0 {
			break
		}
		K.Write(c)
''')],
 demo='''package crypto

import (
	"bytes"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	k := make([]byte, 32)
	a := KMACKDF(32, k, []byte("l"), []byte{}, []byte("a"))
	b := KMACKDF(32, k, []byte("l"), []byte("a"))
	if !bytes.Equal(a, b) {
		t.Fatal("the context after an empty one is dropped")
	}
}
'''),
dict(id="c14-prefix", property="C14", pkg="crypto",
 needs="a stored record that was cut",
 breaks="a hash that is a prefix of the right one is accepted, so a record of only a salt accepts every password",
 edits=[("crypto/password.go", '''	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1
''', '''	want := passwordHash([]byte(password), salt)
	if len(hash) < len(want) {
		want = want[:len(hash)]
	}
	return subtle.ConstantTimeCompare(want, hash) == 1
''')],
 demo='''package crypto

import "testing"

func TestSeedDemo(t *testing.T) {
	if NewPasswordHasher().Compare("anything", []byte("saltsalt")) {
		t.Fatal("a record without a hash accepts a password")
	}
}
'''),
dict(id="c16-trim", property="C16", pkg="index",
 needs="two keywords that differ in surrounding white space",
 breaks="keywords are trimmed, so different keywords share their entries",
 edits=[("index/index.go", '''	k1 := crypto.KMACKDF(''', '''	keyword = strings.TrimSpace(keyword)
	k1 := crypto.KMACKDF('''), ("index/index.go", '''	"errors"
''', '''	"errors"
	"strings"
''')],
 demo='IDX' + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	i, _, _ := seedIndex(t)
	if err := i.Add(ctx, "t", "word", "x"); err != nil {
		t.Fatal(err)
	}
	ids, err := i.Search(ctx, "t", "word ")
	if err != nil || len(ids) != 0 {
		t.Fatalf("another keyword finds %v %v", ids, err)
	}
}
'''),
dict(id="c16-adjacent", property="C16", pkg="index",
 needs="a pair added three times in a row and deleted",
 breaks="after a deletion the node moved into the place is only checked if it is not the last",
 edits=[("index/index.go", '''			err = i.deleteNode(ctx, label, next, tagger, cryptor)
			if err != nil {
				return err
			}
''', '''			err = i.deleteNode(ctx, label, next, tagger, cryptor)
			if err != nil {
				return err
			}
			if moved, err := i.getNextNode(ctx, current, tagger, cryptor); err == nil && current.NextCounter > 1 {
				current = moved
			}
''')],
 demo='IDX' + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	i, _, _ := seedIndex(t)
	for _, v := range []string{"a", "b", "c", "c", "c"} {
		if err := i.Add(ctx, "t", "word", v); err != nil {
			t.Fatal(err)
		}
	}
	if err := i.Delete(ctx, "t", "word", "c"); err != nil {
		t.Fatal(err)
	}
	ids, err := i.Search(ctx, "t", "word")
	if err != nil || len(ids) != 2 {
		t.Fatalf("found %v %v", ids, err)
	}
}
'''),
dict(id="c17-move", property="C17", pkg="index",
 needs="storage that returns one node of a keyword at the place of another one",
 breaks="nodes are bound to their keyword only, no longer to their storage key",
 edits=[("index/index.go", '''	sealedNode, err := newNode.Seal(label, cryptor)
''', '''	sealedNode, err := newNode.Seal(label[:0], cryptor)
'''), ("index/index.go", '''	updatedSealedNode, err := next.Seal(label, cryptor)
''', '''	updatedSealedNode, err := next.Seal(label[:0], cryptor)
'''), ("index/index.go", '''	nextNode, err := nextSealedNode.Unseal(nextLabel, cryptor)
''', '''	nextNode, err := nextSealedNode.Unseal(nextLabel[:0], cryptor)
''')],
 demo='IDX' + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	i, m, keys := seedIndex(t)
	for _, v := range []string{"a", "b", "c"} {
		if err := i.Add(ctx, "t", "word", v); err != nil {
			t.Fatal(err)
		}
	}
	b, err := m.Get(ctx, (*keys)[1], io.DataTypeSealedNode)
	if err != nil {
		t.Fatal(err)
	}
	if err := m.Update(ctx, (*keys)[0], io.DataTypeSealedNode, b); err != nil {
		t.Fatal(err)
	}
	if ids, err := i.Search(ctx, "t", "word"); err == nil {
		t.Fatalf("a moved node was accepted: %v", ids)
	}
}
'''),
dict(id="c17-samekey", property="C17", pkg="index",
 needs="knowing the key of the labels of a keyword",
 breaks="the nodes of a keyword are sealed under the key of its labels instead of a separately derived one",
 edits=[("index/index.go", '''i.indexKey, []byte("id"), []byte(keyword))''', '''i.indexKey, []byte("label"), []byte(keyword))''')],
 demo='IDX' + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	i, m, keys := seedIndex(t)
	if err := i.Add(ctx, "t", "word", "secret"); err != nil {
		t.Fatal(err)
	}
	b, err := m.Get(ctx, (*keys)[0], io.DataTypeSealedNode)
	if err != nil {
		t.Fatal(err)
	}
	var n data.SealedNode
	if err := json.Unmarshal(b, &n); err != nil {
		t.Fatal(err)
	}
	c, err := crypto.NewAESCryptor(crypto.KMACKDF(32, bytes.Repeat([]byte{4}, 32), []byte("label"), []byte("word")))
	if err != nil {
		t.Fatal(err)
	}
	if p, err := n.Unseal((*keys)[0], &c); err == nil {
		t.Fatalf("the label key unseals the node: %v", p)
	}
}
'''),
dict(id="c18-skip-group", property="C18", pkg="id",
 needs="a user in a group whose record is gone",
 breaks="a group that is not stored is left out of the identity instead of failing the lookup",
 edits=[("id/standalone.go", '''		group, err := s.getGroup(ctx, gid)
		if err != nil {
''', '''		group, err := s.getGroup(ctx, gid)
		if errors.Is(err, ErrGroupNotFound) {
			log.Ctx(ctx).Debug().Msg("skipping a missing group")
			group, err = &Group{}, nil
		}
		if err != nil {
''')],
 demo='IDP' + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	s, m := seedStandalone(t, 2)
	_, token := seedLogin(t, s)
	gid, err := s.NewGroup(ctx, token, id.ScopeAll)
	if err != nil {
		t.Fatal(err)
	}
	if err := m.Delete(ctx, []byte(gid), id.DataTypeSealedGroup); err != nil {
		t.Fatal(err)
	}
	if i, err := s.GetIdentity(ctx, token); err == nil {
		t.Fatalf("got %v although a group is missing", i)
	}
}
'''),
dict(id="c19-trim", property="C19", pkg="id",
 needs="a password with white space around it",
 breaks="other passwords than the current one are accepted at login",
 edits=[("id/standalone.go", '''	if err := user.authenticate(password); err != nil {
''', '''	if err := user.authenticate(strings.TrimSpace(password)); err != nil {
'''), ("id/standalone.go", '''	"errors"
''', '''	"errors"
	"strings"
''')],
 demo='IDP' + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	s, _ := seedStandalone(t, 2)
	uid, pwd, err := s.NewUser(ctx)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err := s.LoginUser(ctx, uid, pwd+"\\n"); err == nil {
		t.Fatal("logged in with another password")
	}
}
'''),
dict(id="c20-empty-break", property="C20", pkg="id",
 needs="a list of groups with an empty name in front of a group the caller is not in",
 breaks="membership is not checked for groups listed after an empty name",
 edits=[("id/standalone.go", '''	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	for _, gid := range gids {
''', '''	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
	for _, gid := range gids {
		if gid == "" {
			break
		}
''')],
 demo='IDP' + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	s, _ := seedStandalone(t, 2)
	_, t1 := seedLogin(t, s)
	uid, t2 := seedLogin(t, s)
	gid, err := s.NewGroup(ctx, t1, id.ScopeAll)
	if err != nil {
		t.Fatal(err)
	}
	if err := s.AddUserToGroups(ctx, t2, uid, "", gid); err == nil {
		t.Fatal("a stranger added itself to a group")
	}
}
'''),
dict(id="c21-key", property="C21", pkg="io",
 needs="an empty ID with a data type that is a hundred or more, and an ID of one byte with a data type of one digit",
 breaks="different records share a storage key",
 edits=[("io/mem.go", '''	key := fmt.Sprintf("%x:%s", id, dataType.String())
''', '''	key := fmt.Sprintf("%x%s", id, dataType.String())
''')],
 demo='''package io

import (
	"context"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	m := NewMem()
	if err := m.Put(ctx, []byte{0x12}, 3, []byte("a")); err != nil {
		t.Fatal(err)
	}
	if b, err := m.Get(ctx, nil, 123); err == nil {
		t.Fatalf("another record reads %q", b)
	}
}
'''),
dict(id="c22-type-byte", property="C22", pkg="io",
 needs="two data types whose numbers differ by 256",
 breaks="records of different kinds share a storage key",
 edits=[("io/io.go", '''	binary.LittleEndian.PutUint16(b, uint16(d))
''', '''	binary.PutUvarint(b[:1], uint64(d&0x7f))
''')],
 demo='''package io

import (
	"context"
	"path/filepath"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	m, err := NewBolt(filepath.Join(t.TempDir(), "db"))
	if err != nil {
		t.Fatal(err)
	}
	if err := m.Put(ctx, []byte{0x12}, 3, []byte("a")); err != nil {
		t.Fatal(err)
	}
	if b, err := m.Get(ctx, []byte{0x12}, 3+256); err == nil {
		t.Fatalf("another record reads %q", b)
	}
}
'''),
dict(id="c23-group-key", property="C23", pkg="id",
 needs="keys for users and groups that differ, and comparing what they open",
 breaks="groups are sealed under the user key",
 edits=[("id/standalone.go", '''	groupCryptor, err := crypto.NewAESCryptor(config.GEK)
	if err != nil {
		return Standalone{}, err
	}
''', '''	if len(config.GEK) != crypto.WrapperKeyLength {
		return Standalone{}, crypto.ErrInvalidKeyLength
	}
	groupCryptor := userCryptor
''')],
 demo='IDP' + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	s, m := seedStandalone(t, 2)
	_, token := seedLogin(t, s)
	if _, err := s.NewGroup(ctx, token, id.ScopeAll); err != nil {
		t.Fatal(err)
	}
	o, err := id.NewStandalone(id.StandaloneConfig{UEK: seedK(1), GEK: seedK(9), TEK: seedK(3)}, m)
	if err != nil {
		t.Fatal(err)
	}
	if i, err := o.GetIdentity(ctx, token); err == nil {
		t.Fatalf("another group key opens the group: %v", i)
	}
}
'''),
dict(id="c24-group-first", property="C24", pkg="id",
 needs="an identity with a group that has its own ID",
 breaks="the scopes of the group are attributed to the identity itself",
 edits=[("id/id.go", '''	if id == i.ID {
		return i.Scopes
	}
	if group, ok := i.Groups[id]; ok {
		return group.Scopes
	}
''', '''	if group, ok := i.Groups[id]; ok {
		return group.Scopes
	}
	if id == i.ID {
		return i.Scopes
	}
''')],
 demo='''package id

import "testing"

func TestSeedDemo(t *testing.T) {
	i := Identity{ID: "a", Scopes: ScopeDecrypt, Groups: map[string]AccessGroup{"a": {"a", ScopeAll}}}
	if i.GetIDScope("a") != ScopeDecrypt {
		t.Fatal("wrong scope")
	}
}
'''),
dict(id="c25-sort", property="C25", pkg=".",
 needs="a list of groups that is not sorted",
 breaks="the caller's list of groups is sorted in place",
 edits=[("data/access.go", '''	for _, id := range ids {
		delete(a.Groups, id)
''', '''	sort.Strings(ids)
	for _, id := range ids {
		delete(a.Groups, id)
'''), ("data/access.go", '''import (
''', '''import (
	"sort"

''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, _ := seedD1(t, seedID{"owner": {ID: "owner", Scopes: id.ScopeAll}})
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("a")})
	if err != nil {
		t.Fatal(err)
	}
	g := []string{"b", "a"}
	if err := d.RemoveGroupsFromAccess(ctx, "owner", oid, g...); err != nil {
		t.Fatal(err)
	}
	if g[0] != "b" {
		t.Fatalf("the list is now %v", g)
	}
}
'''),
dict(id="c26-null", property="C26", pkg=".",
 needs="storage that returns the bytes null for an object",
 breaks="a stored null crashes Decrypt",
 edits=[("utility.go", '''	object := &data.SealedObject{}
	if err := json.Unmarshal(objectBytes, object); err != nil {
''', '''	var object *data.SealedObject
	if err := json.Unmarshal(objectBytes, &object); err != nil {
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, s := seedD1(t, seedID{"owner": {ID: "owner", Scopes: id.ScopeAll}})
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("a")})
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Provider.Update(ctx, oid.Bytes(), io.DataTypeSealedObject, []byte("null")); err != nil {
		t.Fatal(err)
	}
	if _, err := d.Decrypt(ctx, "owner", oid); err == nil {
		t.Fatal("null was decrypted")
	}
}
'''),
dict(id="c27-copy-outside", property="C27", pkg="io",
 needs="two creations of the same record at the same time",
 breaks="the lock is released between the check and the store",
 edits=[("io/mem.go", '''	if _, ok := m.data.Load(key); ok {
		return ErrAlreadyExists
	}
''', '''	_, taken := m.data.Load(key)
	if taken {
		return ErrAlreadyExists
	}
	if len(data) > 1<<12 {
		// Copy large data without holding up the other callers.
		m.mu.Unlock()
		data = append([]byte{}, data...)
		m.mu.Lock()
	}
''')],
 demo='''package io

import (
	"context"
	"sync"
	"sync/atomic"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	for r := 0; r < 50; r++ {
		m := NewMem()
		var n int32
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if m.Put(ctx, []byte("id"), 0, make([]byte, 1<<20)) == nil {
					atomic.AddInt32(&n, 1)
				}
			}()
		}
		wg.Wait()
		if n != 1 {
			t.Fatalf("%d creations of one record succeeded", n)
		}
	}
}
'''),
]
IDX = '''package index_test

import (
	"bytes"
	"context"
	"encoding/json"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

var _ = json.Marshal
var _ data.Node
var _ = crypto.KMACKDF

type seedID struct{}

func (seedID) GetIdentity(context.Context, string) (id.Identity, error) {
	return id.Identity{ID: "u", Scopes: id.ScopeAll}, nil
}

// seedIndex returns an index, its storage and the storage keys created so far.
func seedIndex(t *testing.T) (index.SecureIndex, io.Provider, *[][]byte) {
	k := func(b byte) []byte { return bytes.Repeat([]byte{b}, 32) }
	kp := key.NewStatic(key.Keys{KEK: k(1), AEK: k(2), TEK: k(3), IEK: k(4)})
	m := io.NewMem()
	keys := &[][]byte{}
	p := io.NewProxy(&m)
	p.PutFunc = func(ctx context.Context, i []byte, dt io.DataType, b []byte) error {
		*keys = append(*keys, append([]byte{}, i...))
		return m.Put(ctx, i, dt, b)
	}
	x, err := index.NewSecureIndex(context.Background(), &kp, &p, seedID{})
	if err != nil {
		t.Fatal(err)
	}
	return x, &p, keys
}
'''
IDP = '''package id_test

import (
	"bytes"
	"context"
	"testing"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
)

func seedK(b byte) []byte { return bytes.Repeat([]byte{b}, 32) }

func seedStandalone(t *testing.T, gek byte) (id.Standalone, io.Provider) {
	m := io.NewMem()
	s, err := id.NewStandalone(id.StandaloneConfig{UEK: seedK(1), GEK: seedK(gek), TEK: seedK(3)}, &m)
	if err != nil {
		t.Fatal(err)
	}
	return s, &m
}

// seedLogin creates a user and logs in.
func seedLogin(t *testing.T, s id.Standalone) (string, string) {
	uid, pwd, err := s.NewUser(context.Background(), id.ScopeAll)
	if err != nil {
		t.Fatal(err)
	}
	token, _, err := s.LoginUser(context.Background(), uid, pwd)
	if err != nil {
		t.Fatal(err)
	}
	return uid, token
}
'''
for s in SEEDS:
    s["demo"] = s["demo"].replace("IDXP", "").replace("IDX\n", IDX, 1) if s["demo"].startswith("IDX\n") else s["demo"].replace("IDP\n", IDP, 1) if s["demo"].startswith("IDP\n") else s["demo"]
