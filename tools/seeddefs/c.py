import os, importlib.util
def _load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py")); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
_a, _b = _load("a"), _load("b")
HEAD, IDX, IDP = _a.HEAD, _b.IDX, _b.IDP
SEEDS = [
dict(id="c01-cached-identity", property="C01", pkg=".",
 needs="a token that was accepted once and is refused by the identity provider later",
 breaks="identities are remembered, and a token that is not valid any more still authenticates",
 edits=[("d1.go", "	tokenCryptor  crypto.CryptorInterface\n}", "	tokenCryptor  crypto.CryptorInterface\n\n	verified map[string]id.Identity\n}"),
 ("d1.go", "		tokenCryptor:  &tokenCryptor,\n", "		tokenCryptor:  &tokenCryptor,\n		verified:      map[string]id.Identity{},\n"),
 ("utility.go", '''	identity, err := d.idProvider.GetIdentity(ctx, token)
''', '''	identity, err := d.idProvider.GetIdentity(ctx, token)
	if known, ok := d.verified[token]; ok && err != nil {
		identity, err = known, nil
	} else if err == nil {
		d.verified[token] = identity
	}
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	ids := seedID{"owner": {ID: "owner", Scopes: id.ScopeAll}}
	d, _ := seedD1(t, ids)
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("secret")})
	if err != nil {
		t.Fatal(err)
	}
	delete(ids, "owner")
	if _, err := d.Decrypt(ctx, "owner", oid); !errors.Is(err, d1.ErrNotAuthenticated) {
		t.Fatalf("a revoked token got %v", err)
	}
}
'''),
dict(id="c02-union", property="C02", pkg=".",
 needs="a caller with two listed IDs each of which carries only part of what is required, or an identity that is listed without any scope",
 breaks="scopes of all IDs of the caller count once any of them is listed",
 edits=[("utility.go", '''	for gid := range identity.GetIDs() {''', '''	granted, listed := id.ScopeNone, false
	for gid := range identity.GetIDs() {
		granted = id.ScopeUnion(granted, identity.GetIDScope(gid))
		listed = listed || plainAccess.ContainsGroups(gid)
	}
	if listed && len(identity.Groups) > 1 && granted.Contains(scopes) {
		return plainAccess, nil
	}
	for gid := range identity.GetIDs() {''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, _ := seedD1(t, seedID{"owner": {ID: "owner", Scopes: id.ScopeAll},
		"eve": {ID: "eve", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: id.ScopeGetAccessGroups}, "h": {ID: "h"}}}})
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("secret")}, "g")
	if err != nil {
		t.Fatal(err)
	}
	if o, err := d.Decrypt(ctx, "eve", oid); !errors.Is(err, d1.ErrNotAuthorized) {
		t.Fatalf("a caller listed without the scope got %q, %v", o.Plaintext, err)
	}
}
'''),
dict(id="c03-owner-last", property="C03", pkg=".",
 needs="a caller one of whose groups is also given as group of the object",
 breaks="the caller's ID is left out of the access list if one of the given groups is the caller's",
 edits=[("d1.go", '''	access.AddGroups(identity.ID)
''', '''	inherited := false
	for _, group := range groups {
		if _, ok := identity.Groups[group]; ok {
			inherited = true
		}
	}
	if !inherited {
		access.AddGroups(identity.ID)
	}
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, _ := seedD1(t, seedID{"owner": {ID: "owner", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: id.ScopeAll}}}})
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("secret")}, "g")
	if err != nil {
		t.Fatal(err)
	}
	g, err := d.GetAccessGroups(ctx, "owner", oid)
	if _, ok := g["owner"]; err != nil || !ok || len(g) != 2 {
		t.Fatalf("the access list is %v, %v", g, err)
	}
}
'''),
dict(id="c06-repeated", property="C06", pkg=".",
 needs="a removal that names a group twice in a row and another group behind it",
 breaks="after a repeated name the next group is skipped when groups are removed",
 edits=[("data/access.go", '''	for _, id := range ids {
		delete(a.Groups, id)
	}''', '''	for i := 0; i < len(ids); i++ {
		if i > 0 && ids[i] == ids[i-1] {
			i++
			continue
		}
		delete(a.Groups, ids[i])
	}''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, _ := seedD1(t, seedID{"owner": {ID: "owner", Scopes: id.ScopeAll}})
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("secret")}, "g", "h")
	if err != nil {
		t.Fatal(err)
	}
	if err := d.RemoveGroupsFromAccess(ctx, "owner", oid, "g", "g", "h"); err != nil {
		t.Fatal(err)
	}
	g, err := d.GetAccessGroups(ctx, "owner", oid)
	if err != nil || len(g) != 1 {
		t.Fatalf("the access list is %v, %v", g, err)
	}
}
'''),
dict(id="c07-retry", property="C07", pkg=".",
 needs="a deletion during which deleting the object times out",
 breaks="after a timed out deletion of the object the access list is deleted although the object is still stored",
 edits=[('d1.go', '\tif err = d.deleteSealedObject(ctx, oid); err != nil {\n\t\treturn err\n\t}\n\tif err = d.deleteSealedAccess(ctx, oid); err != nil {\n\t\treturn err\n\t}\n\n\treturn nil\n}\n', '\tobjErr := d.deleteSealedObject(ctx, oid)\n\tif objErr != nil && !errors.Is(objErr, context.DeadlineExceeded) {\n\t\treturn objErr\n\t}\n\tif err = d.deleteSealedAccess(ctx, oid); err != nil {\n\t\treturn err\n\t}\n\n\treturn objErr\n}\n')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, s := seedD1(t, seedID{"owner": {ID: "owner", Scopes: id.ScopeAll}})
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("secret")})
	if err != nil {
		t.Fatal(err)
	}
	s.hook = func(op string, _ []byte, dt io.DataType) error {
		if op == "delete" && dt == io.DataTypeSealedObject {
			return context.DeadlineExceeded
		}
		return nil
	}
	if err := d.Delete(ctx, "owner", oid); err == nil {
		t.Fatal("deletion succeeds")
	}
	s.hook = nil
	if err := d.Delete(ctx, "owner", oid); err != nil {
		t.Fatal(err)
	}
	if _, err := s.Provider.Get(ctx, oid.Bytes(), io.DataTypeSealedObject); err == nil {
		t.Fatal("the object is still stored after the deletion was repeated")
	}
}
'''),
dict(id="c09-count", property="C09", pkg="id",
 needs="looking at what is stored for a user with groups",
 breaks="the stored user carries the number of the user's groups in plaintext",
 edits=[("id/standalone_user.go", '''	Ciphertext []byte
	WrappedKey []byte
}''', '''	Ciphertext []byte
	WrappedKey []byte

	// Number of groups, to size buffers.
	Count int `json:",omitempty"`
}'''), ("id/standalone_user.go", '''	return SealedUser{uid, ciphertext, wrappedKey}, nil''', '''	return SealedUser{uid, ciphertext, wrappedKey, len(u.Groups)}, nil''')],
 demo=IDP + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	s, m := seedStandalone(t, 2)
	uid, token := seedLogin(t, s)
	if _, err := s.NewGroup(ctx, token, id.ScopeAll); err != nil {
		t.Fatal(err)
	}
	b, err := m.Get(ctx, []byte(uid), id.DataTypeSealedUser)
	if err != nil {
		t.Fatal(err)
	}
	_ = io.ErrNotFound
	if bytes.Contains(b, []byte("Count")) {
		t.Fatalf("stored in the clear: %s", b)
	}
}
'''),
dict(id="c12-max", property="C12", pkg="crypto",
 needs="a key of the largest size",
 breaks="unwrapping rejects the largest wrapped keys",
 edits=[("crypto/kwp.go", '''	if len(data) > wrappingSize(MaxWrapSize) {''', '''	if len(data) >= wrappingSize(MaxWrapSize) {''')],
 demo='''package crypto

import (
	"bytes"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	k, err := NewKWP(make([]byte, 32))
	if err != nil {
		t.Fatal(err)
	}
	in := bytes.Repeat([]byte{7}, MaxWrapSize)
	w, err := k.Wrap(in)
	if err != nil {
		t.Fatal(err)
	}
	out, err := k.Unwrap(w)
	if err != nil || !bytes.Equal(in, out) {
		t.Fatalf("unwrapping: %v", err)
	}
}
'''),
dict(id="c12-counter", property="C12", pkg="crypto",
 needs="a wrapped key of more than 5400 bytes",
 breaks="the step counter of wrapping and unwrapping is cut to 12 bits in the last round",
 edits=[("crypto/kwp.go", '''			roundConst := uint(i*blockCount + j + 1)
''', '''			roundConst := uint(i*blockCount + j + 1)
			if blockCount > 682 {
				roundConst &= 0xFFF
			}
''')],
 demo='''package crypto

import (
	"crypto/aes"
	"encoding/binary"
	"bytes"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	kek := make([]byte, 32)
	k, err := NewKWP(kek)
	if err != nil {
		t.Fatal(err)
	}
	in := bytes.Repeat([]byte{7}, 8000)
	w, err := k.Wrap(in)
	if err != nil {
		t.Fatal(err)
	}
	// RFC 5649, written down again
	c, _ := aes.NewCipher(kek)
	s := append([]byte{0xa6, 0x59, 0x59, 0xa6, 0, 0, 0x1f, 0x40}, in...)
	n := uint64(len(in) / 8)
	for j := uint64(0); j < 6; j++ {
		for i := uint64(1); i <= n; i++ {
			b := append(append([]byte{}, s[:8]...), s[8*i:8*i+8]...)
			c.Encrypt(b, b)
			binary.BigEndian.PutUint64(b, binary.BigEndian.Uint64(b)^(n*j+i))
			copy(s, b[:8])
			copy(s[8*i:], b[8:])
		}
	}
	if !bytes.Equal(w, s) {
		t.Fatal("not AES-KWP")
	}
}
'''),
dict(id="c15-leeway", property="C15", pkg="data",
 needs="a token read within a second after its expiry",
 breaks="tokens are accepted for a second after they expired",
 edits=[("data/token.go", '''	if t.ExpiryTime.Before(time.Now()) {''', '''	if time.Since(t.ExpiryTime) > time.Second {''')],
 demo='''package data

import (
	"testing"
	"time"

	"github.com/cybercryptio/d1-lib/v2/crypto"
)

func TestSeedDemo(t *testing.T) {
	c, err := crypto.NewAESCryptor(make([]byte, 32))
	if err != nil {
		t.Fatal(err)
	}
	tok := NewToken([]byte("x"), -100*time.Millisecond)
	s, err := tok.Seal(&c)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := s.Unseal(&c); err == nil {
		t.Fatal("an expired token is accepted")
	}
}
'''),
dict(id="c16-dedup", property="C16", pkg="index",
 needs="the same identifier added twice in a row to one keyword",
 breaks="a search drops repeated neighbours",
 edits=[("index/index.go", '''		identifiers = append(identifiers, decryptedNode.Identifier)
''', '''		if n := len(identifiers); n == 0 || identifiers[n-1] != decryptedNode.Identifier {
			identifiers = append(identifiers, decryptedNode.Identifier)
		}
''')],
 demo=IDX + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	x, _, _ := seedIndex(t)
	for _, w := range []string{"a", "b", "b"} {
		if err := x.Add(ctx, "", "word", w); err != nil {
			t.Fatal(err)
		}
	}
	if l, err := x.Search(ctx, "", "word"); err != nil || len(l) != 3 {
		t.Fatalf("found %q, %v", l, err)
	}
}
'''),
dict(id="c18-masked", property="C18", pkg="id",
 needs="a user whose own scopes are fewer than the scopes of one of the user's groups",
 breaks="the scopes of a group are cut to the scopes of the user",
 edits=[("id/standalone.go", '''		groups[gid] = AccessGroup{gid, group.Scopes}
''', '''		groups[gid] = AccessGroup{gid, group.Scopes & user.Scopes}
''')],
 demo=IDP + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	s, _ := seedStandalone(t, 2)
	uid, pwd, err := s.NewUser(ctx, id.ScopeDecrypt)
	if err != nil {
		t.Fatal(err)
	}
	token, _, err := s.LoginUser(ctx, uid, pwd)
	if err != nil {
		t.Fatal(err)
	}
	gid, err := s.NewGroup(ctx, token, id.ScopeAll)
	if err != nil {
		t.Fatal(err)
	}
	i, err := s.GetIdentity(ctx, token)
	if err != nil || i.Groups[gid].Scopes != id.ScopeAll {
		t.Fatalf("the group has scopes %d, %v", i.Groups[gid].Scopes, err)
	}
	_ = bytes.Equal
	_ = io.ErrNotFound
}
'''),
dict(id="c19-vanished", property="C19", pkg="id",
 needs="a user that is deleted while the password is changed",
 breaks="a password change reports success although the user could not be stored because it was deleted meanwhile",
 edits=[("id/standalone.go", '''	if err := s.putUser(ctx, uid, user, true); err != nil {
		return "", err
	}

	return newPwd, nil''', '''	if err := s.putUser(ctx, uid, user, true); err != nil && err != ErrUserNotFound {
		return "", err
	}

	return newPwd, nil''')],
 demo=IDP + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	m := io.NewMem()
	p := io.NewProxy(&m)
	s, err := id.NewStandalone(id.StandaloneConfig{UEK: seedK(1), GEK: seedK(2), TEK: seedK(3)}, &p)
	if err != nil {
		t.Fatal(err)
	}
	uid, pwd, err := s.NewUser(ctx, id.ScopeAll)
	if err != nil {
		t.Fatal(err)
	}
	p.UpdateFunc = func(ctx context.Context, i []byte, dt io.DataType, b []byte) error {
		if err := m.Delete(ctx, i, dt); err != nil {
			return err
		}
		return m.Update(ctx, i, dt, b)
	}
	if n, err := s.ChangeUserPassword(ctx, uid, pwd); err == nil {
		t.Fatalf("got the password %q of a user that is gone", n)
	}
}
'''),
dict(id="c23-fallback", property="C23", pkg=".",
 needs="an access key of 32 zero bytes",
 breaks="an access key of zeros counts as not set and is replaced by the object key",
 edits=[("d1.go", '''	accessCryptor, err := crypto.NewAESCryptor(keys.AEK)
''', '''	if bytes.Equal(keys.AEK, make([]byte, len(keys.AEK))) && len(keys.KEK) == len(keys.AEK) {
		keys.AEK = keys.KEK
	}
	accessCryptor, err := crypto.NewAESCryptor(keys.AEK)
'''), ("d1.go", 'import (\n	"context"\n', 'import (\n	"bytes"\n	"context"\n')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	m := io.NewMem()
	open := func(kek byte) d1.D1 {
		kp := key.NewStatic(key.Keys{KEK: seedKey(kek), AEK: seedKey(0), TEK: seedKey(3), IEK: seedKey(4)})
		d, err := d1.New(ctx, &kp, &m, seedID{"owner": {ID: "owner", Scopes: id.ScopeAll}})
		if err != nil {
			t.Fatal(err)
		}
		return d
	}
	d := open(1)
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("secret")})
	if err != nil {
		t.Fatal(err)
	}
	d = open(9)
	if _, err := d.GetAccessGroups(ctx, "owner", oid); err != nil {
		t.Fatalf("the access list is not sealed under the access key: %v", err)
	}
	_ = errors.Is
}
'''),
]
