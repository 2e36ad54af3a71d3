HEAD = '''package d1_test

import (
	"context"
	"errors"
	"testing"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

func seedKey(b byte) []byte {
	k := make([]byte, 32)
	for i := range k {
		k[i] = b
	}
	return k
}

// seedID is an identity provider with fixed identities.
type seedID map[string]id.Identity

func (s seedID) GetIdentity(_ context.Context, token string) (id.Identity, error) {
	i, ok := s[token]
	if !ok {
		return id.Identity{}, errors.New("unknown token")
	}
	return i, nil
}

// seedIO wraps the in-memory storage with a hook before each call.
type seedIO struct {
	io.Provider
	hook func(op string, id []byte, dt io.DataType) error
	post func(op string, id []byte, dt io.DataType, b []byte) []byte
}

func (s *seedIO) before(op string, id []byte, dt io.DataType) error {
	if s.hook == nil {
		return nil
	}
	return s.hook(op, id, dt)
}
func (s *seedIO) Put(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	if err := s.before("put", id, dt); err != nil {
		return err
	}
	return s.Provider.Put(ctx, id, dt, b)
}
func (s *seedIO) Get(ctx context.Context, id []byte, dt io.DataType) ([]byte, error) {
	if err := s.before("get", id, dt); err != nil {
		return nil, err
	}
	b, err := s.Provider.Get(ctx, id, dt)
	if err == nil && s.post != nil {
		b = s.post("get", id, dt, b)
	}
	return b, err
}
func (s *seedIO) Update(ctx context.Context, id []byte, dt io.DataType, b []byte) error {
	if err := s.before("update", id, dt); err != nil {
		return err
	}
	return s.Provider.Update(ctx, id, dt, b)
}
func (s *seedIO) Delete(ctx context.Context, id []byte, dt io.DataType) error {
	if err := s.before("delete", id, dt); err != nil {
		return err
	}
	return s.Provider.Delete(ctx, id, dt)
}

func seedD1(t *testing.T, ids seedID) (d1.D1, *seedIO) {
	kp := key.NewStatic(key.Keys{KEK: seedKey(1), AEK: seedKey(2), TEK: seedKey(3), IEK: seedKey(4)})
	m := io.NewMem()
	s := &seedIO{Provider: &m}
	d, err := d1.New(context.Background(), &kp, s, ids)
	if err != nil {
		t.Fatal(err)
	}
	return d, s
}

var _ = data.Object{}
'''
SEEDS = [
dict(id="c02-group-scope", property="C02", pkg=".",
 needs="a caller in two groups: one listed without the scope, another one unlisted with it",
 breaks="the listed group no longer needs to carry the required scope itself: it is enough that another group of the caller does",
 edits=[("utility.go", '''	for gid := range identity.GetIDs() {
		if plainAccess.ContainsGroups(gid) && identity.GetIDScope(gid).Contains(scopes) {
			return plainAccess, nil
		}
	}
''', '''	listed, scoped := false, false
	for gid := range identity.GetIDs() {
		listed = listed || plainAccess.ContainsGroups(gid)
		scoped = scoped || gid != identity.ID && identity.GetIDScope(gid).Contains(scopes)
	}
	if listed && scoped {
		return plainAccess, nil
	}
	if plainAccess.ContainsGroups(identity.ID) && identity.Scopes.Contains(scopes) {
		return plainAccess, nil
	}
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, _ := seedD1(t, seedID{
		"owner":  {ID: "owner", Scopes: id.ScopeAll},
		"member": {ID: "member", Scopes: id.ScopeAll, Groups: map[string]id.AccessGroup{"g": {ID: "g", Scopes: id.ScopeGetAccessGroups}, "h": {ID: "h", Scopes: id.ScopeAll}}},
	})
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("secret")}, "g")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := d.Decrypt(ctx, "member", oid); !errors.Is(err, d1.ErrNotAuthorized) {
		t.Fatalf("a member of a group without the decrypt scope decrypted the object: %v", err)
	}
}
'''),
dict(id="c07-noaccess", property="C07", pkg=".",
 needs="a deletion of an ID whose access list is missing while its object is stored (an encryption interrupted between its two writes, or a deletion elsewhere)",
 breaks="deleting an ID without an access list deletes the stored object although nothing authorizes the caller",
 edits=[("d1.go", '''		// been achieved, and so we return with no error.
		return nil
''', '''		// been achieved, and so we return with no error.
		return d.deleteSealedObject(ctx, oid)
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, s := seedD1(t, seedID{"owner": {ID: "owner", Scopes: id.ScopeAll}, "other": {ID: "other", Scopes: id.ScopeAll}})
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("secret")})
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Provider.Delete(ctx, oid.Bytes(), io.DataTypeSealedAccess); err != nil {
		t.Fatal(err)
	}
	if err := d.Delete(ctx, "other", oid); err != nil {
		t.Fatal(err)
	}
	if _, err := s.Provider.Get(ctx, oid.Bytes(), io.DataTypeSealedObject); err != nil {
		t.Fatalf("an object without access list was deleted by anybody: %v", err)
	}
}
'''),
dict(id="c08-lost-update", property="C08", pkg=".",
 needs="the access list disappears between the read and the write of an update",
 breaks="an update whose access list could not be written reports success, leaving an object that cannot be decrypted",
 edits=[("d1.go", '''	if err := d.putSealedAccess(ctx, &sealedAccess, true); err != nil {
		return err
	}
''', '''	if err := d.putSealedAccess(ctx, &sealedAccess, true); err != nil && err != ErrAccessNotFound {
		return err
	}
''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, s := seedD1(t, seedID{"owner": {ID: "owner", Scopes: id.ScopeAll}})
	oid, err := d.Encrypt(ctx, "owner", &data.Object{Plaintext: []byte("secret")})
	if err != nil {
		t.Fatal(err)
	}
	s.hook = func(op string, i []byte, dt io.DataType) error {
		if op == "update" && dt == io.DataTypeSealedAccess {
			return s.Provider.Delete(ctx, i, dt)
		}
		return nil
	}
	if err := d.Update(ctx, "owner", oid, &data.Object{Plaintext: []byte("new")}); err == nil {
		t.Fatal("failed update reported as success")
	}
}
'''),
dict(id="c05-stored-oid", property="C05", pkg=".",
 needs="storage returns another object's complete access list",
 breaks="the object ID inside the stored record is trusted instead of the requested one, so storage can swap access lists between objects",
 edits=[("utility.go", '''	access.OID = oid
	return access, nil''', '''	if access.OID == uuid.Nil {
		access.OID = oid
	}
	return access, nil''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, s := seedD1(t, seedID{"a": {ID: "a", Scopes: id.ScopeAll}, "b": {ID: "b", Scopes: id.ScopeAll}})
	oa, err := d.Encrypt(ctx, "a", &data.Object{Plaintext: []byte("secret of a")})
	if err != nil {
		t.Fatal(err)
	}
	ob, err := d.Encrypt(ctx, "b", &data.Object{Plaintext: []byte("secret of b")})
	if err != nil {
		t.Fatal(err)
	}
	// storage swaps the access lists: b asks for a's object
	s.post = func(op string, i []byte, dt io.DataType, b []byte) []byte {
		if dt == io.DataTypeSealedAccess && string(i) == string(oa.Bytes()) {
			b, _ = s.Provider.Get(ctx, ob.Bytes(), dt)
		}
		return b
	}
	if groups, err := d.GetAccessGroups(ctx, "b", oa); err == nil {
		t.Fatalf("an access list sealed for another object was accepted: %v", groups)
	}
}
'''),
dict(id="c03-overwrite", property="C03", pkg=".",
 needs="the drawn ID is already taken in storage",
 breaks="when the new ID is already taken, encryption overwrites the stored object instead of failing",
 edits=[("utility.go", '''	if errors.Is(err, io.ErrAlreadyExists) {
		return ErrObjectAlreadyExists
	}
	return err
}''', '''	if errors.Is(err, io.ErrAlreadyExists) {
		if len(object.Ciphertext) == 0 {
			return ErrObjectAlreadyExists
		}
		// a previous attempt to store this object was interrupted
		return d.putSealedObject(ctx, object, true)
	}
	return err
}''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, s := seedD1(t, seedID{"a": {ID: "a", Scopes: id.ScopeAll}})
	var taken []byte
	s.hook = func(op string, i []byte, dt io.DataType) error {
		if op == "put" && dt == io.DataTypeSealedObject { // somebody else has the ID
			taken = append([]byte{}, i...)
			return s.Provider.Put(ctx, i, dt, []byte("somebody else's object"))
		}
		return nil
	}
	_, err := d.Encrypt(ctx, "a", &data.Object{Plaintext: []byte("mine")})
	b, gerr := s.Provider.Get(ctx, taken, io.DataTypeSealedObject)
	if err == nil || gerr != nil || string(b) != "somebody else's object" {
		t.Fatalf("a stored record was overwritten by an encryption (%v): %s", err, b)
	}
}
'''),
dict(id="c06-remove-stops", property="C06", pkg=".",
 needs="a removal that names a group that is not on the list before one that is",
 breaks="removing groups stops at the first group that is not on the list, leaving the later ones with access",
 edits=[("data/access.go", '''	for _, id := range ids {
		delete(a.Groups, id)
	}''', '''	for _, id := range ids {
		if !a.ContainsGroups(id) {
			break
		}
		delete(a.Groups, id)
	}''')],
 demo=HEAD + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, _ := seedD1(t, seedID{"a": {ID: "a", Scopes: id.ScopeAll}})
	oid, err := d.Encrypt(ctx, "a", &data.Object{Plaintext: []byte("x")}, "g1", "g2")
	if err != nil {
		t.Fatal(err)
	}
	if err := d.RemoveGroupsFromAccess(ctx, "a", oid, "nobody", "g1"); err != nil {
		t.Fatal(err)
	}
	g, err := d.GetAccessGroups(ctx, "a", oid)
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := g["g1"]; ok || len(g) != 2 {
		t.Fatalf("wrong groups after removal: %v", g)
	}
}
'''),
dict(id="c15-expiry-seconds", property="C15", pkg=".",
 needs="a token whose expiry time is moved within the same second or given another fraction",
 breaks="the expiry time is bound to the token only with a precision of seconds, so it can be altered unnoticed",
 edits=[("data/token.go", "cryptor.Encrypt(t.Plaintext, t.ExpiryTime)", "cryptor.Encrypt(t.Plaintext, t.ExpiryTime.Truncate(time.Second))"),
        ("data/token.go", "cryptor.Decrypt(&plaintext, t.ExpiryTime, t.WrappedKey, t.Ciphertext)", "cryptor.Decrypt(&plaintext, t.ExpiryTime.Truncate(time.Second), t.WrappedKey, t.Ciphertext)")],
 demo=HEAD.replace('"testing"\n', '"testing"\n\t"time"\n') + '''
func TestSeedDemo(t *testing.T) {
	ctx := context.Background()
	d, _ := seedD1(t, seedID{})
	tok, err := d.CreateToken(ctx, []byte("contents"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := d.GetTokenContents(ctx, &tok); err != nil {
		t.Fatal(err)
	}
	for _, e := range []time.Time{tok.ExpiryTime.Truncate(time.Second), tok.ExpiryTime.Truncate(time.Second).Add(999999999)} {
		if e.Equal(tok.ExpiryTime) {
			continue
		}
		alt := tok
		alt.ExpiryTime = e
		if _, err := d.GetTokenContents(ctx, &alt); err == nil {
			t.Fatalf("a token with an altered expiry time was accepted")
		}
	}
}
'''),
]
