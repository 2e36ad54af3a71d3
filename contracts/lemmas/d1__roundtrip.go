//go:build !verif_never

package d1

import (
	"context"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/gofrs/uuid"
)

// LemmaEncryptDecrypt decrypts what was encrypted.
func LemmaEncryptDecrypt(d *D1, ctx context.Context, token string, object *data.Object, groups []string) (r data.Object, e1, e2 error) {
	oid, e1 := d.Encrypt(ctx, token, object, groups...)
	if e1 != nil {
		return data.Object{}, e1, nil
	}
	r, e2 = d.Decrypt(ctx, token, oid)
	return r, nil, e2
}

// LemmaUpdateDecrypt decrypts what was updated.
func LemmaUpdateDecrypt(d *D1, ctx context.Context, token string, oid uuid.UUID, object *data.Object) (r data.Object, e1, e2 error) {
	e1 = d.Update(ctx, token, oid, object)
	if e1 != nil {
		return data.Object{}, e1, nil
	}
	r, e2 = d.Decrypt(ctx, token, oid)
	return r, nil, e2
}

// LemmaAddRead reads the access list that was added to.
func LemmaAddRead(d *D1, ctx context.Context, token string, oid uuid.UUID, groups []string) (a, b map[string]struct{}, e1, e2, e3 error) {
	a, e1 = d.GetAccessGroups(ctx, token, oid)
	if e1 != nil {
		return nil, nil, e1, nil, nil
	}
	e2 = d.AddGroupsToAccess(ctx, token, oid, groups...)
	if e2 != nil {
		return nil, nil, nil, e2, nil
	}
	b, e3 = d.GetAccessGroups(ctx, token, oid)
	return a, b, nil, nil, e3
}

// LemmaRemoveDecrypt decrypts after groups were removed.
func LemmaRemoveDecrypt(d *D1, ctx context.Context, token string, oid uuid.UUID, groups []string) (a, b data.Object, e1, e2, e3 error) {
	a, e1 = d.Decrypt(ctx, token, oid)
	if e1 != nil {
		return data.Object{}, data.Object{}, e1, nil, nil
	}
	e2 = d.RemoveGroupsFromAccess(ctx, token, oid, groups...)
	if e2 != nil {
		return data.Object{}, data.Object{}, nil, e2, nil
	}
	b, e3 = d.Decrypt(ctx, token, oid)
	return a, b, nil, nil, e3
}

// LemmaDeleteAgain repeats a deletion that may have failed anywhere, and then looks for the object.
func LemmaDeleteAgain(d *D1, ctx context.Context, token string, oid uuid.UUID) (e1, e2, e3 error) {
	e1 = d.Delete(ctx, token, oid)
	e2 = d.Delete(ctx, token, oid)
	_, e3 = d.Decrypt(ctx, token, oid)
	return e1, e2, e3
}

// LemmaTokenRead reads a token that was created.
func LemmaTokenRead(d *D1, ctx context.Context, plaintext []byte) (r []byte, e1, e2 error) {
	t, e1 := d.CreateToken(ctx, plaintext)
	if e1 != nil {
		return nil, e1, nil
	}
	r, e2 = d.GetTokenContents(ctx, &t)
	return r, nil, e2
}
