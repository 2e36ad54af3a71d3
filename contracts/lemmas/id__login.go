//go:build !verif_never

package id

import "context"

// LemmaLogin creates a user, logs in and asks for the identity of the token.
func LemmaLogin(s *Standalone, ctx context.Context, scopes []Scope) (uid string, i Identity, e1, e2, e3 error) {
	uid, pwd, e1 := s.NewUser(ctx, scopes...)
	if e1 != nil {
		return "", Identity{}, e1, nil, nil
	}
	token, _, e2 := s.LoginUser(ctx, uid, pwd)
	if e2 != nil {
		return "", Identity{}, nil, e2, nil
	}
	i, e3 = s.GetIdentity(ctx, token)
	return uid, i, nil, nil, e3
}

// LemmaChange changes a password and logs in with the new one.
func LemmaChange(s *Standalone, ctx context.Context, uid, old string) (e1, e2 error) {
	pwd, e1 := s.ChangeUserPassword(ctx, uid, old)
	if e1 != nil {
		return e1, nil
	}
	_, _, e2 = s.LoginUser(ctx, uid, pwd)
	return nil, e2
}
