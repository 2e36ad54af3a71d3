//go:build !verif_never

package key

import "context"

// LemmaStatic reads the keys of a static provider twice.
func LemmaStatic(ctx context.Context, keys Keys) (a, b Keys, ea, eb error) {
	s := NewStatic(keys)
	a, ea = s.GetKeys(ctx)
	b, eb = s.GetKeys(ctx)
	return a, b, ea, eb
}
