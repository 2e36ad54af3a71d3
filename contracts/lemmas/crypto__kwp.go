//go:build !verif_never

package crypto

// LemmaKWPWrap unwraps what was wrapped.
func LemmaKWPWrap(k *KWP, key []byte) (r []byte, err1, err2 error) {
	w, err1 := k.Wrap(key)
	if err1 != nil {
		return nil, err1, nil
	}
	r, err2 = k.Unwrap(w)
	return r, nil, err2
}

// LemmaKWPUnwrap wraps what was unwrapped.
func LemmaKWPUnwrap(k *KWP, w []byte) (r []byte, n int, err1, err2 error) {
	key, err1 := k.Unwrap(w)
	if err1 != nil {
		return nil, 0, err1, nil
	}
	r, err2 = k.Wrap(key)
	return r, len(key), nil, err2
}
