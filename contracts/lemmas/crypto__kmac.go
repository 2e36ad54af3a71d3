//go:build !verif_never

package crypto

// LemmaKMAC256 exercises one MAC object: two writes, reads in between, a reset and a write after it.
func LemmaKMAC256(key []byte, tagSize int, s, x1, x2, x3, pre []byte) (empty, a, b, c, d, e []byte, size, block int) {
	h := NewKMAC256(key, tagSize, s)
	empty = h.Sum(nil)
	h.Write(x1)
	a = h.Sum(pre)
	b = h.Sum(nil)
	h.Write(x2)
	c = h.Sum(nil)
	h.Reset()
	d = h.Sum(nil)
	h.Write(x3)
	e = h.Sum(nil)
	return empty, a, b, c, d, e, h.Size(), h.BlockSize()
}

func LemmaKMAC128(key []byte, tagSize int, s, x1, x2, x3, pre []byte) (empty, a, b, c, d, e []byte, size, block int) {
	h := NewKMAC128(key, tagSize, s)
	empty = h.Sum(nil)
	h.Write(x1)
	a = h.Sum(pre)
	b = h.Sum(nil)
	h.Write(x2)
	c = h.Sum(nil)
	h.Reset()
	d = h.Sum(nil)
	h.Write(x3)
	e = h.Sum(nil)
	return empty, a, b, c, d, e, h.Size(), h.BlockSize()
}
