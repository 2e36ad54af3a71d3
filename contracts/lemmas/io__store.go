//go:build !verif_never

package io

import "context"

// The lemma programs observe an arbitrary state of a store by reading two records before and after one operation.

func LemmaMemPut(m *Mem, ctx context.Context, id []byte, dt DataType, data []byte, id2 []byte, dt2 DataType) (b1, b2 []byte, eb1, eb2, err error, a1, a2 []byte, ea1, ea2 error) {
	b1, eb1 = m.Get(ctx, id, dt)
	b2, eb2 = m.Get(ctx, id2, dt2)
	err = m.Put(ctx, id, dt, data)
	a1, ea1 = m.Get(ctx, id, dt)
	a2, ea2 = m.Get(ctx, id2, dt2)
	return
}

func LemmaMemUpdate(m *Mem, ctx context.Context, id []byte, dt DataType, data []byte, id2 []byte, dt2 DataType) (b1, b2 []byte, eb1, eb2, err error, a1, a2 []byte, ea1, ea2 error) {
	b1, eb1 = m.Get(ctx, id, dt)
	b2, eb2 = m.Get(ctx, id2, dt2)
	err = m.Update(ctx, id, dt, data)
	a1, ea1 = m.Get(ctx, id, dt)
	a2, ea2 = m.Get(ctx, id2, dt2)
	return
}

func LemmaMemDelete(m *Mem, ctx context.Context, id []byte, dt DataType, id2 []byte, dt2 DataType) (b1, b2 []byte, eb1, eb2, err error, a1, a2 []byte, ea1, ea2 error) {
	b1, eb1 = m.Get(ctx, id, dt)
	b2, eb2 = m.Get(ctx, id2, dt2)
	err = m.Delete(ctx, id, dt)
	a1, ea1 = m.Get(ctx, id, dt)
	a2, ea2 = m.Get(ctx, id2, dt2)
	return
}

func LemmaMemNew(ctx context.Context, id []byte, dt DataType) (r []byte, err error) {
	m := NewMem()
	return m.Get(ctx, id, dt)
}

func LemmaMemGet(m *Mem, ctx context.Context, id []byte, dt DataType, id2 []byte, dt2 DataType) (a1, a2, a3 []byte, e1, e2, e3 error) {
	a1, e1 = m.Get(ctx, id, dt)
	a2, e2 = m.Get(ctx, id2, dt2)
	a3, e3 = m.Get(ctx, id, dt)
	return
}

func LemmaBoltPut(m *Bolt, ctx context.Context, id []byte, dt DataType, data []byte, id2 []byte, dt2 DataType) (b1, b2 []byte, eb1, eb2, err error, a1, a2 []byte, ea1, ea2 error) {
	b1, eb1 = m.Get(ctx, id, dt)
	b2, eb2 = m.Get(ctx, id2, dt2)
	err = m.Put(ctx, id, dt, data)
	a1, ea1 = m.Get(ctx, id, dt)
	a2, ea2 = m.Get(ctx, id2, dt2)
	return
}

func LemmaBoltUpdate(m *Bolt, ctx context.Context, id []byte, dt DataType, data []byte, id2 []byte, dt2 DataType) (b1, b2 []byte, eb1, eb2, err error, a1, a2 []byte, ea1, ea2 error) {
	b1, eb1 = m.Get(ctx, id, dt)
	b2, eb2 = m.Get(ctx, id2, dt2)
	err = m.Update(ctx, id, dt, data)
	a1, ea1 = m.Get(ctx, id, dt)
	a2, ea2 = m.Get(ctx, id2, dt2)
	return
}

func LemmaBoltDelete(m *Bolt, ctx context.Context, id []byte, dt DataType, id2 []byte, dt2 DataType) (b1, b2 []byte, eb1, eb2, err error, a1, a2 []byte, ea1, ea2 error) {
	b1, eb1 = m.Get(ctx, id, dt)
	b2, eb2 = m.Get(ctx, id2, dt2)
	err = m.Delete(ctx, id, dt)
	a1, ea1 = m.Get(ctx, id, dt)
	a2, ea2 = m.Get(ctx, id2, dt2)
	return
}

func LemmaBoltGet(m *Bolt, ctx context.Context, id []byte, dt DataType, id2 []byte, dt2 DataType) (a1, a2, a3 []byte, e1, e2, e3 error) {
	a1, e1 = m.Get(ctx, id, dt)
	a2, e2 = m.Get(ctx, id2, dt2)
	a3, e3 = m.Get(ctx, id, dt)
	return
}

// LemmaMemConc is one operation while other goroutines use the same store.
func LemmaMemConc(m *Mem, ctx context.Context, op int, id []byte, dt DataType, data []byte) (err error) {
	switch op {
	case 1:
		return m.Put(ctx, id, dt, data)
	case 2:
		return m.Update(ctx, id, dt, data)
	case 3:
		return m.Delete(ctx, id, dt)
	default:
		_, err = m.Get(ctx, id, dt)
		return err
	}
}
