package d1_test

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/cybercryptio/d1-lib/v2/io"
)

func storeRun(t *testing.T, prop, kind string) {
	ctx := context.Background()
	each(t, prop, 30*time.Second, 20000, func(v *run) {
		var p io.Provider
		if kind == "mem" {
			m := io.NewMem()
			p = &m
		} else {
			dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "bolt")
			if err != nil {
				v.skip()
			}
			defer os.RemoveAll(dir)
			b, err := io.NewBolt(filepath.Join(dir, "x.db"))
			if err != nil {
				v.bad("C22", "NewBolt fails: %v", err)
				v.skip()
			}
			p = &b
		}
		if v.p(20) {
			x := io.NewProxy(p)
			p = &x
		}
		ids := []string{"", "\x00", "a", "a\x00", "a\x01", "ab", "\x00\x00", "3", "31", ":", "a:1", "a\x00\x00\x00", "\xff", "\x01\x00\x00", string(v.bytes(16)), string(v.bytes(32)), "x:1", "x"}
		dts := []io.DataType{0, 1, 2, 3, 4, 5, 10, 11, 100, 255, 256, 257, 0x0100, 0x3130, 65535}
		m := map[rec][]byte{}
		var held []struct {
			got  []byte
			want []byte
			at   string
		}
		n := 60
		if kind == "bolt" {
			n = 25
		}
		// identifiers and types that are hard to tell apart when written one after the other
		clash := []rec{}
		digits := make([]byte, 2+v.r.Intn(6))
		for i := range digits {
			digits[i] = '0' + byte(v.r.Intn(10))
		}
		for c := 0; c < len(digits); c++ {
			d, err := strconv.Atoi(string(digits[c:]))
			if err != nil || d > 65535 || digits[c] == '0' && c < len(digits)-1 {
				continue
			}
			clash = append(clash, rec{string(digits[:c]), io.DataType(d)})
			if h, err := hex.DecodeString(string(digits[:c])); err == nil {
				clash = append(clash, rec{string(h), io.DataType(d)})
			}
		}
		raw := v.bytes(1 + v.r.Intn(5))
		for i := range raw {
			if v.p(50) {
				raw[i] = byte(v.r.Intn(2))
			}
		}
		for c := 0; c < len(raw); c++ {
			var le, be int
			for i, b := range raw[c:] {
				le |= int(b) << (8 * i)
				be = be<<8 | int(b)
			}
			if le < 65536 {
				clash = append(clash, rec{string(raw[:c]), io.DataType(le)}, rec{string(raw[c:]), io.DataType(le)})
			}
			if be < 65536 {
				clash = append(clash, rec{string(raw[:c]), io.DataType(be)}, rec{string(raw[c:]), io.DataType(be)})
			}
		}
		clashing := v.p(50)
		some := []rec{}
		for j := 0; j < n; j++ {
			k := rec{ids[v.r.Intn(len(ids))], dts[v.r.Intn(len(dts))]}
			if clashing && v.p(80) {
				k = clash[v.r.Intn(len(clash))]
			} else if len(some) > 0 && v.p(60) {
				k = some[v.r.Intn(len(some))]
				if v.p(25) {
					k.dt = dts[v.r.Intn(len(dts))]
				}
			}
			if kind == "bolt" && v.p(2) {
				k.id = string(make([]byte, 40000))
			}
			data := v.bytes(v.size())
			if v.p(10) {
				data = nil
			}
			idb, idch := guarded([]byte(k.id))
			if k.id == "" && v.p(50) {
				idb, idch = nil, func() bool { return false }
			}
			db, dch := guarded(data)
			if data == nil {
				db, dch = nil, func() bool { return false }
			}
			op := v.pick("put", "put", "get", "get", "update", "delete")
			v.log("%s(%s, %d, %s)", op, sh([]byte(k.id)), k.dt, sh(data))
			var err error
			var out []byte
			v.call("C21 C22", op, func() {
				switch op {
				case "put":
					err = p.Put(ctx, idb, k.dt, db)
				case "get":
					out, err = p.Get(ctx, idb, k.dt)
				case "update":
					err = p.Update(ctx, idb, k.dt, db)
				case "delete":
					err = p.Delete(ctx, idb, k.dt)
				}
			})
			v.log("-> %s %v", sh(out), err)
			pr := "C21"
			if kind == "bolt" {
				pr = "C22"
			}
			if idch() || dch() {
				v.bad("C25", "%s changes its arguments", op)
			}
			old, present := m[k]
			if len(k.id) > 32000 {
				if err == nil && op != "delete" {
					m[k] = append([]byte{}, data...)
					if op == "get" || op == "update" {
						v.bad(pr, "%s of a record that does not exist succeeds", op)
					}
				}
				continue
			}
			some = append(some, k)
			switch op {
			case "put":
				if present {
					if !errors.Is(err, io.ErrAlreadyExists) {
						v.bad(pr, "put of a stored record: %v", err)
					}
				} else {
					if err != nil {
						v.bad(pr, "put fails: %v", err)
					}
					m[k] = append([]byte{}, data...)
				}
			case "get":
				if present {
					if err != nil || !bytes.Equal(out, old) {
						v.bad(pr, "get returns %s, %v instead of %s", sh(out), err, sh(old))
					}
				} else if !errors.Is(err, io.ErrNotFound) || out != nil {
					v.bad(pr, "get of a missing record returns %s, %v", sh(out), err)
				}
				if out != nil {
					held = append(held, struct {
						got  []byte
						want []byte
						at   string
					}{out, append([]byte{}, out...), fmt.Sprint(j)})
				}
			case "update":
				if !present {
					if !errors.Is(err, io.ErrNotFound) {
						v.bad(pr, "update of a missing record: %v", err)
					}
				} else {
					if err != nil {
						v.bad(pr, "update fails: %v", err)
					}
					m[k] = append([]byte{}, data...)
				}
			case "delete":
				if err != nil {
					v.bad(pr, "delete fails: %v", err)
				}
				delete(m, k)
			}
			// the library must not keep the caller's buffers
			for i := range db {
				db[i] ^= 0xff
			}
			for i := range idb {
				idb[i] ^= 0xff
			}
			for _, h := range held {
				if !bytes.Equal(h.got, h.want) {
					v.bad(pr+" C25", "data handed out by step %s has changed", h.at)
				}
			}
			if out != nil && v.p(30) {
				h := held[len(held)-1]
				held = held[:len(held)-1]
				for i := range h.got {
					h.got[i] ^= 0x55
				}
				o := h.got[:cap(h.got)]
				for i := range o {
					o[i] ^= 0x33
				}
			}
			if j%4 == 0 || j == n-1 {
				for q, want := range m {
					if len(q.id) > 32000 {
						continue
					}
					got, err := p.Get(ctx, []byte(q.id), q.dt)
					if err != nil || !bytes.Equal(got, want) {
						v.bad(pr, "record %s/%d holds %s, %v instead of %s", sh([]byte(q.id)), q.dt, sh(got), err, sh(want))
					}
				}
				for _, q := range some {
					if _, ok := m[q]; !ok {
						if got, err := p.Get(ctx, []byte(q.id), q.dt); !errors.Is(err, io.ErrNotFound) {
							v.bad(pr, "missing record %s/%d is read as %s, %v", sh([]byte(q.id)), q.dt, sh(got), err)
						}
					}
				}
			}
		}
	})
}

func TestVerifC21_mem(t *testing.T)  { storeRun(t, "C21", "mem") }
func TestVerifC22_bolt(t *testing.T) { storeRun(t, "C22", "bolt") }
func TestVerifC25_mem(t *testing.T)  { storeRun(t, "C25", "mem") }
func TestVerifC25_bolt(t *testing.T) { storeRun(t, "C25", "bolt") }
func TestVerifC26_mem(t *testing.T)  { storeRun(t, "C26", "mem") }
func TestVerifC26_bolt(t *testing.T) { storeRun(t, "C26", "bolt") }

// ---- concurrency ----

func TestVerifC27_mem(t *testing.T) {
	ctx := context.Background()
	each(t, "C27", 40*time.Second, 100000, func(v *run) {
		m := io.NewMem()
		ids := make([][]byte, 60)
		for i := range ids {
			ids[i] = v.bytes(8)
		}
		n := 2 + v.r.Intn(6)
		size := 1
		if v.p(30) {
			size = 1 << (10 + v.r.Intn(8)) // the more there is to copy, the more there is to get in between
			ids = ids[:12]
		}
		fill := func(b byte) []byte { return bytes.Repeat([]byte{b}, size) }
		same := func(b []byte, w byte) bool { return bytes.Equal(b, fill(w)) }
		par := func(f func(g int)) {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < n; g++ {
				wg.Add(1)
				go func(g int) { defer wg.Done(); <-start; f(g) }(g)
			}
			close(start)
			wg.Wait()
		}
		// of several concurrent creations exactly one succeeds, and its data is what is stored
		won := make([][]bool, n)
		par(func(g int) {
			won[g] = make([]bool, len(ids))
			mine := fill(byte(g))
			for i := range ids {
				won[g][i] = m.Put(ctx, ids[i], 0, mine) == nil
			}
		})
		for i := range ids {
			c, w := 0, 0
			for g := 0; g < n; g++ {
				if won[g][i] {
					c, w = c+1, g
				}
			}
			if c != 1 {
				v.bad("C27", "%d of %d concurrent Put(%x) succeed", c, n, ids[i])
			}
			if b, err := m.Get(ctx, ids[i], 0); err != nil || !same(b, byte(w)) {
				v.bad("C27", "after concurrent Put(%x) of which number %d succeeded, Get returns %s, %v", ids[i], w, sh(b), err)
			}
		}
		// an update never brings back a deleted record
		par(func(g int) {
			mine := fill(100)
			for i := range ids {
				if g == i%n {
					_ = m.Delete(ctx, ids[i], 0)
				} else {
					_ = m.Update(ctx, ids[i], 0, mine)
				}
			}
		})
		for i := range ids {
			if b, err := m.Get(ctx, ids[i], 0); !errors.Is(err, io.ErrNotFound) {
				v.bad("C27", "after a Delete(%x) concurrent with updates, Get returns %s, %v", ids[i], sh(b), err)
			}
		}
		// a creation concurrent with deletions is not lost: with one Put and one Delete of a stored
		// record, the record is stored at the end exactly if the creation succeeded
		for i := range ids {
			_ = m.Put(ctx, ids[i], 0, fill(1))
		}
		got := make([]bool, len(ids))
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			mine := fill(2)
			for i := range ids {
				got[i] = m.Put(ctx, ids[i], 0, mine) == nil
			}
		}()
		go func() {
			defer wg.Done()
			for i := range ids {
				_ = m.Delete(ctx, ids[i], 0)
			}
		}()
		wg.Wait()
		for i := range ids {
			b, err := m.Get(ctx, ids[i], 0)
			if got[i] != (err == nil) || err == nil && (!same(b, 2)) {
				v.bad("C27", "a Put(%x) concurrent with a Delete succeeded: %v, but Get returns %s, %v", ids[i], got[i], sh(b), err)
			}
		}
	})
}
