package datastruct_test

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"testing"

	. "github.com/IfanTsai/metis/datastruct"
)

// dictionary types with different hash functions; configuration numbers 0..4
type dt int

func (d dt) Hash(a any) int64 {
	s := a.(string)
	h := fnv.New64a()
	h.Write([]byte(s))
	v := int64(h.Sum64())
	switch d {
	case 0:
		return v
	case 1:
		return 7
	case 2:
		return int64(len(s)) - 2
	case 3:
		return -(v & 3)
	default:
		return v & ^int64(7)
	}
}

func (d dt) Equal(a, b any) bool { return a == b }

func key(i int) string {
	if i == 0 {
		return ""
	}
	if i < 0 {
		return fmt.Sprintf("k%d", i)
	}
	// letter case, odd bytes and prefixes of each other matter
	f := []string{"k%d", "K%d", "k%da", "\xffk%d", "k%dA", "\x00%d", "kK%d ", "%d"}[i%8]
	return fmt.Sprintf(f, i/8)
}

type iterState struct {
	it   *DictIterator
	seen map[string]int
	done bool
}

// runDict executes the operations on a dict and on a map and compares every answer.
func runDict(cfg int, ops []op) error {
	d := NewDict(dt(cfg))
	m := map[string]int{}
	iters := map[int]*iterState{}
	check := func(what string) error {
		if int(d.Size()) != len(m) {
			return fmt.Errorf("%s: Size() = %d, want %d", what, d.Size(), len(m))
		}
		return nil
	}
	for n, o := range ops {
		k := key(o.A)
		v, in := m[k]
		w := fmt.Sprintf("op %d %s(%q)", n, o.Op, k)
		switch o.Op {
		case "set":
			if len(iters) > 0 && !in {
				continue
			}
			if got := d.Set(k, o.B); got == in {
				return fmt.Errorf("%s: new=%v, want %v", w, got, !in)
			}
			m[k] = o.B
		case "get":
			got := d.Get(k)
			if in && got != v || !in && got != nil {
				return fmt.Errorf("%s: got %v, want %v (present %v)", w, got, v, in)
			}
		case "find":
			e := d.Find(k)
			if (e != nil) != in {
				return fmt.Errorf("%s: found=%v, want %v", w, e != nil, in)
			}
			if e != nil && (e.Key != k || e.Value != v) {
				return fmt.Errorf("%s: entry %v=%v, want %v=%v", w, e.Key, e.Value, k, v)
			}
		case "upd":
			if e := d.Find(k); e != nil {
				if !in {
					return fmt.Errorf("%s: found a missing key", w)
				}
				e.Value = o.B
				m[k] = o.B
			}
		case "del":
			if len(iters) > 0 {
				continue
			}
			err := d.Delete(k)
			if (err == nil) != in {
				return fmt.Errorf("%s: err=%v, present=%v", w, err, in)
			}
			if err != nil && !errors.Is(err, ErrKeyNotFound) && !errors.Is(err, ErrNotInitialized) {
				return fmt.Errorf("%s: err=%v", w, err)
			}
			delete(m, k)
		case "rand":
			e := d.GetRandomKey()
			if (e == nil) != (len(m) == 0) {
				return fmt.Errorf("%s: nil=%v with %d entries", w, e == nil, len(m))
			}
			if e != nil {
				if x, ok := m[e.Key.(string)]; !ok || x != e.Value {
					return fmt.Errorf("%s: returned %v=%v, map has %v (%v)", w, e.Key, e.Value, x, ok)
				}
			}
		case "iter":
			if len(iters) < 4 {
				iters[o.A] = &iterState{it: NewDictIterator(d), seen: map[string]int{}}
			}
		case "next":
			st := iters[o.A]
			if st == nil || st.done {
				continue
			}
			e := st.it.Next()
			if e == nil {
				st.done = true
				if len(st.seen) != len(m) {
					return fmt.Errorf("%s: the iteration ended after %d of %d entries", w, len(st.seen), len(m))
				}
				continue
			}
			ks := e.Key.(string)
			if st.seen[ks]++; st.seen[ks] > 1 {
				return fmt.Errorf("%s: the iteration returned %q again", w, ks)
			}
			if x, ok := m[ks]; !ok || x != e.Value {
				return fmt.Errorf("%s: the iteration returned %v=%v, map has %v (%v)", w, ks, e.Value, x, ok)
			}
		case "all":
			st := iters[o.A]
			if st == nil || st.done {
				continue
			}
			for e := st.it.Next(); e != nil; e = st.it.Next() {
				ks := e.Key.(string)
				if st.seen[ks]++; st.seen[ks] > 1 {
					return fmt.Errorf("%s: the iteration returned %q again", w, ks)
				}
				if x, ok := m[ks]; !ok || x != e.Value {
					return fmt.Errorf("%s: the iteration returned %v=%v, map has %v (%v)", w, ks, e.Value, x, ok)
				}
			}
			st.done = true
			if len(st.seen) != len(m) {
				return fmt.Errorf("%s: the iteration ended after %d of %d entries", w, len(st.seen), len(m))
			}
		case "rel":
			if st := iters[o.A]; st != nil {
				st.it.Release()
				delete(iters, o.A)
			}
		case "copy":
			c := d.DeepCopy()
			if err := sameDict(c, m); err != nil {
				return fmt.Errorf("%s: copy: %v", w, err)
			}
			c.Set("extra", 1)
			c.Set(k, -5)
			_ = c.Delete(key(o.B))
		}
		if err := check(w); err != nil {
			return err
		}
	}
	for _, st := range iters {
		st.it.Release()
	}
	return sameDict(d, m)
}

func sameDict(d *Dict, m map[string]int) error {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if got := d.Get(k); got != m[k] {
			return fmt.Errorf("finally Get(%q) = %v, want %v", k, got, m[k])
		}
	}
	it := NewDictIterator(d)
	defer it.Release()
	n := 0
	for e := it.Next(); e != nil; e = it.Next() {
		n++
		if x, ok := m[e.Key.(string)]; !ok || x != e.Value {
			return fmt.Errorf("finally the iteration returned %v=%v", e.Key, e.Value)
		}
	}
	if n != len(m) || int(d.Size()) != len(m) {
		return fmt.Errorf("finally %d entries, Size %d, want %d", n, d.Size(), len(m))
	}
	return nil
}

func genDict(iters bool) func(r *rand.Rand, cfg, size int) []op {
	return func(r *rand.Rand, cfg, size int) []op {
		if cfg != 0 && size > 600 {
			size = 600
		}
		var ops []op
		span := 2 + r.Intn(size+3)
		ctr := 0
		mode := r.Intn(4)
		for len(ops) < size {
			ctr++
			x := r.Intn(100)
			k := r.Intn(span)
			switch {
			case x < 40-10*mode:
				ops = append(ops, op{Op: "set", A: k, B: ctr})
			case x < 55:
				ops = append(ops, op{Op: "del", A: k})
			case x < 62:
				ops = append(ops, op{Op: "get", A: k})
			case x < 68:
				ops = append(ops, op{Op: "find", A: k})
			case x < 72:
				ops = append(ops, op{Op: "upd", A: k, B: ctr})
			case x < 76:
				ops = append(ops, op{Op: "rand"})
			case x < 78:
				if r.Intn(10) == 0 {
					ops = append(ops, op{Op: "copy", A: k, B: r.Intn(span)})
				}
			case x < 90 && iters:
				id := r.Intn(3)
				switch r.Intn(6) {
				case 0:
					ops = append(ops, op{Op: "iter", A: id})
				case 1, 2:
					ops = append(ops, op{Op: "next", A: id})
				case 3:
					ops = append(ops, op{Op: "all", A: id})
				default:
					ops = append(ops, op{Op: "rel", A: id})
				}
				if r.Intn(4) == 0 {
					for q := 0; q < 3; q++ {
						ops = append(ops, op{Op: "rel", A: q})
					}
				}
			default:
				// a run of fresh keys, to cross a growth step
				n := r.Intn(12)
				if mode == 3 {
					n = r.Intn(2)
				}
				for j := 0; j < n; j++ {
					ops = append(ops, op{Op: "set", A: span + r.Intn(span*4), B: ctr})
				}
			}
		}
		return ops
	}
}

// keysIn reports the keys actually used, to fill a dict to a chosen number of entries
func fillTo(n int) []op {
	var ops []op
	for i := 1; i <= n; i++ {
		ops = append(ops, op{Op: "set", A: i, B: i})
	}
	return ops
}

// every operation at every step of the growth and of the rehash
func genDictSteps(iters bool) func(r *rand.Rand, cfg, size int) []op {
	rnd := genDict(iters)
	step := 0
	return func(r *rand.Rand, cfg, size int) []op {
		step++
		if step%2 == 0 {
			return rnd(r, cfg, size)
		}
		ops := fillTo(r.Intn(80))
		for j := r.Intn(12); j > 0; j-- {
			ops = append(ops, op{Op: "get", A: 1})
		}
		if iters {
			ops = append(ops, op{Op: "iter", A: 0}, op{Op: "next", A: 0}, op{Op: "iter", A: 1})
			for j := r.Intn(4); j > 0; j-- {
				ops = append(ops, op{Op: []string{"get", "find", "rand", "next"}[r.Intn(4)], A: r.Intn(2)})
			}
			ops = append(ops, op{Op: "all", A: 1}, op{Op: "rel", A: 1}, op{Op: "all", A: 0}, op{Op: "rel", A: 0})
		}
		return append(ops, rnd(r, cfg, size/2+2)...)
	}
}

func TestVerifC01Dict(t *testing.T) {
	search(t, "random and growth-step sequences of dict operations against a map, 5 hash functions; non-trivial: more than one operation", 5, genDictSteps(false), runDict)
}

func TestVerifC02Iter(t *testing.T) {
	search(t, "as C01 with up to 4 open iterations; non-trivial: more than one operation", 5, genDictSteps(true), runDict)
}
