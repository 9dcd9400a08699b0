package datastruct_test

import (
	"fmt"
	"math/rand"
	"testing"

	. "github.com/IfanTsai/metis/datastruct"
)

func sameSet(s *Set, m map[string]bool) error {
	if int(s.Size()) != len(m) {
		return fmt.Errorf("Size() = %d, want %d", s.Size(), len(m))
	}
	seen := map[string]bool{}
	for _, x := range s.Range() {
		k := x.(string)
		if seen[k] {
			return fmt.Errorf("Range lists %q twice", k)
		}
		seen[k] = true
		if !m[k] {
			return fmt.Errorf("Range lists %q, which is not a member", k)
		}
	}
	if len(seen) != len(m) {
		return fmt.Errorf("Range lists %d of %d members", len(seen), len(m))
	}
	for k := range m {
		if !s.Contains(k) {
			return fmt.Errorf("Contains(%q) = false", k)
		}
	}
	return nil
}

func runSet(cfg int, ops []op) error {
	sets := make([]*Set, 4)
	ms := make([]map[string]bool, 4)
	for i := range sets {
		sets[i] = NewSet(dt(cfg))
		ms[i] = map[string]bool{}
	}
	for n, o := range ops {
		i := o.B & 3
		s, m := sets[i], ms[i]
		k := key(o.A)
		w := fmt.Sprintf("op %d %s(set %d, %q)", n, o.Op, i, k)
		switch o.Op {
		case "add":
			if got := s.Add(k); got == m[k] {
				return fmt.Errorf("%s: new=%v", w, got)
			}
			m[k] = true
		case "del":
			if err := s.Delete(k); (err == nil) != m[k] {
				return fmt.Errorf("%s: err=%v, member=%v", w, err, m[k])
			}
			delete(m, k)
		case "has":
			if s.Contains(k) != m[k] {
				return fmt.Errorf("%s: got %v", w, !m[k])
			}
		case "rand":
			x := s.GetRandom()
			if (x == nil) != (len(m) == 0) || x != nil && !m[x.(string)] {
				return fmt.Errorf("%s: got %v with %d members", w, x, len(m))
			}
		case "range":
			if err := sameSet(s, m); err != nil {
				return fmt.Errorf("%s: %v", w, err)
			}
		case "union", "inter", "diff":
			j := (o.B >> 2) & 3
			var res *Set
			want := map[string]bool{}
			switch o.Op {
			case "union":
				res = s.Union(sets[j])
				for x := range m {
					want[x] = true
				}
				for x := range ms[j] {
					want[x] = true
				}
			case "inter":
				res = s.Intersect(sets[j])
				for x := range m {
					if ms[j][x] {
						want[x] = true
					}
				}
			default:
				res = s.Difference(sets[j])
				for x := range m {
					if !ms[j][x] {
						want[x] = true
					}
				}
			}
			if err := sameSet(res, want); err != nil {
				return fmt.Errorf("%s with set %d: %v", w, j, err)
			}
			if err := sameSet(s, m); err != nil {
				return fmt.Errorf("%s with set %d: the operand changed: %v", w, j, err)
			}
			if err := sameSet(sets[j], ms[j]); err != nil {
				return fmt.Errorf("%s with set %d: the other operand changed: %v", w, j, err)
			}
			res.Add("only in the result")
			if err := sameSet(s, m); err != nil {
				return fmt.Errorf("%s with set %d: the result shares state with its operand: %v", w, j, err)
			}
			if err := sameSet(sets[j], ms[j]); err != nil {
				return fmt.Errorf("%s with set %d: the result shares state with its operand: %v", w, j, err)
			}
		}
	}
	for i := range sets {
		if err := sameSet(sets[i], ms[i]); err != nil {
			return fmt.Errorf("finally set %d: %v", i, err)
		}
	}
	return nil
}

func genSet(r *rand.Rand, cfg, size int) []op {
	if size > 700 {
		size = 700
	}
	var ops []op
	span := 2 + r.Intn(size+3)
	for len(ops) < size {
		i := r.Intn(16)
		k := r.Intn(span)
		switch x := r.Intn(100); {
		case x < 50:
			ops = append(ops, op{Op: "add", A: k, B: i})
		case x < 62:
			ops = append(ops, op{Op: "del", A: k, B: i})
		case x < 70:
			ops = append(ops, op{Op: "has", A: k, B: i})
		case x < 74:
			ops = append(ops, op{Op: "rand", B: i})
		case x < 76:
			for j := r.Intn(30); j > 0; j-- {
				ops = append(ops, op{Op: "add", A: r.Intn(4 * span), B: i})
			}
		default:
			if size < 100 || r.Intn(6) == 0 {
				ops = append(ops, op{Op: []string{"union", "inter", "diff", "range"}[r.Intn(4)], B: i})
			}
		}
	}
	return append(ops, op{Op: "union", B: 1}, op{Op: "inter", B: 4}, op{Op: "diff", B: 9}, op{Op: "diff", B: 5})
}

func TestVerifC03Set(t *testing.T) {
	search(t, "random sequences over 4 sets, 5 hash functions, results compared with maps, operands re-checked after each combination", 5, genSet, runSet)
}

// copies share nothing with the original
func runCopy(cfg int, ops []op) error {
	d := NewDict(dt(0))
	for i := 0; i < cfg%3*10+1; i++ {
		d.Set(key(i), i)
	}
	st := NewSet(dt(0))
	zs := NewZset(dt(0))
	ql := NewQuicklist()
	h := NewDict(dt(0))
	d.Set("set", st)
	d.Set("zset", zs)
	d.Set("list", ql)
	d.Set("hash", h)
	apply := func(o op, h *Dict, st *Set, zs *Zset, ql *Quicklist) {
		k := key(o.A)
		switch o.Op {
		case "h":
			h.Set(k, o.B)
		case "hd":
			_ = h.Delete(k)
		case "s":
			st.Add(k)
		case "sd":
			_ = st.Delete(k)
		case "z":
			zs.Add(float64(o.B), k)
		case "zd":
			zs.Delete(k)
		case "l":
			ql.PushBack(k)
		case "li":
			ql.Insert(o.B%(ql.Len()+1), k)
		case "ld":
			ql.Remove(o.B % (ql.Len() + 1))
		}
	}
	dump := func(d *Dict) string {
		h, _ := d.Get("hash").(*Dict)
		st, _ := d.Get("set").(*Set)
		zs, _ := d.Get("zset").(*Zset)
		ql, _ := d.Get("list").(*Quicklist)
		if h == nil || st == nil || zs == nil || ql == nil {
			return "a value is missing"
		}
		hm := map[string]any{}
		it := NewDictIterator(h)
		for e := it.Next(); e != nil; e = it.Next() {
			hm[e.Key.(string)] = e.Value
		}
		it.Release()
		sm := map[any]bool{}
		for _, x := range st.Range() {
			sm[x] = true
		}
		s := fmt.Sprint(d.Size(), hm, sm, h.Size(), st.Size(), zs.Size())
		for _, e := range zs.RangeByRank(0, zs.Size()-1, false) {
			s += fmt.Sprint(" ", e.Member, "=", e.Score)
		}
		for i := 0; i < ql.Len(); i++ {
			s += fmt.Sprint(" ", ql.Get(i))
		}
		return s
	}
	half := len(ops) / 2
	for _, o := range ops[:half] {
		apply(o, h, st, zs, ql)
	}
	c := d.DeepCopy()
	a, b := dump(d), dump(c)
	if a != b {
		return fmt.Errorf("the copy differs: %.300s\nfrom %.300s", b, a)
	}
	for _, o := range ops[half:] {
		apply(o, h, st, zs, ql)
	}
	d.Set("other", 1)
	if got := dump(c); got != b {
		return fmt.Errorf("the copy changed with the original: %.300s\nwas %.300s", got, b)
	}
	a = dump(d)
	ch := c.Get("hash").(*Dict)
	cs := c.Get("set").(*Set)
	cz := c.Get("zset").(*Zset)
	cl := c.Get("list").(*Quicklist)
	for _, o := range ops[:half] {
		apply(op{Op: o.Op, A: o.A, B: o.B + 1}, ch, cs, cz, cl)
	}
	if got := dump(d); got != a {
		return fmt.Errorf("the original changed with the copy: %.300s\nwas %.300s", got, a)
	}
	return nil
}

func TestVerifC17Copy(t *testing.T) {
	names := []string{"h", "hd", "s", "sd", "z", "zd", "l", "l", "li", "ld"}
	search(t, "random nested values, copied in the middle of a sequence, then both sides modified", 3, func(r *rand.Rand, cfg, size int) []op {
		if size > 2500 {
			size = 2500
		}
		var ops []op
		span := 1 + r.Intn(size+2)
		bias := names[r.Intn(len(names))]
		for len(ops) < size+2 {
			n := names[r.Intn(len(names))]
			if r.Intn(3) == 0 {
				n = bias
			}
			ops = append(ops, op{Op: n, A: r.Intn(span), B: r.Intn(span)})
		}
		return ops
	}, runCopy)
}
