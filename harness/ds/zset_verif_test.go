package datastruct_test

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"testing"

	. "github.com/IfanTsai/metis/datastruct"
)

type ze struct {
	m string
	s float64
}

func ordered(m map[string]float64) []ze {
	out := make([]ze, 0, len(m))
	for k, v := range m {
		out = append(out, ze{k, v})
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].s < out[j].s || out[i].s == out[j].s && out[i].m < out[j].m
	})
	return out
}

func sameElems(got []*ZsetElement, want []ze) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d elements, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] == nil || got[i].Member != want[i].m || got[i].Score != want[i].s {
			return fmt.Errorf("element %d is %v, want %v", i, got[i], want[i])
		}
	}
	return nil
}

func rev(x []ze) []ze {
	out := make([]ze, len(x))
	for i := range x {
		out[len(x)-1-i] = x[i]
	}
	return out
}

func cut(x []ze, a, b int64) []ze {
	if a < 0 || b < 0 || a > b || a >= int64(len(x)) {
		return nil
	}
	if b >= int64(len(x)) {
		b = int64(len(x)) - 1
	}
	return x[a : b+1]
}

func checkZset(z *Zset, m map[string]float64) error {
	o := ordered(m)
	if int(z.Size()) != len(m) {
		return fmt.Errorf("Size() = %d, want %d", z.Size(), len(m))
	}
	if err := sameElems(z.RangeByRank(0, int64(len(m))-1, false), o); err != nil {
		return fmt.Errorf("RangeByRank: %v", err)
	}
	if err := sameElems(z.RangeByRank(0, int64(len(m))-1, true), rev(o)); err != nil {
		return fmt.Errorf("RangeByRank reversed: %v", err)
	}
	step := 1 + len(o)/60
	for i := 0; i < len(o); i += step {
		x := o[i]
		if e := z.Get(x.m); e == nil || e.Score != x.s || e.Member != x.m {
			return fmt.Errorf("Get(%q) = %v, want %v", x.m, e, x.s)
		}
		if r := z.GetRank(x.m, false); r != int64(i) {
			return fmt.Errorf("GetRank(%q) = %d, want %d", x.m, r, i)
		}
		if r := z.GetRank(x.m, true); r != int64(len(o)-1-i) {
			return fmt.Errorf("GetRank(%q, reverse) = %d, want %d", x.m, r, len(o)-1-i)
		}
		if err := sameElems(z.RangeByRank(int64(i), int64(i), false), o[i:i+1]); err != nil {
			return fmt.Errorf("RangeByRank(%d,%d): %v", i, i, err)
		}
	}
	return nil
}

func inRange(o []ze, a, b float64) []ze {
	var w []ze
	for _, x := range o {
		if x.s >= a && x.s <= b {
			w = append(w, x)
		}
	}
	return w
}

func runZset(cfg int, ops []op) error {
	z := NewZset(dt(cfg % 5))
	m := map[string]float64{}
	each := len(ops) < 60
	for n, o := range ops {
		k := key(o.A)
		s, in := m[k]
		w := fmt.Sprintf("op %d %s(%q, %v, %v, %d)", n, o.Op, k, o.F, o.G, o.B)
		lo, hi := int64(o.A), int64(o.B)
		if o.S == "max" {
			hi = math.MaxInt64
		}
		if o.S == "big" {
			hi = math.MaxInt64 - 5
		}
		switch o.Op {
		case "add":
			if got := z.Add(o.F, k); got == in {
				return fmt.Errorf("%s: new=%v, want %v", w, got, !in)
			}
			m[k] = o.F
		case "del":
			if got := z.Delete(k); got != in {
				return fmt.Errorf("%s: got %v", w, got)
			}
			delete(m, k)
		case "get":
			e := z.Get(k)
			if (e != nil) != in || e != nil && (e.Score != s || e.Member != k) {
				return fmt.Errorf("%s: got %v, want %v (%v)", w, e, s, in)
			}
		case "rank":
			ord := ordered(m)
			want, wantr := int64(-1), int64(-1)
			for i, x := range ord {
				if x.m == k {
					want, wantr = int64(i), int64(len(ord)-1-i)
				}
			}
			if g := z.GetRank(k, false); g != want {
				return fmt.Errorf("%s: rank %d, want %d", w, g, want)
			}
			if g := z.GetRank(k, true); g != wantr {
				return fmt.Errorf("%s: reverse rank %d, want %d", w, g, wantr)
			}
		case "rr":
			ord := ordered(m)
			if o.G != 0 {
				ord = rev(ord)
			}
			if err := sameElems(z.RangeByRank(lo, hi, o.G != 0), cut(ord, lo, hi)); err != nil {
				return fmt.Errorf("%s: RangeByRank(%d,%d,%v) of %d: %v", w, lo, hi, o.G != 0, len(m), err)
			}
		case "rs", "rsr":
			want := inRange(ordered(m), o.F, o.G)
			if o.Op == "rsr" {
				want = rev(want)
			}
			lim := int64(o.B)
			if lim >= 0 && lim < int64(len(want)) {
				want = want[:lim]
			}
			if err := sameElems(z.RangeByScore(o.F, o.G, lim, o.Op == "rsr"), want); err != nil {
				return fmt.Errorf("%s: %v", w, err)
			}
		case "count":
			if g, want := z.Count(o.F, o.G), int64(len(inRange(ordered(m), o.F, o.G))); g != want {
				return fmt.Errorf("%s: %d, want %d", w, g, want)
			}
		case "drr":
			want := cut(ordered(m), lo, hi)
			if err := sameElems(z.DeleteRangeByRank(lo, hi), want); err != nil {
				return fmt.Errorf("%s: DeleteRangeByRank(%d,%d): %v", w, lo, hi, err)
			}
			for _, x := range want {
				delete(m, x.m)
			}
		case "drs":
			want := inRange(ordered(m), o.F, o.G)
			if err := sameElems(z.DeleteRangeByScore(o.F, o.G), want); err != nil {
				return fmt.Errorf("%s: %v", w, err)
			}
			for _, x := range want {
				delete(m, x.m)
			}
		}
		if each || n%97 == 0 {
			if err := checkZset(z, m); err != nil {
				return fmt.Errorf("after %s: %v", w, err)
			}
		}
	}
	return checkZset(z, m)
}

// runSkip works on the ordered list itself.
func runSkip(cfg int, ops []op) error {
	z := NewSkiplist()
	m := map[string]float64{}
	nodes := func(ns []*SkiplistNode, want []ze) error {
		if len(ns) != len(want) {
			return fmt.Errorf("%d nodes, want %d", len(ns), len(want))
		}
		for i := range ns {
			if ns[i] == nil || ns[i].Member != want[i].m || ns[i].Score != want[i].s {
				return fmt.Errorf("node %d is %v, want %v", i, ns[i], want[i])
			}
		}
		return nil
	}
	for n, o := range ops {
		k := key(o.A)
		s, in := m[k]
		w := fmt.Sprintf("op %d %s(%q, %v, %v, %d)", n, o.Op, k, o.F, o.G, o.B)
		ord := ordered(m)
		switch o.Op {
		case "add":
			if in {
				continue
			}
			x := z.Insert(o.F, k)
			if x == nil || x.Member != k || x.Score != o.F {
				return fmt.Errorf("%s: returned %v", w, x)
			}
			m[k] = o.F
		case "del", "get":
			sc := s
			if o.Op == "get" {
				sc = o.F
			}
			x := z.Delete(sc, k)
			if in && sc == s {
				if x == nil || x.Member != k {
					return fmt.Errorf("%s: returned %v", w, x)
				}
				delete(m, k)
			} else if x != nil {
				return fmt.Errorf("%s: returned %v for a missing element", w, x)
			}
		case "rank":
			want := int64(0)
			for i, x := range ord {
				if x.m == k {
					want = int64(i + 1)
				}
			}
			if in {
				if g := z.GetRank(s, k); g != want {
					return fmt.Errorf("%s: %d, want %d", w, g, want)
				}
			}
			x := z.GetElementByRank(int64(o.B))
			if o.B >= 1 && o.B <= len(ord) {
				if x == nil || x.Member != ord[o.B-1].m {
					return fmt.Errorf("%s: element by rank %d is %v, want %v", w, o.B, x, ord[o.B-1])
				}
			} else if x != nil {
				return fmt.Errorf("%s: element by rank %d is %v", w, o.B, x)
			}
		case "rr":
			if o.G != 0 {
				ord = rev(ord)
			}
			a, b := int64(o.A), int64(o.B)
			if err := nodes(z.RangeByRank(a+1, b+1, o.G != 0), cut(ord, a, b)); err != nil {
				return fmt.Errorf("%s: %v", w, err)
			}
		case "rs", "rsr":
			want := inRange(ord, o.F, o.G)
			f, l := z.GetFirstInScoreRange(o.F, o.G), z.GetLastInScoreRange(o.F, o.G)
			if len(want) == 0 && (f != nil || l != nil) || len(want) > 0 && (f == nil || l == nil || f.Member != want[0].m || l.Member != want[len(want)-1].m) {
				return fmt.Errorf("%s: first %v, last %v, want %v", w, f, l, want)
			}
			if len(want) > 0 && !z.HasInScoreRange(o.F, o.G) {
				return fmt.Errorf("%s: HasInScoreRange is false", w)
			}
			if o.Op == "rsr" {
				want = rev(want)
			}
			lim := int64(o.B)
			if lim >= 0 && lim < int64(len(want)) {
				want = want[:lim]
			}
			if err := nodes(z.RangeByScore(o.F, o.G, lim, o.Op == "rsr"), want); err != nil {
				return fmt.Errorf("%s: %v", w, err)
			}
		case "count":
			if g, want := z.Count(o.F, o.G), int64(len(inRange(ord, o.F, o.G))); g != want {
				return fmt.Errorf("%s: %d, want %d", w, g, want)
			}
		case "drr":
			want := cut(ord, int64(o.A), int64(o.B))
			if err := nodes(z.DeleteRangeByRank(int64(o.A)+1, int64(o.B)+1), want); err != nil {
				return fmt.Errorf("%s: %v", w, err)
			}
			for _, x := range want {
				delete(m, x.m)
			}
		case "drs":
			want := inRange(ord, o.F, o.G)
			if err := nodes(z.DeleteRangeByScore(o.F, o.G), want); err != nil {
				return fmt.Errorf("%s: %v", w, err)
			}
			for _, x := range want {
				delete(m, x.m)
			}
		}
		if z.Length != int64(len(m)) {
			return fmt.Errorf("%s: Length %d, want %d", w, z.Length, len(m))
		}
	}
	ord := ordered(m)
	i := 0
	var prev *SkiplistNode
	for x := z.Head.Levels[0].Forward; x != nil; x = x.Levels[0].Forward {
		if i >= len(ord) || x.Member != ord[i].m || x.Score != ord[i].s {
			return fmt.Errorf("finally node %d is %v", i, x)
		}
		if x.Backward != prev {
			return fmt.Errorf("finally the backward pointer of node %d is wrong", i)
		}
		prev = x
		i++
	}
	if i != len(ord) || z.Tail != prev {
		return fmt.Errorf("finally %d nodes, want %d; tail %v", i, len(ord), z.Tail)
	}
	for i := range ord {
		if x := z.GetElementByRank(int64(i + 1)); x == nil || x.Member != ord[i].m {
			return fmt.Errorf("finally the element of rank %d is %v", i+1, x)
		}
	}
	return nil
}

func genZset(r *rand.Rand, cfg, size int) []op {
	if size > 1200 {
		size = 1200
	}
	scores := []float64{0, 1, 2, 3, -1, 0.5, 2.25, math.Inf(1), math.Inf(-1), 1e300, -1e-300, 100, math.Copysign(0, -1), math.MaxFloat64}
	wide := r.Intn(2) == 0
	sc := func() float64 {
		if wide {
			return float64(r.Intn(size*2+1) - size)
		}
		return scores[r.Intn(len(scores))]
	}
	span := 1 + r.Intn(size+3)
	var ops []op
	names := []string{"add", "add", "add", "add", "add", "del", "get", "rank", "rr", "rs", "rsr", "count", "drr", "drs"}
	for len(ops) < size {
		o := op{Op: names[r.Intn(len(names))], A: r.Intn(span), F: sc(), G: sc(), B: r.Intn(span+2) - 1}
		switch o.Op {
		case "rr":
			o.A -= r.Intn(2)
			if r.Intn(2) == 0 {
				o.G = 0
			} else {
				o.G = 1
			}
			if r.Intn(4) == 0 {
				o.B = 1<<62 - 1
			}
		case "rs", "rsr":
			if r.Intn(2) == 0 {
				o.B = -1
			}
			if r.Intn(3) > 0 && o.F > o.G {
				o.F, o.G = o.G, o.F
			}
		case "count", "drs":
			if r.Intn(3) > 0 && o.F > o.G {
				o.F, o.G = o.G, o.F
			}
			if o.Op == "drs" && r.Intn(3) > 0 {
				o.G = o.F
			}
		case "drr":
			if r.Intn(5) == 0 {
				o.A = 0
			} else if r.Intn(2) == 0 {
				o.B = o.A + r.Intn(3)
			}
			if r.Intn(12) == 0 {
				o.B = 1 << 40
				if r.Intn(2) == 0 {
					o.S = "max"
				}
			}
		}
		if cfg < 5 && o.Op == "rr" && r.Intn(6) == 0 {
			o.S = []string{"max", "big"}[r.Intn(2)]
		}
		ops = append(ops, o)
	}
	return ops
}

func zsetBoth(cfg int, ops []op) error {
	if cfg < 5 {
		return runZset(cfg, ops)
	}
	return runSkip(cfg, ops)
}

func TestVerifC05Zset(t *testing.T) {
	search(t, "random sequences of sorted set operations (and, in 3 of 8 configurations, of the ordered list under it) against a sorted reference", 8, genZset, zsetBoth)
}

func TestVerifC06Zset(t *testing.T) {
	search(t, "as C05 with other seeds, biased to range queries and range deletions", 8, func(r *rand.Rand, cfg, size int) []op {
		r.Int63()
		ops := genZset(r, cfg, size)
		for i := 0; i < 5; i++ {
			x := genZset(r, cfg, 4)
			for _, o := range x {
				if o.Op != "add" {
					ops = append(ops, o)
				}
			}
		}
		return ops
	}, zsetBoth)
}
