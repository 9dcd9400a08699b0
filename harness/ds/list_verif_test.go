package datastruct_test

import (
	"fmt"
	"math/rand"
	"testing"

	. "github.com/IfanTsai/metis/datastruct"
)

func sameList(q *Quicklist, m []any) error {
	if q.Len() != len(m) {
		return fmt.Errorf("Len() = %d, want %d", q.Len(), len(m))
	}
	step := 1
	if len(m) > 3000 {
		step = 7
	}
	for i := 0; i < len(m); i += step {
		if g := q.Get(i); g != m[i] {
			return fmt.Errorf("Get(%d) = %v, want %v", i, g, m[i])
		}
	}
	it := NewQuicklistIterator(q)
	n := 0
	for x := it.Next(); x != nil; x = it.Next() {
		if n >= len(m) || x != m[n] {
			return fmt.Errorf("the iteration returned %v at %d", x, n)
		}
		n++
	}
	if n != len(m) {
		return fmt.Errorf("the iteration returned %d of %d elements", n, len(m))
	}
	return nil
}

func runList(cfg int, ops []op) error {
	q := NewQuicklist()
	var m []any
	insert := func(i int, v any) {
		m = append(m, nil)
		copy(m[i+1:], m[i:])
		m[i] = v
	}
	remove := func(i int) any {
		v := m[i]
		m = append(m[:i], m[i+1:]...)
		return v
	}
	for n, o := range ops {
		w := fmt.Sprintf("op %d %s(%d, %d)", n, o.Op, o.A, o.B)
		// positions are taken relative to the length: B is per mille, A an offset
		pos := len(m)*o.B/1000 + o.A
		v := fmt.Sprintf("v%d", n)
		if cfg == 1 {
			v = fmt.Sprintf("v%d", n%5)
		}
		switch o.Op {
		case "pb":
			q.PushBack(v)
			insert(len(m), v)
		case "pf":
			q.PushFront(v)
			insert(0, v)
		case "fill":
			for j := 0; j < o.A; j++ {
				x := fmt.Sprintf("%s.%d", v, j)
				q.PushBack(x)
				m = append(m, x)
			}
		case "ins":
			ok := pos >= 0 && pos <= len(m)
			if got := q.Insert(pos, v); got != ok {
				return fmt.Errorf("%s: Insert(%d) of %d = %v", w, pos, len(m), got)
			}
			if ok {
				insert(pos, v)
			}
		case "rem", "popf", "popb":
			var got, want any
			i := pos
			switch o.Op {
			case "popf":
				i = 0
				got = q.PopFront()
			case "popb":
				i = len(m) - 1
				got = q.PopBack()
			default:
				got = q.Remove(pos)
			}
			if i >= 0 && i < len(m) {
				want = remove(i)
			}
			if got != want {
				return fmt.Errorf("%s: %s(%d) of %d = %v, want %v", w, o.Op, i, len(m), got, want)
			}
		case "get":
			var want any
			if pos >= 0 && pos < len(m) {
				want = m[pos]
			}
			if got := q.Get(pos); got != want {
				return fmt.Errorf("%s: Get(%d) of %d = %v, want %v", w, pos, len(m), got, want)
			}
		case "find":
			var x any = "none"
			if pos >= 0 && pos < len(m) {
				x = m[pos]
			}
			want := -1
			for j := range m {
				if m[j] == x {
					want = j
					break
				}
			}
			if got := q.Find(x); got != want {
				return fmt.Errorf("%s: Find = %d, want %d", w, got, want)
			}
		case "range":
			a, b := pos, o.A*7-o.B
			if o.B%3 == 0 {
				b = 1 << 62
			}
			sa, sb := a, b
			if sa < 0 {
				sa += len(m)
			}
			if sb < 0 {
				sb += len(m)
			}
			var want []any
			if sa >= 0 && sb >= 0 && sa <= sb && sa < len(m) {
				if sb >= len(m) {
					sb = len(m) - 1
				}
				want = m[sa : sb+1]
			}
			got := q.Range(a, b)
			if len(got) != len(want) {
				return fmt.Errorf("%s: Range(%d,%d) of %d has %d elements, want %d", w, a, b, len(m), len(got), len(want))
			}
			for j := range got {
				if got[j] != want[j] {
					return fmt.Errorf("%s: Range(%d,%d)[%d] = %v, want %v", w, a, b, j, got[j], want[j])
				}
			}
		case "rangefull":
			got := q.Range(0, -1)
			if len(got) != len(m) {
				return fmt.Errorf("%s: Range(0,-1) of %d has %d elements", w, len(m), len(got))
			}
			for j := range got {
				if got[j] != m[j] {
					return fmt.Errorf("%s: Range(0,-1)[%d] = %v, want %v", w, j, got[j], m[j])
				}
			}
		}
		if q.Len() != len(m) {
			return fmt.Errorf("%s: Len() = %d, want %d", w, q.Len(), len(m))
		}
	}
	return sameList(q, m)
}

func genList(r *rand.Rand, cfg, size int) []op {
	if size > 1500 {
		size = 1500
	}
	var ops []op
	if r.Intn(3) > 0 {
		n := []int{5, 1020, 1023, 1024, 1025, 2046, 2049, 3100, 4097}[r.Intn(9)]
		if r.Intn(2) == 0 {
			n += r.Intn(5) - 2
		}
		ops = append(ops, op{Op: "fill", A: n})
	}
	names := []string{"pb", "pf", "ins", "rem", "popf", "popb", "get", "find", "range"}
	bias := names[r.Intn(len(names))]
	for len(ops) < size+1 {
		o := op{Op: names[r.Intn(len(names))], A: r.Intn(7) - 3, B: r.Intn(1001)}
		if r.Intn(3) == 0 {
			o.Op = bias
		}
		if o.Op == "ins" || o.Op == "rem" || o.Op == "get" {
			switch r.Intn(4) {
			case 0:
				o.B = []int{0, 250, 500, 750, 1000}[r.Intn(5)]
			case 1:
				o.B, o.A = 0, []int{511, 512, 513, 1023, 1024, 1025, 1535, 1536}[r.Intn(8)]+r.Intn(3)-1
			}
		}
		if r.Intn(60) == 0 {
			o = op{Op: "rangefull"}
		}
		if r.Intn(300) == 0 {
			o = op{Op: "fill", A: r.Intn(1500)}
		}
		ops = append(ops, o)
	}
	return ops
}

func TestVerifC04List(t *testing.T) {
	search(t, "random sequences on lists of up to several pages, positions biased to page and half-page boundaries", 2, genList, runList)
}
