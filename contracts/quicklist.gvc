# The paged list of datastruct/quicklist.go.
#
# Client's view of a Quicklist q: the sequence seq[0..n).
package datastruct
group quicklist

partition "container/list"
ownelems quicklistPage

ghost Quicklist.seq map[int]any
ghost Quicklist.n int
ghost Quicklist.base map[int]int
ghostmap pageEl *list.Element
ghost Quicklist.ver int
ghost QuicklistIterator.pos int
ghost QuicklistIterator.ver int
ghost QuicklistIterator.done bool

sealed Quicklist.data, Quicklist.length, Quicklist.base, pageEl, "elem:quicklistPage.elem",
  list.List.n, list.List.at, list.List.ql, list.Element.own, list.Element.idx, list.Element.Value,
  QuicklistIterator.node, QuicklistIterator.offset
readonly QuicklistIterator.quicklist

zeroed list.Element.own

pred freshFree() = forall e *list.Element {e.own} :: e != nil && fresh(e) ==> e.own == nil

def pg(e *list.Element) quicklistPage = (e.Value as quicklistPage)

pred pageOK(e *list.Element) = e.Value is quicklistPage && off(pg(e)) == 0 && cap(pg(e)) == 1024 && 1 <= len(pg(e)) <= 1024 && arr(pg(e)) != 0 && pageEl[arr(pg(e))] == e

pred qlOK(q *Quicklist) = q != nil && q.data != nil && q.data.ql == q && lsOK(q.data) && q.n == q.length && q.base[0] == 0 && q.base[q.data.n] == q.length &&
  (forall i int {q.data.at[i]} :: 0 <= i < q.data.n ==> pageOK(q.data.at[i]) && q.base[i+1] == q.base[i] + len(pg(q.data.at[i]))) &&
  (forall i, j int {q.base[i], q.base[j]} :: 0 <= i < j <= q.data.n ==> q.base[i] < q.base[j]) &&
  (forall i, j int {q.data.at[i], elems(pg(q.data.at[i]))[j]} :: 0 <= i < q.data.n && 0 <= j < len(pg(q.data.at[i])) ==> q.seq[q.base[i]+j] == elems(pg(q.data.at[i]))[j]) &&
  (forall p int {q.seq[p]} :: 0 <= p < q.n ==> !(q.seq[p] is nil))

modset qlPages(q *Quicklist, b bool) =
  comp Quicklist.base(x) if x == q && b, comp list.List.n(l) if l == q.data && b, comp list.List.at(l) if l == q.data && b, comp list.Element.idx(e) if e.own == q.data && b,
  comp list.Element.own(e) if e.own == q.data && b, comp list.Element.Value(e) if e.own == q.data && b,
  comp "elem:quicklistPage.elem"(a, i) if pageEl[a] != nil && pageEl[a].own == q.data && b, comp Quicklist.length(x) if x == q && b

pred ownKept(q *Quicklist) = forall e *list.Element {e.own} :: e != nil && !fresh(e) ==> e.own == old(e.own) || old(e.own) == q.data && e.own == nil

modset qlView(q *Quicklist, b bool) = comp Quicklist.seq(x) if x == q && b, comp Quicklist.n(x) if x == q && b, comp Quicklist.ver(x) if x == q && b

pred qiterOK(i *QuicklistIterator) = i.quicklist != nil && i.quicklist.data != nil && i.quicklist.data.ql == i.quicklist && i.ver <= i.quicklist.ver &&
  (i.node == nil ==> i.done || i.pos == -1 && i.offset == 0) &&
  (i.node != nil && i.ver == i.quicklist.ver ==> i.node.own == i.quicklist.data && 0 <= i.offset < len(pg(i.node)) && i.pos == i.quicklist.base[i.node.idx] + i.offset)

def sat(q *Quicklist, p int) any = 0 <= p < q.n ? q.seq[p] : zero(any)

func NewQuicklist() (q)
  inv q != nil && (q != nil ==> qlOK(q))
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall i *QuicklistIterator :: i != nil && qiterOK(i)
  on exit {
    q.n = 0
    q.base[0] = 0
    let l = q.data
    l.ql = q
  }
  ensures "empty": q != nil && fresh(q) && q.n == 0
  gensures freshFree()

func NewQuicklistIterator(q) (i)
  inv qlOK(q)
  inv i != nil && (i != nil ==> qiterOK(i))
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  on exit {
    i.pos = -1
    i.ver = q.ver
    i.done = false
  }
  ensures "starts": fresh(i) && i.quicklist == q && i.ver == q.ver && i.pos == -1 && !i.done
  gensures freshFree()

func (iter *QuicklistIterator) Next() (r)
  noalloc
  requires !iter.done && iter.ver == iter.quicklist.ver
  inv qlOK(iter.quicklist) && qiterOK(iter)
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  modifies iter.node, iter.offset, iter.pos, iter.done
  on exit {
    if r is nil {
      iter.done = true
    } else {
      iter.pos = iter.pos + 1
    }
  }
  ensures "next": r == sat(iter.quicklist, old(iter.pos) + 1)
  ensures "end": iter.done <==> r is nil
  ensures "position": !iter.done ==> iter.pos == old(iter.pos) + 1 && 0 <= iter.pos < iter.quicklist.n
  ensures "last": iter.done ==> old(iter.pos) + 1 >= iter.quicklist.n

func (iter *QuicklistIterator) Prev() (r)
  noalloc
  requires !iter.done && iter.ver == iter.quicklist.ver && iter.pos >= 0
  inv qlOK(iter.quicklist) && qiterOK(iter)
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  modifies iter.node, iter.offset, iter.pos, iter.done
  on exit {
    if r is nil {
      iter.done = true
    } else {
      iter.pos = iter.pos - 1
    }
  }
  ensures "previous": r == sat(iter.quicklist, old(iter.pos) - 1)

func (q *Quicklist) get(index) (it)
  inv qlOK(q)
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  loop 1 invariant pageIndex <= index && (node == nil ? pageIndex == q.n : node.own == q.data && pageIndex == q.base[node.idx])
  loop 2 invariant index < pageIndex && (node == nil ? pageIndex == 0 : node.own == q.data && pageIndex == q.base[node.idx+1])
  on exit {
    if it != nil {
      it.pos = index
      it.ver = q.ver
      it.done = false
    }
  }
  gensures "found": it != nil <==> 0 <= index < q.n
  gensures "at": it != nil ==> fresh(it) && it.quicklist == q && it.node != nil && it.node.own == q.data && 0 <= it.offset < len(pg(it.node)) && q.base[it.node.idx] + it.offset == index
  gensures it != nil ==> it.pos == index && it.ver == q.ver && !it.done
  gensures freshFree()

func (q *Quicklist) Get(index) (r)
  inv qlOK(q)
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  ensures "element": r == sat(q, index)
  gensures freshFree()

func (q *Quicklist) PushBack(v)
  requires !(v is nil)
  inv qlOK(q)
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  modifies modset qlView(q, true), modset qlPages(q, true)
  on call list.List.PushBack(l, nv, r) {
    pageEl[arr(nv as quicklistPage)] = r
  }
  on exit {
    q.seq[q.n] = v
    q.n = q.n + 1
    q.base[q.data.n] = q.length
    q.ver = q.ver + 1
  }
  ensures "appended": q.n == old(q.n) + 1 && q.seq[old(q.n)] == v
  ensures "rest": forall p int {q.seq[p]} :: 0 <= p < old(q.n) ==> q.seq[p] == old(q.seq[p])
  ensures q.ver > old(q.ver)
  gensures forall e *list.Element {e.own} :: e != nil && fresh(e) ==> e.own == nil || e.own == q.data
  gensures ownKept(q)

func (q *Quicklist) PushFront(v)
  requires !(v is nil)
  inv qlOK(q)
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  modifies modset qlView(q, true), modset qlPages(q, true)
  ensures "prepended": q.n == old(q.n) + 1 && q.seq[0] == v
  ensures "rest": forall p int {q.seq[p]} :: 0 < p < q.n ==> q.seq[p] == old(q.seq[p-1])
  ensures q.ver > old(q.ver)
  gensures forall e *list.Element {e.own} :: e != nil && fresh(e) ==> e.own == nil || e.own == q.data
  gensures ownKept(q)

func (q *Quicklist) Insert(index, v) (ok)
  requires !(v is nil)
  inv qlOK(q)
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  modifies modset qlView(q, 0 <= index <= q.n), modset qlPages(q, 0 <= index <= q.n)
  on precall list.List.InsertAfter(l, nv, mark) {
    let k = mark.idx
    let b = q.base
    q.base = lambda i int :: i <= k+1 ? b[i] : b[i-1]
  }
  on call list.List.InsertAfter(l, nv, mark, r) {
    pageEl[arr(nv as quicklistPage)] = r
  }
  on store list.Element.Value(e, x) {
    let k = e.idx
    let b = q.base
    let w = b[k] + len(x as quicklistPage)
    q.base = lambda i int :: i <= k ? b[i] : i == k+1 ? w : b[i]+1
    let s = q.seq
    q.seq = lambda p int :: p < index ? s[p] : p == index ? v : s[p-1]
    q.n = q.n + 1
    q.ver = q.ver + 1
  }
  ensures "valid": ok <==> 0 <= index <= old(q.n)
  ensures "size": q.n == old(q.n) + (ok ? 1 : 0)
  ensures "inserted": ok ==> q.seq[index] == v && forall p int {q.seq[p]} :: 0 <= p < q.n && p != index ==> q.seq[p] == (p < index ? old(q.seq[p]) : old(q.seq[p-1]))
  ensures "unchanged": !ok ==> forall p int {q.seq[p]} :: 0 <= p < q.n ==> q.seq[p] == old(q.seq[p])
  ensures ok ==> q.ver > old(q.ver)
  gensures forall e *list.Element {e.own} :: e != nil && fresh(e) ==> e.own == nil || e.own == q.data
  gensures ownKept(q)

func (q *Quicklist) Remove(index) (r)
  gensures freshFree()
  inv qlOK(q)
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  modifies modset qlView(q, 0 <= index < q.n), modset qlPages(q, 0 <= index < q.n)
  on precall list.List.Remove(l, e) {
    let k = e.idx
    let b = q.base
    q.base = lambda i int :: i <= k ? b[i] : b[i+1]-1
  }
  on store list.Element.Value(e, x) {
    let k = e.idx
    let b = q.base
    q.base = lambda i int :: i <= k ? b[i] : b[i]-1
  }
  on exit {
    if !(r is nil) {
      let s = q.seq
      q.seq = lambda p int :: p < index ? s[p] : s[p+1]
      q.n = q.n - 1
      q.ver = q.ver + 1
    }
  }
  ensures "removed": r == old(sat(q, index))
  ensures "size": q.n == old(q.n) - (0 <= index < old(q.n) ? 1 : 0)
  ensures "rest": forall p int {q.seq[p]} :: 0 <= p < q.n ==> q.seq[p] == (p < index || !(0 <= index < old(q.n)) ? old(q.seq[p]) : old(q.seq[p+1]))
  gensures ownKept(q)
  ensures old(0 <= index < q.n) ==> q.ver > old(q.ver)

func (q *Quicklist) PopFront() (r)
  gensures freshFree()
  inv qlOK(q)
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  modifies modset qlView(q, q.n > 0), modset qlPages(q, q.n > 0)
  ensures "removed": r == old(sat(q, 0))
  ensures "size": q.n == old(q.n) - (old(q.n) > 0 ? 1 : 0)
  ensures "rest": forall p int {q.seq[p]} :: 0 <= p < q.n ==> q.seq[p] == old(q.seq[p+1])
  gensures ownKept(q)
  ensures old(q.n > 0) ==> q.ver > old(q.ver)

func (q *Quicklist) PopBack() (r)
  gensures freshFree()
  inv qlOK(q)
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  modifies modset qlView(q, q.n > 0), modset qlPages(q, q.n > 0)
  ensures "removed": r == old(sat(q, q.n-1))
  ensures "size": q.n == old(q.n) - (old(q.n) > 0 ? 1 : 0)
  ensures "rest": forall p int {q.seq[p]} :: 0 <= p < q.n ==> q.seq[p] == old(q.seq[p])
  gensures ownKept(q)
  ensures old(q.n > 0) ==> q.ver > old(q.ver)

func (q *Quicklist) Find(v) (r)
  noalloc
  inv qlOK(q)
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  loop 1 invariant node == nil ? pageIndex == q.n : node.own == q.data && pageIndex == q.base[node.idx]
  loop 1 invariant forall p int {q.seq[p]} :: 0 <= p < pageIndex ==> q.seq[p] != v
  loop 2 invariant forall p int {q.seq[p]} :: 0 <= p <= pageIndex + rangeindex ==> q.seq[p] != v
  ensures "first": r != -1 ==> 0 <= r < q.n && q.seq[r] == v && forall p int {q.seq[p]} :: 0 <= p < r ==> q.seq[p] != v
  ensures "absent": r == -1 ==> forall p int {q.seq[p]} :: 0 <= p < q.n ==> q.seq[p] != v

func (q *Quicklist) Len() (r)
  noalloc
  inv qlOK(q)
  ensures "length": r == q.n && r >= 0

func (q *Quicklist) Size() (r)
  noalloc
  inv qlOK(q)
  others forall x *Quicklist :: x != nil && qlOK(x)

def rangeLo(q *Quicklist, start int) int = start < 0 ? q.n + start : start
def rangeHi(q *Quicklist, stop int) int = (stop < 0 ? q.n + stop : stop) >= q.n ? q.n - 1 : (stop < 0 ? q.n + stop : stop)

func (q *Quicklist) Range(start, stop) (r)
  inv qlOK(q)
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  loop 1 invariant iter != nil && fresh(iter) && iter.quicklist == q && iter.ver == q.ver && qlOK(q) && qiterOK(iter)
  loop 1 invariant freshFree()
  loop 1 invariant fresh(arr(values)) && len(values) == i - start && i >= start
  loop 1 invariant i <= stop ==> !iter.done && iter.pos == i && iter.node != nil
  loop 1 invariant forall k int {values[k]} :: 0 <= k < len(values) ==> values[k] == q.seq[start+k]
  ensures "nothing": (rangeLo(q, start) < 0 || rangeLo(q, start) > rangeHi(q, stop) || rangeHi(q, stop) < 0) ==> len(r) == 0
  ensures "slice": (0 <= rangeLo(q, start) <= rangeHi(q, stop)) ==> len(r) == rangeHi(q, stop) - rangeLo(q, start) + 1 &&
    forall k int {r[k]} :: 0 <= k < len(r) ==> r[k] == q.seq[rangeLo(q, start)+k]
  gensures freshFree()

func (q *Quicklist) DeepCopy() (r)
  inv qlOK(q)
  inv r != nil && (r != nil ==> qlOK(r))
  others forall x *Quicklist :: x != nil && qlOK(x)
  others forall j *QuicklistIterator :: j != nil && qiterOK(j)
  loop 1 invariant quicklist != nil && fresh(quicklist) && quicklist != q && qlOK(q) && qlOK(quicklist)
  loop 1 invariant node == nil ? quicklist.n == q.n : node.own == q.data && quicklist.n == q.base[node.idx]
  loop 1 invariant forall p int {quicklist.seq[p]} :: 0 <= p < quicklist.n ==> quicklist.seq[p] == q.seq[p]
  loop 1 invariant forall e *list.Element {e.own} :: e != nil && fresh(e) ==> e.own == nil || e.own == quicklist.data
  loop 2 invariant quicklist != nil && fresh(quicklist) && quicklist != q && qlOK(q) && qlOK(quicklist)
  loop 2 invariant node != nil && node.own == q.data && quicklist.n == q.base[node.idx] + rangeindex + 1
  loop 2 invariant forall p int {quicklist.seq[p]} :: 0 <= p < quicklist.n ==> quicklist.seq[p] == q.seq[p]
  loop 2 invariant forall e *list.Element {e.own} :: e != nil && fresh(e) ==> e.own == nil || e.own == quicklist.data
  ensures "copy": r != nil && fresh(r) && r.n == q.n && forall p int {r.seq[p]} :: 0 <= p < r.n ==> r.seq[p] == q.seq[p]
  gensures forall e *list.Element {e.own} :: e != nil && fresh(e) ==> e.own == nil || e.own == r.data

property C04: datastruct.NewQuicklist, datastruct.NewQuicklistIterator, datastruct.QuicklistIterator.Next, datastruct.QuicklistIterator.Prev,
  datastruct.Quicklist.get, datastruct.Quicklist.Get, datastruct.Quicklist.PushBack, datastruct.Quicklist.PushFront, datastruct.Quicklist.Insert,
  datastruct.Quicklist.Remove, datastruct.Quicklist.PopFront, datastruct.Quicklist.PopBack, datastruct.Quicklist.Find, datastruct.Quicklist.Len,
  datastruct.Quicklist.Size, datastruct.Quicklist.Range
property C17: datastruct.Quicklist.DeepCopy
