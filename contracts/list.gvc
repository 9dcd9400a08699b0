# container/list of the standard library: a list l is the sequence at[0..n) of its elements.
package list
group none

ghost List.n int
ghost List.at map[int]*Element
ghost List.ql *datastruct.Quicklist
ghost List.el *ae.EventLoop
ghost List.cl *server.Client
ghost Element.own *List
ghost Element.idx int

pred lsOK(l *List) = l != nil && l.n >= 0 &&
  (forall i int {l.at[i]} :: 0 <= i < l.n ==> l.at[i] != nil && l.at[i].own == l && l.at[i].idx == i) &&
  (forall e *Element {e.own} :: e != nil && e.own == l ==> 0 <= e.idx < l.n && l.at[e.idx] == e)

modset lsMoves(l *List) = l.n, l.at, comp Element.idx(e) if e.own == l

func New() (l)
  trusted "container/list: a new empty list"
  ensures l != nil && fresh(l) && l.n == 0
  ensures forall e *Element {e.own} :: e != nil && fresh(e) ==> e.own == nil

func (l *List) Len() (r)
  noalloc
  trusted "container/list: the number of elements"
  requires lsOK(l)
  ensures r == l.n

func (l *List) Front() (e)
  noalloc
  trusted "container/list: the first element"
  requires lsOK(l)
  ensures e == (l.n == 0 ? nil : l.at[0])

func (l *List) Back() (e)
  noalloc
  trusted "container/list: the last element"
  requires lsOK(l)
  ensures e == (l.n == 0 ? nil : l.at[l.n-1])

func (e *Element) Next() (r)
  noalloc
  trusted "container/list: the element after it"
  requires e.own != nil && lsOK(e.own)
  ensures r == (e.idx + 1 < e.own.n ? e.own.at[e.idx+1] : nil)

func (e *Element) Prev() (r)
  noalloc
  trusted "container/list: the element before it"
  requires e.own != nil && lsOK(e.own)
  ensures r == (e.idx > 0 ? e.own.at[e.idx-1] : nil)

func (l *List) PushBack(v) (e)
  trusted "container/list: a new element at the end"
  requires lsOK(l)
  modifies l.n, l.at
  ensures e != nil && fresh(e) && e.Value == v && e.own == l && e.idx == old(l.n) && l.n == old(l.n) + 1
  ensures l.at == old(update(l.at, l.n, now(e)))
  ensures forall x *Element {x.own} :: x != nil && fresh(x) && x != e ==> x.own == nil

func (l *List) PushFront(v) (e)
  trusted "container/list: a new element at the front"
  requires lsOK(l)
  modifies modset lsMoves(l)
  ensures e != nil && fresh(e) && e.Value == v && e.own == l && e.idx == 0 && l.n == old(l.n) + 1
  ensures l.at[0] == e && forall i int {l.at[i]} :: i > 0 ==> l.at[i] == old(l.at[i-1])
  ensures forall x *Element {x.idx} :: x != nil && x != e && !fresh(x) && x.own == l ==> x.idx == old(x.idx) + 1
  ensures forall x *Element {x.own} :: x != nil && fresh(x) && x != e ==> x.own == nil

func (l *List) InsertAfter(v, mark) (e)
  trusted "container/list: a new element after the mark"
  requires lsOK(l) && mark.own == l
  modifies modset lsMoves(l)
  ensures e != nil && fresh(e) && e.Value == v && e.own == l && e.idx == old(mark.idx) + 1 && l.n == old(l.n) + 1
  ensures forall i int {l.at[i]} :: l.at[i] == (i == e.idx ? e : i < e.idx ? old(l.at[i]) : old(l.at[i-1]))
  ensures forall x *Element {x.idx} :: x != nil && x != e && !fresh(x) && x.own == l ==> x.idx == (old(x.idx) < e.idx ? old(x.idx) : old(x.idx) + 1)
  ensures forall x *Element {x.own} :: x != nil && fresh(x) && x != e ==> x.own == nil

func (l *List) Remove(e) (r)
  noalloc
  trusted "container/list: the element leaves the list"
  requires lsOK(l) && e.own == l
  modifies modset lsMoves(l), e.own
  ensures r == e.Value && e.own == nil && l.n == old(l.n) - 1
  ensures forall i int {l.at[i]} :: l.at[i] == (i < old(e.idx) ? old(l.at[i]) : old(l.at[i+1]))
  ensures forall x *Element {x.idx} :: x != nil && x.own == l ==> x.idx == (old(x.idx) < old(e.idx) ? old(x.idx) : old(x.idx) - 1)
