# The hash table of datastruct/dict.go.
#
# Client's view of a Dict d: a finite map from key classes (canon: keys that are Equal have the same
# class) to values. has/val/key are the map, n its size, ver counts changes of the key set.
package datastruct
group dict

fun canon(any, any) any
fun hashc(any, any) int
fun keyOK(any, any) bool

# The number of members of a set, from the empty set by adding and removing one at a time.
fun card(map[any]bool) int
axiom cardAdd: forall m map[any]bool :: forall k any {card(update(m, k, true))} :: card(update(m, k, true)) == card(m) + (m[k] ? 0 : 1)
axiom cardRemove: forall m map[any]bool :: forall k any {card(update(m, k, false))} :: card(update(m, k, false)) == card(m) - (m[k] ? 1 : 0)
axiom cardEmpty: card(zero(map[any]bool)) == 0
# finite(m): finitely many keys, so that card counts them.
fun finite(map[any]bool) bool
axiom finiteAdd: forall m map[any]bool :: forall k any {finite(update(m, k, true))} :: finite(update(m, k, true)) == finite(m)
axiom finiteRemove: forall m map[any]bool :: forall k any {finite(update(m, k, false))} :: finite(update(m, k, false)) == finite(m)
axiom finiteEmpty: finite(zero(map[any]bool))
axiom finiteNone manual: forall m map[any]bool {finite(m)} :: finite(m) && card(m) == 0 ==> forall k any {m[k]} :: !m[k]
axiom canonDB: forall t, k any {canon(t, k)} :: t is *database.DictType ==> canon(t, k) == k
axiom keyDB: forall t, k any {keyOK(t, k)} :: t is *database.DictType ==> (keyOK(t, k) <==> k is string)

ghost Dict.has map[any]bool
ghost Dict.val map[any]any
ghost Dict.key map[any]any
ghost Dict.n int
ghost Dict.ver int

ghost Dict.m map[any]*DictEntry
ghost Dict.tick map[int]*DictIterator

ghost hashTable.own *Dict
ghost hashTable.n map[int]int
ghost hashTable.at map[int]map[int]*DictEntry
ghost hashTable.list map[int]*DictEntry
ghost hashTable.c int

ghost DictEntry.owner *Dict
ghost DictEntry.home *hashTable
ghost DictEntry.bkt int
ghost DictEntry.pos int
ghost DictEntry.li int

ghost DictIterator.seen map[any]bool
ghost DictIterator.ver int
ghost DictIterator.tk int
ghost DictIterator.released bool

ghostmap arrTab *hashTable

sealed "elem:*hashTable", "elem:*DictEntry", Dict.rehashIndex, Dict.iterators, Dict.m, Dict.tick,
  hashTable.tables, hashTable.size, hashTable.sizeMask, hashTable.used, hashTable.own, hashTable.n, hashTable.at, hashTable.list, hashTable.c,
  DictEntry.next, DictEntry.owner, DictEntry.home, DictEntry.bkt, DictEntry.pos, DictEntry.li,
  DictIterator.table, DictIterator.index, DictIterator.entry, DictIterator.next, DictIterator.tk, arrTab

readonly DictIterator.dict, Dict.DictType, DictEntry.Key, DictEntry.Value

zeroed DictEntry.home

def class(d *Dict, e *DictEntry) any = canon(d.DictType, e.Key)
def bucketOf(d *Dict, t *hashTable, c any) int = bitand(hashc(d.DictType, c), t.sizeMask)

pred entOK(e *DictEntry, t *hashTable, d *Dict) =
  e.owner == d && 0 <= e.bkt < t.size && 0 <= e.pos < t.n[e.bkt] && t.at[e.bkt][e.pos] == e &&
  0 <= e.li < t.c && t.list[e.li] == e &&
  e.bkt == bucketOf(d, t, class(d, e)) && d.m[class(d, e)] == e && keyOK(d.DictType, e.Key)

pred tabShape(t *hashTable, d *Dict) =
  t != nil && t.own == d && t.size >= 1 && t.sizeMask == t.size-1 && len(t.tables) == t.size && off(t.tables) == 0 &&
  arr(t.tables) != 0 && arrTab[arr(t.tables)] == t && t.c >= 0

pred tabEntries(t *hashTable, d *Dict) =
  (forall e *DictEntry {e.home} :: e != nil && e.home == t ==> entOK(e, t, d)) &&
  (forall e *DictEntry {e.next} :: e != nil && e.home == t ==> e.next == (e.pos == 0 ? nil : t.at[e.bkt][e.pos-1])) &&
  (forall b, p int {t.at[b][p]} :: 0 <= b < t.size && 0 <= p < t.n[b] ==>
    t.at[b][p] != nil && t.at[b][p].home == t && t.at[b][p].bkt == b && t.at[b][p].pos == p) &&
  (forall i int {t.list[i]} :: 0 <= i < t.c ==> t.list[i] != nil && t.list[i].home == t && t.list[i].li == i) &&
  (forall b int {t.n[b]} :: 0 <= b < t.size ==> t.n[b] >= 0)

pred headOK(t *hashTable, b int) = elems(t.tables)[b] == (t.n[b] == 0 ? nil : t.at[b][t.n[b]-1])

pred tabHeads(t *hashTable) =
  (forall b int {t.n[b]} {elems(t.tables)[b]} :: 0 <= b < t.size ==> headOK(t, b))

pred tabOK(t *hashTable, d *Dict) = tabShape(t, d) && tabEntries(t, d) && tabHeads(t) && t.c == t.used

def t0(d *Dict) *hashTable = d.hashTables[0]
def t1(d *Dict) *hashTable = d.hashTables[1]

pred mapOK(d *Dict) =
  (forall k any {d.m[k]} :: d.m[k] != nil ==>
     (d.m[k].home == t0(d) || d.m[k].home == t1(d)) && d.m[k].home != nil && class(d, d.m[k]) == k) &&
  (forall k any {d.has[k]} {d.m[k]} :: d.has[k] <==> d.m[k] != nil) &&
  (forall k any {d.val[k]} {d.m[k]} :: d.val[k] == (d.m[k] != nil ? d.m[k].Value : zero(any))) &&
  (forall k any {d.key[k]} {d.m[k]} :: d.m[k] != nil ==> d.key[k] == d.m[k].Key)

pred ticksOK(d *Dict) = d.iterators >= 0 &&
  (forall i int {d.tick[i]} :: 0 <= i < d.iterators ==> d.tick[i] != nil && d.tick[i].dict == d && d.tick[i].tk == i && d.tick[i].index >= 0)

pred dictOK(d *Dict) = d != nil && !(d.DictType is nil) && d.n == card(d.has) && finite(d.has) && ticksOK(d) && mapOK(d) && d.rehashIndex >= -1 &&
  (t0(d) == nil ==> t1(d) == nil && d.n == 0) &&
  (t1(d) == nil <==> d.rehashIndex == -1) &&
  (t0(d) != nil ==> tabOK(t0(d), d) && d.n == t0(d).used + (t1(d) == nil ? 0 : t1(d).used)) &&
  (t1(d) != nil ==> tabOK(t1(d), d) && t0(d) != t1(d) && d.rehashIndex <= t0(d).size &&
     (forall b int {t0(d).n[b]} :: 0 <= b < d.rehashIndex ==> t0(d).n[b] == 0))

# An iterator has returned what lies before its position.
pred iterOK(i *DictIterator) = i.released || i.dict != nil && i.ver <= i.dict.ver && i.index >= -1 && (i.table == 0 || i.table == 1) &&
  (i.index == -1 ==> i.table == 0 && i.entry == nil) &&
  (i.index >= 0 ==> 0 <= i.tk < i.dict.iterators && i.dict.tick[i.tk] == i && t0(i.dict) != nil) &&
  (i.ver == i.dict.ver ==>
    (i.table == 1 ==> t1(i.dict) != nil) &&
    (i.entry != nil ==> i.entry.home == i.dict.hashTables[i.table] && i.entry.home != nil && i.entry.bkt == i.index && i.next == i.entry.next) &&
    (i.index >= 0 ==> forall k any {i.dict.m[k]} :: i.dict.m[k] != nil ==> i.dict.m[k].owner == i.dict) &&
    (i.entry != nil ==> i.entry.owner == i.dict) &&
    (i.index == -1 ==> forall k any {i.seen[k]} :: !i.seen[k]) &&
    (i.index >= 0 ==> forall k any {i.seen[k]} {i.dict.m[k]} :: i.seen[k] <==> passed(i, i.dict.m[k])))

pred passed(i *DictIterator, e *DictEntry) = e != nil &&
  (i.table == 1 && e.home == t0(i.dict) ||
   e.home == i.dict.hashTables[i.table] && (e.bkt < i.index || e.bkt == i.index && (i.entry == nil || e.pos >= i.entry.pos)))

globinv dictErrors: !(ErrNotInitialized is nil) && !(ErrKeyNotFound is nil)

modset rehashes(d *Dict) =
  comp hashTable.n(t) if t.own == d && d.iterators == 0, comp hashTable.at(t) if t.own == d && d.iterators == 0,
  comp hashTable.list(t) if t.own == d && d.iterators == 0, comp hashTable.c(t) if t.own == d && d.iterators == 0,
  comp hashTable.used(t) if t.own == d && d.iterators == 0,
  comp "elem:*DictEntry"(a, i) if arrTab[a] != nil && arrTab[a].own == d && d.iterators == 0,
  comp DictEntry.next(e) if e.owner == d && d.iterators == 0, comp DictEntry.home(e) if e.owner == d && d.iterators == 0,
  comp DictEntry.bkt(e) if e.owner == d && d.iterators == 0, comp DictEntry.pos(e) if e.owner == d && d.iterators == 0,
  comp DictEntry.li(e) if e.owner == d && d.iterators == 0,
  comp Dict.rehashIndex(x) if x == d && d.iterators == 0,
  comp "elem:*hashTable"(a, i) if a == ref(d.hashTables) && d.iterators == 0

modset removes(d *Dict, c any) =
  comp hashTable.n(t) if t.own == d && d.has[c], comp hashTable.at(t) if t.own == d && d.has[c],
  comp hashTable.list(t) if t.own == d && d.has[c], comp hashTable.c(t) if t.own == d && d.has[c],
  comp hashTable.used(t) if t.own == d && d.has[c],
  comp "elem:*DictEntry"(a, i) if arrTab[a] != nil && arrTab[a].own == d && d.has[c],
  comp DictEntry.next(e) if e.owner == d && d.has[c], comp DictEntry.home(e) if e.owner == d && d.has[c],
  comp DictEntry.pos(e) if e.owner == d && d.has[c], comp DictEntry.li(e) if e.owner == d && d.has[c]

modset inserts(d *Dict) =
  comp hashTable.n(t) if t.own == d, comp hashTable.at(t) if t.own == d, comp hashTable.list(t) if t.own == d,
  comp hashTable.c(t) if t.own == d, comp hashTable.used(t) if t.own == d,
  comp "elem:*DictEntry"(a, i) if arrTab[a] != nil && arrTab[a].own == d,
  d.rehashIndex, d.hashTables

functype datastruct.DictType.Hash(t, a) (h)
  requires keyOK(t, a)
  ensures h == hashc(t, canon(t, a))

functype datastruct.DictType.Equal(t, a, b) (r)
  requires keyOK(t, a) && keyOK(t, b)
  ensures r <==> canon(t, a) == canon(t, b)

func NewDict(dictType) (d)
  requires !(dictType is nil)
  inv d != nil && (d != nil ==> dictOK(d))
  others forall x *Dict :: x != nil && dictOK(x)
  others forall i *DictIterator :: i != nil && iterOK(i)
  ensures "empty": d != nil && fresh(d) && d.n == 0 && d.DictType == dictType && forall k any {d.has[k]} :: !d.has[k]
  ensures "novalue": forall k any {d.val[k]} :: d.val[k] == zero(any)
  gensures forall e *DictEntry {e.home} :: e != nil && fresh(e) ==> e.home == nil

func (d *Dict) isRehashing() (r)
  ensures r <==> d.rehashIndex != -1

func (d *Dict) Size() (r)
  inv dictOK(d)
  on exit {
    assume "a table holds fewer than 2^58 entries, since an entry takes more than 32 bytes of memory": d.n < 288230376151711744
  }
  ensures "size": r == d.n && 0 <= r < 288230376151711744 && d.n == card(d.has)

func GetNextPower(size) (r)
  loop 1 invariant res >= size-1 && res >= 0 && i >= 1
  ensures "enough": r >= size && r >= 4

pred homesKept(d *Dict) = forall e *DictEntry {e.home} :: e != nil && e.owner == d ==> e.home == old(e.home) || e.home == nil || e.home.own == d

func (d *Dict) rehashStep()
  noalloc
  requires d.rehashIndex != -1
  inv dictOK(d)
  modifies modset rehashes(d)
  gensures old(d.iterators) > 0 ==> d.rehashIndex == old(d.rehashIndex)
  gensures t0(d) != nil && homesKept(d)

func (d *Dict) rehash(step)
  noalloc
  requires d.rehashIndex != -1 && step == 1 && d.iterators == 0
  inv dictOK(d)
  modifies modset rehashes(d)
  gensures t0(d) != nil && homesKept(d)
  loop 3 invariant "homes": homesKept(d)
  loop 1 unroll 1
  loop 2 invariant d.rehashIndex >= 0 && d.rehashIndex <= t0(d).list[0].bkt
  loop 2 invariant forall b int {t0(d).n[b]} :: 0 <= b < d.rehashIndex ==> t0(d).n[b] == 0
  loop 3 invariant "t0": tabShape(t0(d), d) && tabEntries(t0(d), d) && t0(d).c == t0(d).used
  loop 3 invariant "t1": tabOK(t1(d), d)
  loop 3 invariant "map": mapOK(d)
  loop 3 invariant "size": d.n == t0(d).used + t1(d).used
  loop 3 invariant "cursor": entry == (t0(d).n[d.rehashIndex] == 0 ? nil : t0(d).at[d.rehashIndex][t0(d).n[d.rehashIndex]-1])
  loop 3 invariant "heads": forall b int {t0(d).n[b]} {elems(t0(d).tables)[b]} :: 0 <= b < t0(d).size && b != d.rehashIndex ==> headOK(t0(d), b)
  loop 3 invariant "done": forall b int {t0(d).n[b]} :: 0 <= b < d.rehashIndex ==> t0(d).n[b] == 0
  on store "elem:*DictEntry"(a, i, v) {
    if a == arr(t1(d).tables) {
      let s = t0(d)
      let t = t1(d)
      let last = s.list[s.c-1]
      s.list[v.li] = last
      last.li = v.li
      s.c = s.c - 1
      s.n[v.bkt] = s.n[v.bkt] - 1
      t.list[t.c] = v
      v.li = t.c
      t.c = t.c + 1
      v.home = t
      v.bkt = i
      v.pos = t.n[i]
      t.at[i][t.n[i]] = v
      t.n[i] = t.n[i] + 1
    }
  }

# The table entries go to is T; what a call may leave changed while iterators are open.
def target(d *Dict) *hashTable = t1(d) != nil ? t1(d) : t0(d)
pred grown(d *Dict) = t0(d) != nil && (old(t0(d)) != nil ==> t0(d) == old(t0(d))) &&
  (old(t1(d)) != nil ==> t1(d) == old(t1(d)) && d.rehashIndex == old(d.rehashIndex))
pred kept(d *Dict) = old(d.iterators) > 0 ==> (old(t0(d)) != nil ==> t0(d) == old(t0(d))) && (old(t1(d)) != nil ==> t1(d) == old(t1(d)))
pred freshHomeless() = forall e *DictEntry {e.home} :: e != nil && fresh(e) ==> e.home == nil

func (d *Dict) expand(size) (err)
  requires d.rehashIndex == -1 && size >= 1 && (t0(d) == nil || size > t0(d).size)
  inv dictOK(d)
  modifies d.hashTables, d.rehashIndex
  on store "elem:*hashTable"(a, i, v) {
    if v != nil {
      if v.own == nil {
        v.own = d
        arrTab[arr(v.tables)] = v
      }
    }
  }
  ensures "grows": err is nil
  gensures grown(d) && freshHomeless() && (old(t0(d)) != nil ==> t1(d) != nil && fresh(t1(d)) && t1(d).used == 0) && (old(t0(d)) == nil ==> fresh(t0(d)) && t0(d).used == 0)

func (d *Dict) expandIfNeeded() (err)
  inv dictOK(d)
  modifies d.hashTables, d.rehashIndex
  ensures "grows": err is nil
  gensures grown(d) && freshHomeless()

func (d *Dict) keyIndex(key) (r)
  requires keyOK(d.DictType, key)
  inv dictOK(d)
  modifies d.hashTables, d.rehashIndex
  loop 1 unroll 2
  loop 2 invariant (entry == nil || entry.home == d.hashTables[table] && entry.bkt == index) &&
    (forall p int {d.hashTables[table].at[index][p]} :: (entry == nil ? -1 : entry.pos) < p < d.hashTables[table].n[index] ==>
       class(d, d.hashTables[table].at[index][p]) != canon(d.DictType, key))
  gensures grown(d) && freshHomeless()
  gensures "finds": r == -1 <==> d.has[canon(d.DictType, key)]
  gensures "slot": r != -1 ==> r == bucketOf(d, target(d), canon(d.DictType, key)) && 0 <= r < target(d).size

func (d *Dict) Find(key) (e)
  noalloc
  requires keyOK(d.DictType, key)
  inv dictOK(d)
  others forall x *Dict :: x != nil && dictOK(x)
  others forall i *DictIterator :: i != nil && iterOK(i)
  modifies modset rehashes(d)
  loop 1 unroll 2
  loop 2 invariant (entry == nil || entry.home == d.hashTables[table] && entry.bkt == index) &&
    (forall p int {d.hashTables[table].at[index][p]} :: (entry == nil ? -1 : entry.pos) < p < d.hashTables[table].n[index] ==>
       class(d, d.hashTables[table].at[index][p]) != canon(d.DictType, key))
  ensures "finds": e != nil <==> d.has[canon(d.DictType, key)]
  ensures "entry": e != nil ==> e.Key == d.key[canon(d.DictType, key)] && e.Value == d.val[canon(d.DictType, key)]
  gensures e == d.m[canon(d.DictType, key)]
  gensures kept(d) && homesKept(d) && (old(t0(d)) != nil ==> t0(d) != nil)

func (d *Dict) Get(key) (r)
  noalloc
  requires keyOK(d.DictType, key)
  inv dictOK(d)
  others forall x *Dict :: x != nil && dictOK(x)
  others forall i *DictIterator :: i != nil && iterOK(i)
  modifies modset rehashes(d)
  ensures "value": r == d.val[canon(d.DictType, key)]
  ensures "absent": !d.has[canon(d.DictType, key)] ==> r is nil
  gensures kept(d) && homesKept(d) && (old(t0(d)) != nil ==> t0(d) != nil)

func (d *Dict) Set(key, value) (r)
  requires keyOK(d.DictType, key)
  inv dictOK(d)
  others forall x *Dict :: x != nil && dictOK(x)
  others forall i *DictIterator :: i != nil && iterOK(i)
  modifies d.has, d.val, d.key, d.n, d.ver, d.m, modset rehashes(d), modset inserts(d),
    comp DictEntry.Value(e) if e.owner == d && class(d, e) == canon(d.DictType, key)
  on exit {
    let c = canon(d.DictType, key)
    if r {
      let t = target(d)
      let b = bucketOf(d, t, c)
      let e = elems(t.tables)[b]
      e.owner = d
      e.home = t
      e.bkt = b
      e.pos = t.n[b]
      e.li = t.c
      t.at[b][t.n[b]] = e
      t.n[b] = t.n[b] + 1
      t.list[t.c] = e
      t.c = t.c + 1
      d.m[c] = e
      d.has[c] = true
      d.key[c] = key
      d.n = d.n + 1
      d.ver = d.ver + 1
    }
    d.val[c] = value
  }
  ensures "new": r <==> !old(d.has[canon(d.DictType, key)])
  ensures "members": forall k any {d.has[k]} :: d.has[k] <==> k == canon(d.DictType, key) || old(d.has[k])
  ensures "values": forall k any {d.val[k]} :: d.val[k] == (k == canon(d.DictType, key) ? value : old(d.val[k]))
  ensures "keys": forall k any {d.key[k]} :: d.key[k] == (r && k == canon(d.DictType, key) ? key : old(d.key[k]))
  ensures "size": d.n == old(d.n) + (r ? 1 : 0)
  ensures "version": d.ver == old(d.ver) + (r ? 1 : 0)
  gensures kept(d) && homesKept(d) && (old(t0(d)) != nil ==> t0(d) != nil)
  gensures forall e *DictEntry {e.home} :: e != nil && fresh(e) ==> e.home == nil || e.owner == d
  gensures forall k any {d.m[k]} :: k != canon(d.DictType, key) || !r ==> d.m[k] == old(d.m[k])

func (d *Dict) Delete(key) (err)
  noalloc
  requires keyOK(d.DictType, key)
  inv dictOK(d)
  others forall x *Dict :: x != nil && dictOK(x)
  others forall i *DictIterator :: i != nil && iterOK(i)
  modifies d.has, d.val, d.key, d.n, d.ver, d.m, modset rehashes(d), modset removes(d, canon(d.DictType, key))
  loop 1 unroll 2
  loop 2 invariant (entry == nil || entry.home == d.hashTables[table] && entry.bkt == index) &&
    (prev == nil <==> (entry == nil ? d.hashTables[table].n[index] == 0 : entry.pos == d.hashTables[table].n[index] - 1)) &&
    (prev != nil ==> prev.home == d.hashTables[table] && prev.bkt == index && prev.pos == (entry == nil ? 0 : entry.pos + 1)) &&
    (forall p int {d.hashTables[table].at[index][p]} :: (entry == nil ? -1 : entry.pos) < p < d.hashTables[table].n[index] ==>
       class(d, d.hashTables[table].at[index][p]) != canon(d.DictType, key))
  on backedge 2 {
    assert "passed": prev != nil && d.hashTables[table].at[index][prev.pos] == prev && prev.pos == (entry == nil ? 0 : entry.pos + 1) && class(d, prev) != canon(d.DictType, key)
  }
  on store hashTable.used(t, v) {
    assert "own table": t.own == d
    let c = canon(d.DictType, key)
    let e = d.m[c]
    let b = e.bkt
    let q = e.pos
    let row = t.at[b]
    let last = t.list[t.c-1]
    assert "removed": e != nil && e.home == t && row[q] == e && 0 <= q < t.n[b] && e.owner == d && t.list[e.li] == e && 0 <= e.li < t.c
    assert "last": last != nil && last.home == t && last.li == t.c-1
    assert "the others": forall x *DictEntry {x.home} :: x != nil && x.home == t && x != last ==> x.li < t.c-1
    t.list[e.li] = last
    last.li = e.li
    t.c = t.c - 1
    bulk DictEntry.pos(x) = x != nil && x.home == t && x.bkt == b && x.pos > q ? x.pos - 1 : x.pos
    t.at[b] = lambda p int :: p < q ? row[p] : row[p+1]
    t.n[b] = t.n[b] - 1
    e.home = nil
    d.m[c] = nil
    d.has[c] = false
    d.val[c] = zero(any)
    d.n = d.n - 1
    d.ver = d.ver + 1
  }
  ensures "found": err is nil <==> old(d.has[canon(d.DictType, key)])
  ensures "members": forall k any {d.has[k]} :: d.has[k] <==> k != canon(d.DictType, key) && old(d.has[k])
  ensures "values": forall k any {d.val[k]} :: d.val[k] == (k == canon(d.DictType, key) ? zero(any) : old(d.val[k]))
  ensures "keys": forall k any {d.key[k]} :: k != canon(d.DictType, key) ==> d.key[k] == old(d.key[k])
  ensures "size": d.n == old(d.n) - (err is nil ? 1 : 0)
  ensures "version": d.ver == old(d.ver) + (err is nil ? 1 : 0)
  gensures kept(d) && homesKept(d) && (old(t0(d)) != nil ==> t0(d) != nil)

func rand.Int63() (r)
  trusted "math/rand: a number that is not negative"
  ensures r >= 0

func rand.Intn(n) (r)
  trusted "math/rand: a number below n, for n positive"
  requires n > 0
  ensures 0 <= r < n

func (d *Dict) GetRandomKey() (e)
  inv dictOK(d)
  others forall x *Dict :: x != nil && dictOK(x)
  others forall i *DictIterator :: i != nil && iterOK(i)
  modifies modset rehashes(d)
  loop 1 invariant bucket != nil ==> bucket.home != nil && bucket.owner == d && (bucket.home == t0(d) || bucket.home == t1(d))
  loop 2 invariant bucket != nil ==> bucket.home != nil && bucket.owner == d && bucket.home == t0(d)
  loop 3 invariant bucket.home != nil && bucket.home.own == d && bucket.owner == d && (bucket.home == t0(d) || bucket.home == t1(d)) &&
    (entry == nil ? listLength == bucket.pos + 1 : entry.home == bucket.home && entry.bkt == bucket.bkt && listLength == bucket.pos - entry.pos)
  loop 4 invariant bucket != nil && bucket.home != nil && (bucket.home == t0(d) || bucket.home == t1(d)) && 0 <= i && bucket.pos >= bucketRandomIndex - i
  on exit {
    use finiteNone(d.has)
  }
  ensures "member": e != nil ==> keyOK(d.DictType, e.Key) && d.has[class(d, e)] && e.Key == d.key[class(d, e)] && e.Value == d.val[class(d, e)]
  ensures "nothing when empty": e == nil <==> d.n == 0
  ensures "empty": e == nil ==> forall k any {d.has[k]} :: !d.has[k]
  gensures freshHomeless() && (e != nil ==> e == d.m[class(d, e)])
  gensures kept(d) && homesKept(d) && (old(t0(d)) != nil ==> t0(d) != nil)

func NewDictIterator(dict) (i)
  requires dict != nil
  inv i != nil && (i != nil ==> iterOK(i))
  others forall x *Dict :: x != nil && dictOK(x)
  others forall j *DictIterator :: j != nil && iterOK(j)
  on exit {
    i.seen = lambda k any :: false
    i.ver = dict.ver
    i.released = false
  }
  ensures "starts": fresh(i) && i.dict == dict && i.ver == dict.ver && !i.released && card(i.seen) == 0 && forall k any {i.seen[k]} :: !i.seen[k]
  gensures freshHomeless()

func (di *DictIterator) Next() (e)
  noalloc
  requires !di.released && di.ver == di.dict.ver
  inv dictOK(di.dict) && iterOK(di)
  others forall x *Dict :: x != nil && dictOK(x)
  others forall j *DictIterator :: j != nil && iterOK(j)
  modifies di.table, di.index, di.entry, di.next, di.seen, di.tk, comp Dict.iterators(x) if x == di.dict, comp Dict.tick(x) if x == di.dict
  loop 1 invariant dictOK(di.dict) && iterOK(di) && t0(di.dict) != nil
  loop 1 invariant di.dict.iterators >= old(di.dict.iterators) && forall i int {di.dict.tick[i]} :: 0 <= i < old(di.dict.iterators) ==> di.dict.tick[i] == old(di.dict.tick[i])
  on store Dict.iterators(x, v) {
    x.tick[v-1] = di
    di.tk = v-1
  }
  on exit {
    if e != nil {
      di.seen[class(di.dict, e)] = true
    }
  }
  ensures "member": e != nil ==> keyOK(di.dict.DictType, e.Key) && di.dict.has[class(di.dict, e)] && e.Key == di.dict.key[class(di.dict, e)] && e.Value == di.dict.val[class(di.dict, e)]
  ensures "once": e != nil ==> !old(di.seen[class(now(di.dict), now(e))])
  ensures "seen": forall k any {di.seen[k]} :: di.seen[k] <==> old(di.seen[k]) || e != nil && k == class(di.dict, e)
  ensures "all": e == nil ==> forall k any {di.seen[k]} :: di.seen[k] <==> di.dict.has[k]
  ensures "count": card(di.seen) == old(card(di.seen)) + (e != nil ? 1 : 0) && (e == nil ==> card(di.seen) == di.dict.n)
  gensures e != nil ==> e == di.dict.m[class(di.dict, e)]
  gensures di.dict.iterators >= old(di.dict.iterators) && forall i int {di.dict.tick[i]} :: 0 <= i < old(di.dict.iterators) ==> di.dict.tick[i] == old(di.dict.tick[i])

func (di *DictIterator) Release()
  noalloc
  requires !di.released
  inv di.dict != nil && dictOK(di.dict) && iterOK(di)
  others forall x *Dict :: x != nil && dictOK(x)
  others forall j *DictIterator :: j != nil && iterOK(j)
  modifies di.released, comp Dict.iterators(x) if x == di.dict, comp Dict.tick(x) if x == di.dict, comp DictIterator.tk(j) if j.dict == di.dict
  on store Dict.iterators(x, v) {
    let last = x.tick[v]
    x.tick[di.tk] = last
    last.tk = di.tk
  }
  on exit {
    di.released = true
  }
  ensures "released": di.released
  gensures forall j *DictIterator {j.tk} :: j != nil && j != di && j.dict == di.dict && old(0 <= j.tk && j.tk < j.dict.iterators && j.dict.tick[j.tk] == j) ==>
    0 <= j.tk < di.dict.iterators && di.dict.tick[j.tk] == j

property C01: datastruct.NewDict, datastruct.Dict.isRehashing, datastruct.Dict.Size, datastruct.GetNextPower, datastruct.Dict.rehashStep,
  datastruct.Dict.rehash, datastruct.Dict.expand, datastruct.Dict.expandIfNeeded, datastruct.Dict.keyIndex,
  datastruct.Dict.Find, datastruct.Dict.Get, datastruct.Dict.Set, datastruct.Dict.Delete, datastruct.Dict.GetRandomKey
property C02: datastruct.NewDictIterator, datastruct.DictIterator.Next, datastruct.DictIterator.Release, datastruct.Dict.GetRandomKey,
  datastruct.Dict.isRehashing, datastruct.Dict.Size, datastruct.Dict.rehashStep, datastruct.Dict.rehash, datastruct.Dict.expand,
  datastruct.Dict.expandIfNeeded, datastruct.Dict.keyIndex, datastruct.Dict.Find, datastruct.Dict.Get, datastruct.Dict.Set, datastruct.NewDict, datastruct.GetNextPower
