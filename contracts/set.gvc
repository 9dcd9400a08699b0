# Sets (datastruct/set.go): a set is the key set of its dict.
package datastruct
group none

def inSet(s *Set, m any) bool = s.dict.has[canon(s.dict.DictType, m)]
pred sameType(s *Set, o *Set) = s.dict.DictType is *database.DictType && o.dict.DictType is *database.DictType

func NewSet(dictType) (s)
  requires !(dictType is nil)
  ensures "empty": s != nil && fresh(s) && fresh(s.dict) && s.dict != nil && allocated(s.dict) && s.dict.n == 0 && s.dict.DictType == dictType && forall k any {s.dict.has[k]} :: !s.dict.has[k]

func (s *Set) Add(member) (r)
  requires s.dict != nil && keyOK(s.dict.DictType, member)
  modifies s.dict.has, s.dict.val, s.dict.key, s.dict.n, s.dict.ver, comp DictEntry.Value(e) if true
  ensures "new": r <==> !old(inSet(s, member))
  ensures "members": forall k any {s.dict.has[k]} :: s.dict.has[k] <==> k == canon(s.dict.DictType, member) || old(s.dict.has[k])
  ensures "key": forall k any {s.dict.key[k]} :: s.dict.key[k] == (r && k == canon(s.dict.DictType, member) ? member : old(s.dict.key[k]))
  ensures "size": s.dict.n == old(s.dict.n) + (r ? 1 : 0)

func (s *Set) Delete(member) (err)
  requires s.dict != nil && keyOK(s.dict.DictType, member)
  modifies s.dict.has, s.dict.val, s.dict.key, s.dict.n, s.dict.ver
  ensures "found": err is nil <==> old(inSet(s, member))
  ensures "members": forall k any {s.dict.has[k]} :: s.dict.has[k] <==> k != canon(s.dict.DictType, member) && old(s.dict.has[k])
  ensures "size": s.dict.n == old(s.dict.n) - (err is nil ? 1 : 0)

func (s *Set) Size() (r)
  requires s.dict != nil
  ensures "size": r == s.dict.n && 0 <= r < 288230376151711744

func (s *Set) Contains(member) (r)
  requires s.dict != nil && keyOK(s.dict.DictType, member)
  ensures "member": r <==> inSet(s, member)

func (s *Set) GetRandom() (m)
  requires s.dict != nil
  ensures "member": s.dict.n > 0 ==> inSet(s, m) && keyOK(s.dict.DictType, m)
  ensures "empty": s.dict.n == 0 ==> m is nil

# Every member once, and nothing else.
func (s *Set) Range() (r)
  requires s.dict != nil
  loop 1 invariant iter.dict == s.dict && iter.ver == s.dict.ver && !iter.released && fresh(arr(keys))
  loop 1 invariant entry == nil ==> forall k any {iter.seen[k]} :: iter.seen[k] <==> s.dict.has[k]
  loop 1 invariant entry != nil ==> keyOK(s.dict.DictType, entry.Key) && iter.seen[canon(s.dict.DictType, entry.Key)]
  loop 1 invariant forall k any {iter.seen[k]} :: iter.seen[k] ==> s.dict.has[k]
  loop 1 invariant forall i int {keys[i]} :: 0 <= i < len(keys) ==> keyOK(s.dict.DictType, keys[i]) && iter.seen[canon(s.dict.DictType, keys[i])] && !(entry != nil && canon(s.dict.DictType, keys[i]) == canon(s.dict.DictType, entry.Key))
  loop 1 invariant forall i, j int {keys[i], keys[j]} :: 0 <= i < j < len(keys) ==> canon(s.dict.DictType, keys[i]) != canon(s.dict.DictType, keys[j])
  loop 1 invariant forall k any {iter.seen[k]} :: iter.seen[k] && !(entry != nil && k == canon(s.dict.DictType, entry.Key)) ==> exists i int {keys[i]} :: 0 <= i < len(keys) && canon(s.dict.DictType, keys[i]) == k
  loop 1 invariant "count": card(iter.seen) == len(keys) + (entry != nil ? 1 : 0) && (entry == nil ==> len(keys) == s.dict.n)
  ensures "count": len(r) == s.dict.n
  ensures "members": forall i int {r[i]} :: 0 <= i < len(r) ==> inSet(s, r[i]) && keyOK(s.dict.DictType, r[i])
  ensures "once": forall i, j int {r[i], r[j]} :: 0 <= i < j < len(r) ==> canon(s.dict.DictType, r[i]) != canon(s.dict.DictType, r[j])
  ensures "all": forall k any {s.dict.has[k]} :: s.dict.has[k] ==> exists i int {r[i]} :: 0 <= i < len(r) && canon(s.dict.DictType, r[i]) == k

func (s *Set) Union(other) (r)
  requires s.dict != nil && other != nil && other.dict != nil && sameType(s, other)
  modifies comp DictEntry.Value(e) if true
  loop 1 invariant iter1.dict == s.dict && iter1.ver == s.dict.ver && !iter1.released && fresh(result) && fresh(result.dict) && result != nil && result.dict != nil && sameType(s, result)
  loop 1 invariant entry == nil ==> forall k any {iter1.seen[k]} :: iter1.seen[k] <==> s.dict.has[k]
  loop 1 invariant entry != nil ==> keyOK(s.dict.DictType, entry.Key) && iter1.seen[canon(s.dict.DictType, entry.Key)]
  loop 1 invariant forall k any {result.dict.has[k]} {iter1.seen[k]} :: result.dict.has[k] <==> iter1.seen[k] && !(entry != nil && k == canon(s.dict.DictType, entry.Key))
  loop 2 invariant iter1.dict == s.dict && !iter1.released && iter2.dict == other.dict && iter2.ver == other.dict.ver && !iter2.released && fresh(result) && fresh(result.dict) && result != nil && result.dict != nil && sameType(s, result)
  loop 2 invariant entry == nil ==> forall k any {iter2.seen[k]} :: iter2.seen[k] <==> other.dict.has[k]
  loop 2 invariant entry != nil ==> keyOK(s.dict.DictType, entry.Key) && iter2.seen[canon(s.dict.DictType, entry.Key)]
  loop 2 invariant forall k any {result.dict.has[k]} {iter2.seen[k]} :: result.dict.has[k] <==> s.dict.has[k] || iter2.seen[k] && !(entry != nil && k == canon(s.dict.DictType, entry.Key) && !s.dict.has[k])
  ensures "union": forall k any {r.dict.has[k]} :: r.dict.has[k] <==> s.dict.has[k] || other.dict.has[k]
  ensures "new set": r != nil && fresh(r) && fresh(r.dict) && r.dict != nil && allocated(r.dict) && sameType(s, r)

func (s *Set) Intersect(other) (r)
  requires s.dict != nil && other != nil && other.dict != nil && sameType(s, other)
  modifies comp DictEntry.Value(e) if true
  loop 1 invariant iter.dict == s.dict && iter.ver == s.dict.ver && !iter.released && fresh(result) && fresh(result.dict) && result != nil && result.dict != nil && sameType(s, result)
  loop 1 invariant entry == nil ==> forall k any {iter.seen[k]} :: iter.seen[k] <==> s.dict.has[k]
  loop 1 invariant entry != nil ==> keyOK(s.dict.DictType, entry.Key) && iter.seen[canon(s.dict.DictType, entry.Key)]
  loop 1 invariant forall k any {result.dict.has[k]} {iter.seen[k]} :: result.dict.has[k] <==> other.dict.has[k] && iter.seen[k] && !(entry != nil && k == canon(s.dict.DictType, entry.Key))
  ensures "intersection": forall k any {r.dict.has[k]} :: r.dict.has[k] <==> s.dict.has[k] && other.dict.has[k]
  ensures "new set": r != nil && fresh(r) && fresh(r.dict) && r.dict != nil && allocated(r.dict) && sameType(s, r)

func (s *Set) Difference(other) (r)
  requires s.dict != nil && other != nil && other.dict != nil && sameType(s, other)
  modifies comp DictEntry.Value(e) if true
  loop 1 invariant iter.dict == s.dict && iter.ver == s.dict.ver && !iter.released && fresh(result) && fresh(result.dict) && result != nil && result.dict != nil && sameType(s, result)
  loop 1 invariant entry == nil ==> forall k any {iter.seen[k]} :: iter.seen[k] <==> s.dict.has[k]
  loop 1 invariant entry != nil ==> keyOK(s.dict.DictType, entry.Key) && iter.seen[canon(s.dict.DictType, entry.Key)]
  loop 1 invariant forall k any {result.dict.has[k]} {iter.seen[k]} :: result.dict.has[k] <==> !other.dict.has[k] && iter.seen[k] && !(entry != nil && k == canon(s.dict.DictType, entry.Key))
  ensures "difference": forall k any {r.dict.has[k]} :: r.dict.has[k] <==> s.dict.has[k] && !other.dict.has[k]
  ensures "new set": r != nil && fresh(r) && fresh(r.dict) && r.dict != nil && allocated(r.dict) && sameType(s, r)

property C03: datastruct.NewSet, datastruct.Set.Add, datastruct.Set.Delete, datastruct.Set.Size, datastruct.Set.Contains,
  datastruct.Set.GetRandom, datastruct.Set.Range, datastruct.Set.Union, datastruct.Set.Intersect, datastruct.Set.Difference
