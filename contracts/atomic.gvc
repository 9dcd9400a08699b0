# sync/atomic.
package atomic
group none

ghost Uint32.v int

func (x *Uint32) Load() (r)
  noalloc
  trusted "sync/atomic: the value"
  ensures r == x.v && 0 <= r < 4294967296

func (x *Uint32) Store(val)
  noalloc
  trusted "sync/atomic: sets the value"
  modifies x.v
  ensures x.v == val

func (x *Uint32) CompareAndSwap(o, n) (swapped)
  noalloc
  trusted "sync/atomic: sets the value if it is the old one"
  modifies x.v
  ensures swapped <==> old(x.v) == o
  ensures x.v == (old(x.v) == o ? n : old(x.v))
