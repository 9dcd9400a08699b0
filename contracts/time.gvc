# Wall clock time, in milliseconds, and the kernel's epoll instances.
package time
group none

ghostvar clock int
fun msOf(time.Time) int

func Now() (t)
  noalloc
  trusted "time: the wall clock, taken not to go backwards"
  modifies clock
  ensures clock >= old(clock) && msOf(t) == clock

func (t Time) UnixMilli() (r)
  noalloc
  trusted "time: milliseconds since the epoch"
  ensures r == msOf(t)

func (t Time) Unix() (r)
  noalloc
  trusted "time: whole seconds since the epoch"
  ensures r == quot(msOf(t), 1000)
