# The event loop of ae/ae.go.
#
# Client's view of an EventLoop el: reg is the set of (descriptor, direction) keys with a handler,
# regProc and regData what is called for them.
package ae
group ae

partition "container/list"

# The kernel: what an epoll instance watches, and what the latest wait on it reported.
ghostvar epOpen map[int]bool
ghostvar epWatch map[int]map[int]int
ghostvar epIn map[int]bool
ghostvar epOut map[int]bool
ghostvar epAt map[int]int
ghostvar epOwner map[int]*EventLoop

# What a handler needs its arguments to be.
fun fileProcOK(FileProc, int, any) bool
fun timeProcOK(TimeProc, any) bool

ghost EventLoop.reg map[int]bool
ghost EventLoop.regProc map[int]FileProc
ghost EventLoop.regData map[int]any
ghost EventLoop.closed bool
ghost EventLoop.cur *TimeEvent
ghost EventLoop.at map[int]int
ghost EventLoop.byID map[int]*TimeEvent
ghostmap mapLoop *EventLoop

ghost EventLoop.called bool
ghost EventLoop.slept bool
ghost EventLoop.callFd int
ghost EventLoop.callProc FileProc
ghost EventLoop.callData any
ghost TimeEvent.elem *list.Element
ghost TimeEvent.runs int
ghost TimeEvent.last int

sealed EventLoop.fileEventMap, EventLoop.timeEventHead, EventLoop.timeEventNextID, EventLoop.cur, EventLoop.at, EventLoop.byID, mapLoop,
  "mapdom:int:*ae.FileEvent", "mapval:int:*ae.FileEvent", FileEvent.fd, FileEvent.mask, FileEvent.proc, FileEvent.clientData, EventLoop.called, EventLoop.slept, EventLoop.callFd, EventLoop.callProc, EventLoop.callData,
  TimeEvent.id, TimeEvent.mask, TimeEvent.when, TimeEvent.interval, TimeEvent.proc, TimeEvent.clientData, TimeEvent.elem, TimeEvent.runs, TimeEvent.last,
  list.List.n, list.List.at, list.List.el, list.Element.own, list.Element.idx, list.Element.Value

readonly EventLoop.fileEventFd, EventLoop.reg, EventLoop.regProc, EventLoop.regData

zeroed list.Element.own

def keyOf(fd int, mask int) int = fd * 65536 + mask
def hasReg(el *EventLoop, fd int, mask int) bool = el.reg[keyOf(fd, mask)]
def watched(el *EventLoop, fd int) int = (el.reg[keyOf(fd, 1)] ? 1 : 0) + (el.reg[keyOf(fd, 2)] ? 4 : 0)
pred fdOK(fd int) = 0 <= fd < 2147483648
pred maskOK(m int) = m == 1 || m == 2

pred feOK(f *FileEvent) = f != nil && fdOK(f.fd) && maskOK(f.mask) && f.proc != nil && fileProcOK(f.proc, f.fd, f.clientData)

def teAt(l *list.List, i int) *TimeEvent = (l.at[i].Value as *TimeEvent)

pred teOK(t *TimeEvent, el *EventLoop) = t != nil && maskOK(t.mask) && t.proc != nil && timeProcOK(t.proc, t.clientData) && (el.cur == t || t.last + t.interval <= t.when) && t.runs >= 0 &&
  (t.mask == 2 && t.runs > 0 ==> el.cur == t) && t.id < el.timeEventNextID && el.byID[t.id] == t

pred listed(t *TimeEvent, el *EventLoop) = t != nil && t.elem != nil && t.elem.own == el.timeEventHead

pred elOK(el *EventLoop) = el != nil && !el.closed ==>
  el.fileEventMap != nil && mapLoop[ref(el.fileEventMap)] == el && epOpen[el.fileEventFd] && epOwner[el.fileEventFd] == el &&
  (forall k int {el.reg[k]} {has(el.fileEventMap, k)} :: el.reg[k] <==> has(el.fileEventMap, k)) &&
  (forall k int {el.reg[k]} :: el.reg[k] ==> feOK(el.fileEventMap[k]) && k == keyOf(el.fileEventMap[k].fd, el.fileEventMap[k].mask) &&
     el.regProc[k] == el.fileEventMap[k].proc && el.regData[k] == el.fileEventMap[k].clientData) &&
  (forall f int {epWatch[el.fileEventFd][f]} :: epWatch[el.fileEventFd][f] == watched(el, f)) &&
  el.timeEventHead != nil && el.timeEventHead.el == el && lsOK(el.timeEventHead) &&
  (forall i int {el.timeEventHead.at[i]} :: 0 <= i < el.timeEventHead.n ==> el.timeEventHead.at[i].Value is *TimeEvent &&
     teOK(teAt(el.timeEventHead, i), el) && teAt(el.timeEventHead, i).elem == el.timeEventHead.at[i])

pred freshFreeT() = forall e *list.Element {e.own} :: e != nil && fresh(e) ==> e.own == nil

func syscall.EpollCreate1(flag) (fd, err)
  noalloc
  trusted "epoll_create1(2): a new instance that watches nothing"
  modifies epOpen, epWatch
  ensures err is nil ==> fd >= 0 && !old(epOpen[now(fd)]) && epOpen[fd] && forall f int {epWatch[fd][f]} :: epWatch[fd][f] == 0
  ensures forall e int {epOpen[e]} :: (err is nil) && e == fd || epOpen[e] == old(epOpen[e])
  ensures forall e int {epWatch[e]} :: (err is nil) && e == fd || epWatch[e] == old(epWatch[e])

# A removal or change needs a watched descriptor, an addition one that is not.
func syscall.EpollCtl(epfd, op, fd, event) (err)
  noalloc
  trusted "epoll_ctl(2): 1 adds, 2 removes, 3 changes what is watched for a descriptor"
  requires event != nil && (op == 1 || op == 2 || op == 3) && event.Fd == fd
  requires op == 1 ? epWatch[epfd][fd] == 0 : epWatch[epfd][fd] != 0
  modifies epWatch
  ensures err is nil ==> epWatch[epfd][fd] == (op == 2 ? 0 : event.Events)
  ensures forall f int {epWatch[epfd][f]} :: f != fd || !(err is nil) ==> epWatch[epfd][f] == old(epWatch[epfd][f])
  ensures forall e int {epWatch[e]} :: e != epfd ==> epWatch[e] == old(epWatch[e])

func syscall.EpollWait(epfd, events, msec) (n, err)
  noalloc
  trusted "epoll_wait(2): the descriptors that are ready, with the directions they are ready for"
  requires len(events) > 0
  modifies events.*, epIn, epOut, epAt
  ensures err is nil ==> 0 <= n <= len(events)
  ensures err is nil ==> forall i int {events[i].Fd} :: 0 <= i < n ==> (bit(events[i].Events, 1) <==> epIn[events[i].Fd]) && (bit(events[i].Events, 4) <==> epOut[events[i].Fd])
  ensures err is nil ==> forall i int {events[i].Fd} :: 0 <= i < n ==> epAt[events[i].Fd] == i
  ensures err is nil ==> forall f int {epIn[f]} {epOut[f]} :: epIn[f] || epOut[f] ==> 0 <= epAt[f] < n && events[epAt[f]].Fd == f


modset anyLoop(b bool) = comp EventLoop.reg(x) if b, comp EventLoop.regProc(x) if b, comp EventLoop.regData(x) if b, comp EventLoop.timeEventNextID(x) if b,
  comp EventLoop.byID(x) if b, comp EventLoop.stop(x) if b, comp EventLoop.beforeSleep(x) if b, comp "mapdom:int:*ae.FileEvent"(m) if b, comp "mapval:int:*ae.FileEvent"(m) if b,
  comp mapLoop(m) if b, comp list.List.n(l) if b, comp list.List.at(l) if b, comp list.Element.own(e) if b, comp list.Element.idx(e) if b, epOpen, epWatch, epOwner, clock

pred ownOnly() = forall e *list.Element {e.own} :: e != nil && !fresh(e) ==> e.own == old(e.own) || e.own == nil

# A handler may use the event loop, but neither waits nor runs the loop itself.
functype FileProc(f, el, fd, clientData)
  requires el != nil && !el.closed && fileProcOK(f, fd, clientData)
  inv elOK(el)
  others forall x *EventLoop :: x != nil && elOK(x)
  modifies modset anyLoop(true)
  ensures clock >= old(clock)
  gensures ownOnly()

functype TimeProc(f, el, id, clientData)
  requires el != nil && !el.closed && timeProcOK(f, clientData)
  inv elOK(el)
  others forall x *EventLoop :: x != nil && elOK(x)
  modifies modset anyLoop(true)
  ensures clock >= old(clock)
  gensures ownOnly()

functype BeforeSleepProc(f, el)
  requires el != nil && !el.closed
  inv elOK(el)
  others forall x *EventLoop :: x != nil && elOK(x)
  modifies modset anyLoop(true)
  ensures clock >= old(clock)
  gensures ownOnly()

func NewEventLoop() (el, err)
  modifies epOpen, epWatch, epOwner
  inv err is nil ==> el != nil && elOK(el)
  others forall x *EventLoop :: x != nil && elOK(x)
  on exit {
    if err is nil {
      epOwner[el.fileEventFd] = el
      mapLoop[ref(el.fileEventMap)] = el
      el.closed = false
      el.cur = nil
      let l = el.timeEventHead
      l.el = el
    }
  }
  ensures "empty": err is nil ==> el != nil && fresh(el) && !el.closed && forall k int {el.reg[k]} :: !el.reg[k]
  gensures forall e int {epWatch[e]} {epOpen[e]} {epOwner[e]} :: old(epOpen[e]) ==> epOpen[e] && epWatch[e] == old(epWatch[e]) && epOwner[e] == old(epOwner[e])
  gensures forall m int {mapLoop[m]} :: !fresh(m) ==> mapLoop[m] == old(mapLoop[m])
  gensures freshFreeT()

func (el *EventLoop) AddFileEvent(fd, mask, proc, clientData) (err)
  requires !el.closed && fdOK(fd) && maskOK(mask) && proc != nil && fileProcOK(proc, fd, clientData)
  inv elOK(el)
  others forall x *EventLoop :: x != nil && elOK(x)
  modifies el.reg, el.regProc, el.regData, el.fileEventMap.*, epWatch
  on exit {
    if err is nil {
      el.reg[keyOf(fd, mask)] = true
      el.regProc[keyOf(fd, mask)] = proc
      el.regData[keyOf(fd, mask)] = clientData
    }
  }
  ensures "duplicate": old(hasReg(el, fd, mask)) ==> !(err is nil)
  ensures "added": err is nil ==> hasReg(el, fd, mask) && el.regProc[keyOf(fd, mask)] == proc && el.regData[keyOf(fd, mask)] == clientData
  ensures "others stay": forall k int {el.reg[k]} :: k != keyOf(fd, mask) || !(err is nil) ==> el.reg[k] == old(el.reg[k]) && el.regProc[k] == old(el.regProc[k]) && el.regData[k] == old(el.regData[k])
  gensures forall e int {epWatch[e]} :: e != el.fileEventFd ==> epWatch[e] == old(epWatch[e])
  gensures freshFreeT()

func (el *EventLoop) RemoveFileEvent(fd, mask) (err)
  requires !el.closed && fdOK(fd) && maskOK(mask)
  inv elOK(el)
  others forall x *EventLoop :: x != nil && elOK(x)
  modifies el.reg, el.fileEventMap.*, epWatch
  on exit {
    if err is nil {
      el.reg[keyOf(fd, mask)] = false
    }
  }
  ensures "not registered": !old(hasReg(el, fd, mask)) ==> !(err is nil)
  ensures "removed": err is nil ==> !hasReg(el, fd, mask)
  ensures "others stay": forall k int {el.reg[k]} :: k != keyOf(fd, mask) || !(err is nil) ==> el.reg[k] == old(el.reg[k])
  gensures forall e int {epWatch[e]} :: e != el.fileEventFd ==> epWatch[e] == old(epWatch[e])
  gensures freshFreeT()

func (el *EventLoop) SetBeforeSleepProc(proc)
  noalloc
  modifies el.beforeSleep
  ensures el.beforeSleep == proc

func (el *EventLoop) AddTimeEvent(mask, interval, proc, clientData) (err)
  requires !el.closed && maskOK(mask) && proc != nil && timeProcOK(proc, clientData)
  inv elOK(el)
  others forall x *EventLoop :: x != nil && elOK(x)
  modifies el.timeEventNextID, el.byID, modset lsMoves(el.timeEventHead), clock
  on call list.List.PushFront(l, x, e) {
    let t = (x as *TimeEvent)
    t.elem = e
    t.runs = 0
    t.last = clock
    el.byID[t.id] = t
  }
  ensures err is nil && clock >= old(clock)
  gensures "identifier": el.timeEventHead.n == old(el.timeEventHead.n) + 1 && teAt(el.timeEventHead, 0).id == old(el.timeEventNextID) && el.timeEventNextID == old(el.timeEventNextID) + 1
  gensures "as given": teAt(el.timeEventHead, 0).mask == mask && teAt(el.timeEventHead, 0).interval == interval && teAt(el.timeEventHead, 0).proc == proc &&
    teAt(el.timeEventHead, 0).clientData == clientData && teAt(el.timeEventHead, 0).when >= old(clock) + interval && teAt(el.timeEventHead, 0).when <= clock + interval
  gensures "others stay": forall i int {el.timeEventHead.at[i]} :: 1 <= i < el.timeEventHead.n ==> el.timeEventHead.at[i] == old(el.timeEventHead.at[i-1])
  gensures ownKeptT(el)
  gensures forall e *list.Element {e.own} :: e != nil && fresh(e) ==> e.own == nil || e.own == el.timeEventHead

pred ownKeptT(el *EventLoop) = forall e *list.Element {e.own} :: e != nil && !fresh(e) ==> e.own == old(e.own) || old(e.own) == el.timeEventHead && e.own == nil

func (el *EventLoop) RemoveTimeEvent(id) (err)
  requires !el.closed
  inv elOK(el)
  others forall x *EventLoop :: x != nil && elOK(x)
  modifies modset lsMoves(el.timeEventHead), comp list.Element.own(e) if e.own == el.timeEventHead
  loop 1 invariant e == nil || e.own == el.timeEventHead
  loop 1 invariant forall i int {el.timeEventHead.at[i]} :: 0 <= i < (e == nil ? el.timeEventHead.n : e.idx) ==> teAt(el.timeEventHead, i).id != id
  gensures "removed": err is nil ==> old(listed(el.byID[id], el)) && old(el.byID[id].id) == id && !listed(old(el.byID[id]), el) && el.timeEventHead.n == old(el.timeEventHead.n) - 1
  gensures "unknown": !(err is nil) ==> forall i int {el.timeEventHead.at[i]} :: 0 <= i < el.timeEventHead.n ==> teAt(el.timeEventHead, i).id != id
  gensures "others stay": forall e *list.Element {e.own} :: e != nil && !fresh(e) && e.own != old(e.own) ==> err is nil && e == old(el.byID[id].elem) && e.own == nil
  gensures freshFreeT()

func (el *EventLoop) hasTimeEvent(te) (r)
  noalloc
  requires !el.closed && te != nil
  inv elOK(el)
  loop 1 invariant e == nil || e.own == el.timeEventHead
  loop 1 invariant forall i int {el.timeEventHead.at[i]} :: 0 <= i < (e == nil ? el.timeEventHead.n : e.idx) ==> teAt(el.timeEventHead, i) != te
  gensures r ==> listed(te, el) && teAt(el.timeEventHead, te.elem.idx) == te
  gensures !r ==> forall i int {el.timeEventHead.at[i]} :: 0 <= i < el.timeEventHead.n ==> teAt(el.timeEventHead, i) != te

func (el *EventLoop) getNearestTime(defaultNearestDelta) (r)
  requires !el.closed
  inv elOK(el)
  others forall x *EventLoop :: x != nil && elOK(x)
  noalloc
  modifies clock
  loop 1 invariant e == nil || e.own == el.timeEventHead
  loop 1 invariant nearest <= clock + defaultNearestDelta && forall i int {el.timeEventHead.at[i]} :: 0 <= i < (e == nil ? el.timeEventHead.n : e.idx) ==> nearest <= teAt(el.timeEventHead, i).when
  ensures r <= clock + defaultNearestDelta && clock >= old(clock)
  gensures "nearest": forall i int {el.timeEventHead.at[i]} :: 0 <= i < el.timeEventHead.n ==> r <= teAt(el.timeEventHead, i).when

# What a handler is called for: a registered direction that the latest wait reported.
pred dueFile(el *EventLoop, f FileProc, fd int, d any, m int) = hasReg(el, fd, m) && el.regProc[keyOf(fd, m)] == f && el.regData[keyOf(fd, m)] == d && (m == 1 ? epIn[fd] : epOut[fd])

pred dueTime(t *TimeEvent, el *EventLoop) = listed(t, el) && t.when <= clock && (t.mask == 2 ==> t.runs == 0) && (t.runs > 0 ==> clock >= t.last + t.interval)

pred teRef(t *TimeEvent) = t != nil && t.elem != nil && t.elem.Value is *TimeEvent && (t.elem.Value as *TimeEvent) == t

func (el *EventLoop) processEvents(timeEvents, fileEvents) (err)
  requires !el.closed && el.cur == nil
  requires forall i int {timeEvents[i]} :: 0 <= i < len(timeEvents) ==> teRef(timeEvents[i]) && timeEvents[i].when <= clock
  requires forall i, j int {timeEvents[i], timeEvents[j]} :: 0 <= i < j < len(timeEvents) ==> timeEvents[i] != timeEvents[j]
  requires forall i int {fileEvents[i]} :: 0 <= i < len(fileEvents) ==> feOK(fileEvents[i]) && (fileEvents[i].mask == 1 ? epIn[fileEvents[i].fd] : epOut[fileEvents[i].fd])
  inv elOK(el)
  modifies modset anyLoop(true), el.cur, comp TimeEvent.when(t) if true, comp TimeEvent.runs(t) if true, comp TimeEvent.last(t) if true, el.called, el.callFd, el.callProc, el.callData
  on precall ae.TimeProc(f, l, id, data) {
    let t = el.byID[id]
    assert "time handler due": l == el && dueTime(t, el) && f == t.proc && data == t.clientData && id == t.id
    t.runs = t.runs + 1
    el.cur = t
  }
  on call ae.TimeProc(f, l, id, data) {
    let t = el.cur
    t.last = clock
  }
  on backedge 1 {
    el.cur = nil
  }
  on loop 2 {
    el.called = false
  }
  on backedge 2 {
    let fe = fileEvents[rangeindex]
    assert "file handler called": el.called && el.callFd == fe.fd && el.callProc == fe.proc && el.callData == fe.clientData || !hasReg(el, fe.fd, fe.mask) || el.fileEventMap[keyOf(fe.fd, fe.mask)] != fe
  }
  on precall ae.FileProc(f, l, fd, data) {
    assert "file handler due": l == el && (dueFile(el, f, fd, data, 1) || dueFile(el, f, fd, data, 2))
    el.called = true
    el.callFd = fd
    el.callProc = f
    el.callData = data
  }
  on exit {
    el.cur = nil
  }
  loop 1 invariant elOK(el) && !el.closed && el.cur == nil && clock >= old(clock)
  loop 1 invariant forall i int {timeEvents[i]} :: rangeindex < i < len(timeEvents) ==> timeEvents[i].when <= clock
  loop 2 invariant elOK(el) && !el.closed && el.cur == nil && clock >= old(clock)
  ensures !el.closed && clock >= old(clock) && el.cur == nil

func (el *EventLoop) wait() (timeEvents, fileEvents, err)
  requires !el.closed && el.cur == nil
  inv elOK(el)
  others forall x *EventLoop :: x != nil && elOK(x)
  modifies epIn, epOut, epAt, clock, el.at
  on call "append.*ae.FileEvent"(s, x, r) {
    let f = x[0]
    el.at[keyOf(f.fd, f.mask)] = len(s)
  }
  loop 1 invariant forall f int {epIn[f]} :: epIn[f] && epAt[f] < i && hasReg(el, f, 1) ==> 0 <= el.at[keyOf(f, 1)] < len(fileEvents) && fileEvents[el.at[keyOf(f, 1)]] == el.fileEventMap[keyOf(f, 1)]
  loop 1 invariant forall f int {epOut[f]} :: epOut[f] && epAt[f] < i && hasReg(el, f, 2) ==> 0 <= el.at[keyOf(f, 2)] < len(fileEvents) && fileEvents[el.at[keyOf(f, 2)]] == el.fileEventMap[keyOf(f, 2)]
  loop 1 invariant forall k int {fileEvents[k]} :: 0 <= k < len(fileEvents) ==> feOK(fileEvents[k]) && (fileEvents[k].mask == 1 ? epIn[fileEvents[k].fd] : epOut[fileEvents[k].fd])
  loop 1 invariant elOK(el) && freshFreeT()
  loop 1 invariant arr(fileEvents) == 0 || fresh(arr(fileEvents))
  loop 2 unroll 2
  loop 3 invariant e == nil || e.own == el.timeEventHead
  loop 3 invariant elOK(el) && freshFreeT()
  loop 3 invariant arr(timeEvents) == 0 || fresh(arr(timeEvents))
  loop 3 invariant forall k int {timeEvents[k]} :: 0 <= k < len(timeEvents) ==> teRef(timeEvents[k]) && timeEvents[k].when <= clock && timeEvents[k].elem.own == el.timeEventHead && timeEvents[k].elem.idx < (e == nil ? el.timeEventHead.n : e.idx)
  loop 3 invariant forall i, j int {timeEvents[i], timeEvents[j]} :: 0 <= i < j < len(timeEvents) ==> timeEvents[i].elem.idx < timeEvents[j].elem.idx
  gensures forall i int {timeEvents[i]} :: 0 <= i < len(timeEvents) ==> teRef(timeEvents[i]) && timeEvents[i].when <= clock
  gensures forall i, j int {timeEvents[i], timeEvents[j]} :: 0 <= i < j < len(timeEvents) ==> timeEvents[i] != timeEvents[j]
  gensures forall i int {fileEvents[i]} :: 0 <= i < len(fileEvents) ==> feOK(fileEvents[i]) && (fileEvents[i].mask == 1 ? epIn[fileEvents[i].fd] : epOut[fileEvents[i].fd])
  gensures "all readable": err is nil ==> forall f int {epIn[f]} :: epIn[f] && hasReg(el, f, 1) ==> 0 <= el.at[keyOf(f, 1)] < len(fileEvents) && fileEvents[el.at[keyOf(f, 1)]] == el.fileEventMap[keyOf(f, 1)]
  gensures "all writable": err is nil ==> forall f int {epOut[f]} :: epOut[f] && hasReg(el, f, 2) ==> 0 <= el.at[keyOf(f, 2)] < len(fileEvents) && fileEvents[el.at[keyOf(f, 2)]] == el.fileEventMap[keyOf(f, 2)]
  gensures freshFreeT()
  ensures clock >= old(clock)

# The loop ends when a handler or the before-sleep procedure asks for it, and closes the epoll instance.
func (el *EventLoop) Main() (err)
  requires !el.closed && el.cur == nil
  inv elOK(el)
  modifies modset anyLoop(true), el.cur, el.called, el.callFd, el.callProc, el.callData, comp TimeEvent.when(t) if true, comp TimeEvent.runs(t) if true, comp TimeEvent.last(t) if true,
    epIn, epOut, epAt, el.at, el.closed, el.slept, fdOpen
  on precall ae.BeforeSleepProc(f, l) {
    assert "before-sleep procedure": l == el && f == el.beforeSleep
    el.slept = true
  }
  on precall ae.EventLoop.wait(l) {
    assert "before-sleep procedure ran": l == el && (el.slept || el.beforeSleep == nil)
  }
  on loop 1 {
    el.slept = false
  }
  on backedge 1 {
    el.slept = false
  }
  on exit {
    el.closed = true
  }
  loop 1 invariant elOK(el) && !el.closed && el.cur == nil && !el.slept
  ensures "stopped": el.stop
  ensures "closed": !fdOpen[el.fileEventFd]

func (el *EventLoop) Stop()
  noalloc
  modifies el.stop
  ensures el.stop

property C19: ae.NewEventLoop, ae.EventLoop.AddFileEvent, ae.EventLoop.RemoveFileEvent, ae.EventLoop.SetBeforeSleepProc, ae.EventLoop.AddTimeEvent, ae.EventLoop.RemoveTimeEvent,
  ae.EventLoop.hasTimeEvent, ae.EventLoop.getNearestTime, ae.EventLoop.wait, ae.EventLoop.processEvents, ae.EventLoop.Main, ae.EventLoop.Stop
