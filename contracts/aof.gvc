# The append only file (server/aof.go): what is in it, and when it is on disk.
#
# text is what was written to a file in this process, synced says that all of it is on disk.
package os
group none

ghost File.text string
ghost File.synced bool
ghost File.closed bool
ghost File.failed any

fun prefixOf(string, string) bool

func (f *File) WriteString(s) (n, err)
  noalloc
  trusted "os: appends the string, or a part of it and an error"
  requires f != nil
  modifies f.text, f.synced
  ensures 0 <= n <= len(s) && (err is nil ==> n == len(s) && f.text == old(f.text) + s)
  ensures s == "" ==> f.synced == old(f.synced) && f.text == old(f.text)

func (f *File) Sync() (err)
  noalloc
  trusted "os: fsync(2)"
  requires f != nil
  modifies f.synced
  ensures err is nil ==> f.synced

package time
group none

fun nsOf(time.Time) int

func (t Time) Sub(u) (d)
  noalloc
  trusted "time: the nanoseconds between two times"
  ensures d == nsOf(t) - nsOf(u)

package server
group server

# syncs counts the syncs started in the background, nowNs is the time last read to decide about one.
ghost Server.syncs int
ghost Server.nowNs int

modset synced(s *Server) = s.aofFile.synced, s.syncs, s.nowNs, s.aofLastFsyncTime, clock

def overdue(s *Server) bool = s.nowNs - nsOf(old(s.aofLastFsyncTime)) > 1000000000

func aofFileSync(srv)
  requires srv != nil && srv.aofFile != nil
  modifies modset synced(srv)
  on call time.Now(t) {
    srv.nowNs = nsOf(t)
  }
  on call go.server.aofFileSync$1(f) {
    assert "the current file": f == srv.aofFile
    srv.syncs = srv.syncs + 1
  }
  ensures "always": srv.aofFsync == "always" ==> srv.aofFile.synced
  ensures "never": srv.aofFsync != "always" && srv.aofFsync != "everysec" ==> srv.syncs == old(srv.syncs) && srv.aofFile.synced == old(srv.aofFile.synced)
  ensures "every second": srv.aofFsync == "everysec" ==> (overdue(srv) ? srv.syncs == old(srv.syncs) + 1 && nsOf(srv.aofLastFsyncTime) == srv.nowNs : srv.syncs == old(srv.syncs) && srv.aofLastFsyncTime == old(srv.aofLastFsyncTime))
  ensures clock >= old(clock)

# A sync in the background syncs the file it was started for, unless that was closed.
func aofFileSync$1()
  requires aofFile != nil
  modifies aofFile.synced, aofFile.failed
  on call os.File.Sync(f, err) {
    assert "the file": f == aofFile
    f.failed = err
  }
  ensures "synced": aofFile.synced || isErr(aofFile.failed, os.ErrClosed)

func flushAppendOnlyFile(srv)
  requires srv != nil && (srv.aofBuf.s != "" ==> srv.aofFile != nil)
  modifies srv.aofBuf.s, srv.aofFile.text, srv.aofCurrentSize, modset synced(srv)
  ensures "written": old(srv.aofBuf.s) != "" ==> srv.aofFile.text == old(srv.aofFile.text) + old(srv.aofBuf.s)
  ensures "nothing written": old(srv.aofBuf.s) == "" ==> srv.aofFile.text == old(srv.aofFile.text) && srv.syncs == old(srv.syncs)
  ensures "nothing left": srv.aofBuf.s == ""
  ensures "always": srv.aofFsync == "always" && old(srv.aofBuf.s) != "" ==> srv.aofFile.synced
  ensures "every second": srv.aofFsync == "everysec" && old(srv.aofBuf.s) != "" ==> (overdue(srv) ? srv.syncs == old(srv.syncs) + 1 && nsOf(srv.aofLastFsyncTime) == srv.nowNs : srv.syncs == old(srv.syncs) && srv.aofLastFsyncTime == old(srv.aofLastFsyncTime))
  ensures clock >= old(clock)

func beforeSleepProc$1(el)
  requires srv != nil && (srv.aofBuf.s != "" ==> srv.aofFile != nil)
  modifies srv.aofBuf.s, srv.aofFile.text, srv.aofCurrentSize, modset synced(srv)
  ensures "nothing left": srv.aofBuf.s == ""
  ensures "written": old(srv.aofBuf.s) != "" ==> srv.aofFile.text == old(srv.aofFile.text) + old(srv.aofBuf.s)
  ensures clock >= old(clock)
