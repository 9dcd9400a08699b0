# The dataset (server/command.go): databases, keys, their values and expiry.
#
# Every object a value is made of has one place: vkind says what it is (1 the dict of a database, 2 its
# dict of deadlines, 3 a hash, 4 the dict of a set, 5 a list, 6 a sorted set), vdb and vkey the database
# and the key it belongs to. So no two keys share a value.
package server
group server

ghostmap vkind int
ghostmap vdb *database.Databse
ghostmap vkey string

pred placed(r int, db *database.Databse, kind int, key string) = vkind[r] == kind && vdb[r] == db && (kind >= 3 ==> vkey[r] == key)
pred dictAt(d *datastruct.Dict, db *database.Databse, kind int, key string) = d != nil && d.DictType is *database.DictType && placed(ref(d), db, kind, key)
pred textDict(d *datastruct.Dict) = forall f any {d.has[f]} {d.val[f]} :: d.has[f] ==> f is string && d.val[f] is string
pred textList(q *datastruct.Quicklist) = forall i int {q.seq[i]} :: 0 <= i < q.n ==> q.seq[i] is string

pred valueOK(db *database.Databse, k string, v any) = v is string ||
  v is *datastruct.Dict && dictAt((v as *datastruct.Dict), db, 3, k) && textDict((v as *datastruct.Dict)) ||
  v is *datastruct.Set && (v as *datastruct.Set) != nil && dictAt((v as *datastruct.Set).dict, db, 4, k) ||
  v is *datastruct.Quicklist && (v as *datastruct.Quicklist) != nil && placed(ref((v as *datastruct.Quicklist)), db, 5, k) && textList((v as *datastruct.Quicklist)) ||
  v is *datastruct.Zset && (v as *datastruct.Zset) != nil && placed(ref((v as *datastruct.Zset)), db, 6, k)

pred dbOK(db *database.Databse) = dictAt(db.Dict, db, 1, "") && dictAt(db.Expire, db, 2, "") &&
  (forall k any {db.Dict.has[k]} {db.Dict.val[k]} :: db.Dict.has[k] ==> k is string && valueOK(db, (k as string), db.Dict.val[k])) &&
  (forall k any {db.Expire.has[k]} {db.Expire.val[k]} :: db.Expire.has[k] ==> db.Expire.val[k] is int64 && db.Dict.has[k])

pred kvOK(s *Server) = s != nil && len(s.dbs) > 0 && (forall i int {s.dbs[i]} :: 0 <= i < len(s.dbs) ==> s.dbs[i] != nil && s.dbs[i].ID == i && dbOK(s.dbs[i]))
pred ofServer(s *Server, db *database.Databse) = db != nil && 0 <= db.ID < len(s.dbs) && s.dbs[db.ID] == db

# What is written to the append only file.
fun bulksR(map[int]string, int, int) string
fun bulksL(map[int]string, int, int) string
axiom bulksNone: forall m map[int]string :: forall o, n int {bulksR(m, o, n)} :: bulksL(m, o, n) == bulksR(m, o, n) && (n <= 0 ==> bulksR(m, o, n) == "") && (n > 0 ==> bulksR(m, o, n) == bulksL(m, o, n-1) + bulkR(m[o+n-1]))
axiom bulksTwo: forall m map[int]string :: forall o int {bulksR(m, o, 2)} :: bulksR(m, o, 2) == bulkR(m[o]) + bulkR(m[o+1])
axiom bulksThree: forall m map[int]string :: forall o int {bulksR(m, o, 3)} :: bulksR(m, o, 3) == bulkR(m[o]) + bulkR(m[o+1]) + bulkR(m[o+2])

def argsR(a []string) string = headR(len(a)) + bulksR(elems(a), off(a), len(a))
def cmd2(a string, b string) string = headR(2) + bulkR(a) + bulkR(b)
def cmd3(a string, b string, c string) string = headR(3) + bulkR(a) + bulkR(b) + bulkR(c)

func catAppendOnlyGenericCommand(args) (s)
  loop 1 invariant sb.s == headR(len(args)) + bulksR(elems(args), off(args), rangeindex + 1)
  gensures noneOwned()
  ensures s == argsR(args)

func log.Fatal(msg, fields)
  noreturn
  trusted "log: ends the process"

func log.Panic(msg, fields)
  noreturn
  trusted "log: panics"

func catAppendOnlyExpireCommand(args) (s)
  requires len(args) >= 3 && isInt(args[2])
  modifies comp "elem:string"(a, i) if a == arr(args), clock
  on precall log.Fatal(msg) {
    assert "no exit": false
  }
  gensures noneOwned()
  ensures clock >= old(clock) && args[0] == "expireat" && args[2] == itoa(quot(clock, 1000) + intOf(old(args[2])))
  ensures forall i int {args[i]} :: 0 <= i < len(args) && i != 0 && i != 2 ==> args[i] == old(args[i])
  ensures s == argsR(args)

# What is recorded for a command: expiry as an absolute time.
modset feeds(s *Server) = s.aofBuf.s, s.aofRewriteBuf.s, s.aofSelectDBID, clock

def recordR(name string, a []string, n int) string =
  name == "setex" ? cmd3("set", a[1], a[3]) + cmd3("expireat", a[1], itoa(quot(clock, 1000) + n)) : argsR(a)

func feedAppendOnlyFile(srv, cmd, dbID, args)
  requires srv != nil && cmd != nil && (cmd.name == "expire" || cmd.name == "setex" ==> len(args) >= 3 && isInt(args[2])) && (cmd.name == "setex" ==> len(args) >= 4)
  modifies modset feeds(srv), comp "elem:string"(a, i) if a == arr(args)
  gensures noneOwned()
  ensures clock >= old(clock) && srv.aofSelectDBID == dbID
  ensures "recorded": srv.aofBuf.s == old(srv.aofBuf.s) + (old(srv.aofSelectDBID) == dbID ? "" : cmd2("select", itoa(dbID))) + recordR(cmd.name, args, intOf(old(args[2])))
  ensures "rewriting": old(srv.backgroundTaskTypeAtomic.v) == 2 ==> srv.aofRewriteBuf.s == old(srv.aofRewriteBuf.s) + (old(srv.aofSelectDBID) == dbID ? "" : cmd2("select", itoa(dbID))) + recordR(cmd.name, args, intOf(old(args[2])))
  ensures "not rewriting": old(srv.backgroundTaskTypeAtomic.v) != 2 ==> srv.aofRewriteBuf.s == old(srv.aofRewriteBuf.s)
  ensures "expire": cmd.name == "expire" ==> args[0] == "expireat" && args[2] == itoa(quot(clock, 1000) + intOf(old(args[2])))
  ensures "arguments": forall i int {args[i]} :: 0 <= i < len(args) && !(cmd.name == "expire" && (i == 0 || i == 2)) ==> args[i] == old(args[i])


# Expiry: the key is gone, with its deadline, and its deletion is recorded.
modset keyspace(db *database.Databse) = comp datastruct.Dict.has(d) if d == db.Dict || d == db.Expire, comp datastruct.Dict.val(d) if d == db.Dict || d == db.Expire,
  comp datastruct.Dict.key(d) if d == db.Dict || d == db.Expire, comp datastruct.Dict.n(d) if d == db.Dict || d == db.Expire, comp datastruct.Dict.ver(d) if d == db.Dict || d == db.Expire

pred without(db *database.Databse, key any) =
  (forall k any {db.Dict.has[k]} :: db.Dict.has[k] <==> k != key && old(db.Dict.has[k])) &&
  (forall k any {db.Dict.val[k]} :: k != key ==> db.Dict.val[k] == old(db.Dict.val[k])) &&
  (forall k any {db.Expire.has[k]} :: db.Expire.has[k] <==> k != key && old(db.Expire.has[k])) &&
  (forall k any {db.Expire.val[k]} :: k != key ==> db.Expire.val[k] == old(db.Expire.val[k]))
pred unchanged(db *database.Databse) =
  (forall k any {db.Dict.has[k]} :: db.Dict.has[k] <==> old(db.Dict.has[k])) && (forall k any {db.Dict.val[k]} :: db.Dict.val[k] == old(db.Dict.val[k])) &&
  (forall k any {db.Expire.has[k]} :: db.Expire.has[k] <==> old(db.Expire.has[k])) && (forall k any {db.Expire.val[k]} :: db.Expire.val[k] == old(db.Expire.val[k]))

pred noneOwned() = forall e *list.Element {e.own} :: e != nil && fresh(e) ==> e.own == nil

func deleteExpiredKey(srv, db, key)
  requires kvOK(srv) && ofServer(srv, db)
  modifies modset keyspace(db), modset feeds(srv)
  gensures noneOwned()
  ensures "gone": without(db, any(key)) && kvOK(srv)
  ensures "recorded": srv.aofEnable ==> srv.aofBuf.s == old(srv.aofBuf.s) + (old(srv.aofSelectDBID) == db.ID ? "" : cmd2("select", itoa(db.ID))) + cmd2("del", key)
  ensures "not recorded": !srv.aofEnable ==> srv.aofBuf.s == old(srv.aofBuf.s)
  ensures clock >= old(clock)

def deadline(db *database.Databse, key string) int = (db.Expire.val[any(key)] as int64)

# Looking at a key: lapsed says that it was found expired (at the time at) and removed.
ghost Client.lapsed bool
ghost Client.at int

modset lapse(c *Client) = modset keyspace(c.db), modset feeds(c.srv), c.lapsed, c.at

pred okKV(c *Client) = c != nil && kvOK(c.srv) && ofServer(c.srv, c.db)
pred lapses(c *Client, key string) = (c.lapsed <==> !c.srv.loading && old(c.db.Expire.has[any(key)]) && old(deadline(c.db, key)) < c.at) && old(clock) <= c.at <= clock
pred logged(c *Client, key string) = c.srv.aofBuf.s == old(c.srv.aofBuf.s) + (c.lapsed && c.srv.aofEnable ? (old(c.srv.aofSelectDBID) == c.db.ID ? "" : cmd2("select", itoa(c.db.ID))) + cmd2("del", key) : "") &&
  (!c.lapsed ==> c.srv.aofSelectDBID == old(c.srv.aofSelectDBID))
pred looked(c *Client, key string) = lapses(c, key) && logged(c, key) && (c.lapsed ? without(c.db, any(key)) : unchanged(c.db))

func expireIfNeeded(client, key) (expired, err)
  requires okKV(client)
  modifies modset lapse(client)
  on call time.Now(t) {
    client.at = clock
  }
  on exit {
    client.lapsed = expired
    if client.srv.loading || !old(client.db.Expire.has[any(key)]) {
      client.at = clock
    }
  }
  gensures noneOwned()
  ensures "no error": err is nil && okKV(client)
  ensures "expired": expired <==> client.lapsed
  ensures "looked": looked(client, key)

property C14: server.feedAppendOnlyFile, server.catAppendOnlyExpireCommand, server.catAppendOnlyGenericCommand
property C12: server.deleteExpiredKey, server.expireIfNeeded
