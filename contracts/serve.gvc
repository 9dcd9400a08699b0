# Executing commands (server/command.go).
package server
group server

immutable command

# What the table says of a command: how many arguments it takes, and its name.
fun takes(int, int) bool
fun nameOf(int) string
axiom takes_ping: forall n int {takes(fn("server.pingCommand"), n)} :: takes(fn("server.pingCommand"), n) <==> n == 1
axiom name_ping: nameOf(fn("server.pingCommand")) == "ping"
axiom takes_select: forall n int {takes(fn("server.selectCommand"), n)} :: takes(fn("server.selectCommand"), n) <==> n == 2
axiom name_select: nameOf(fn("server.selectCommand")) == "select"
axiom takes_auth: forall n int {takes(fn("server.authCommand"), n)} :: takes(fn("server.authCommand"), n) <==> n == 2
axiom name_auth: nameOf(fn("server.authCommand")) == "auth"
axiom takes_bgrewriteaof: forall n int {takes(fn("server.bgRewriteAofCommand"), n)} :: takes(fn("server.bgRewriteAofCommand"), n) <==> n == 1
axiom name_bgrewriteaof: nameOf(fn("server.bgRewriteAofCommand")) == "bgrewriteaof"
axiom takes_expire: forall n int {takes(fn("server.expireCommand"), n)} :: takes(fn("server.expireCommand"), n) <==> n == 3
axiom name_expire: nameOf(fn("server.expireCommand")) == "expire"
axiom takes_expireat: forall n int {takes(fn("server.expireAtCommand"), n)} :: takes(fn("server.expireAtCommand"), n) <==> n == 3
axiom name_expireat: nameOf(fn("server.expireAtCommand")) == "expireat"
axiom takes_ttl: forall n int {takes(fn("server.ttlCommand"), n)} :: takes(fn("server.ttlCommand"), n) <==> n == 2
axiom name_ttl: nameOf(fn("server.ttlCommand")) == "ttl"
axiom takes_keys: forall n int {takes(fn("server.keysCommand"), n)} :: takes(fn("server.keysCommand"), n) <==> n == 2
axiom name_keys: nameOf(fn("server.keysCommand")) == "keys"
axiom takes_del: forall n int {takes(fn("server.delCommand"), n)} :: takes(fn("server.delCommand"), n) <==> n >= 2
axiom name_del: nameOf(fn("server.delCommand")) == "del"
axiom takes_set: forall n int {takes(fn("server.setCommand"), n)} :: takes(fn("server.setCommand"), n) <==> n >= 3
axiom name_set: nameOf(fn("server.setCommand")) == "set"
axiom takes_setex: forall n int {takes(fn("server.setExCommand"), n)} :: takes(fn("server.setExCommand"), n) <==> n == 4
axiom name_setex: nameOf(fn("server.setExCommand")) == "setex"
axiom takes_get: forall n int {takes(fn("server.getCommand"), n)} :: takes(fn("server.getCommand"), n) <==> n == 2
axiom name_get: nameOf(fn("server.getCommand")) == "get"
axiom takes_randomget: forall n int {takes(fn("server.randomGetCommand"), n)} :: takes(fn("server.randomGetCommand"), n) <==> n == 1
axiom name_randomget: nameOf(fn("server.randomGetCommand")) == "randomget"
axiom takes_hset: forall n int {takes(fn("server.hSetCommand"), n)} :: takes(fn("server.hSetCommand"), n) <==> n >= 4
axiom name_hset: nameOf(fn("server.hSetCommand")) == "hset"
axiom takes_hget: forall n int {takes(fn("server.hGetCommand"), n)} :: takes(fn("server.hGetCommand"), n) <==> n == 3
axiom name_hget: nameOf(fn("server.hGetCommand")) == "hget"
axiom takes_hdel: forall n int {takes(fn("server.hDelCommand"), n)} :: takes(fn("server.hDelCommand"), n) <==> n >= 3
axiom name_hdel: nameOf(fn("server.hDelCommand")) == "hdel"
axiom takes_hexists: forall n int {takes(fn("server.hExistsCommand"), n)} :: takes(fn("server.hExistsCommand"), n) <==> n == 3
axiom name_hexists: nameOf(fn("server.hExistsCommand")) == "hexists"
axiom takes_hkeys: forall n int {takes(fn("server.hKeysCommand"), n)} :: takes(fn("server.hKeysCommand"), n) <==> n == 2
axiom name_hkeys: nameOf(fn("server.hKeysCommand")) == "hkeys"
axiom takes_hlen: forall n int {takes(fn("server.hLenCommand"), n)} :: takes(fn("server.hLenCommand"), n) <==> n == 2
axiom name_hlen: nameOf(fn("server.hLenCommand")) == "hlen"
axiom takes_lpush: forall n int {takes(fn("server.lPushCommand"), n)} :: takes(fn("server.lPushCommand"), n) <==> n >= 3
axiom name_lpush: nameOf(fn("server.lPushCommand")) == "lpush"
axiom takes_rpush: forall n int {takes(fn("server.rPushCommand"), n)} :: takes(fn("server.rPushCommand"), n) <==> n >= 3
axiom name_rpush: nameOf(fn("server.rPushCommand")) == "rpush"
axiom takes_lpop: forall n int {takes(fn("server.lPopCommand"), n)} :: takes(fn("server.lPopCommand"), n) <==> n == 2
axiom name_lpop: nameOf(fn("server.lPopCommand")) == "lpop"
axiom takes_rpop: forall n int {takes(fn("server.rPopCommand"), n)} :: takes(fn("server.rPopCommand"), n) <==> n == 2
axiom name_rpop: nameOf(fn("server.rPopCommand")) == "rpop"
axiom takes_llen: forall n int {takes(fn("server.lLenCommand"), n)} :: takes(fn("server.lLenCommand"), n) <==> n == 2
axiom name_llen: nameOf(fn("server.lLenCommand")) == "llen"
axiom takes_lindex: forall n int {takes(fn("server.lIndexCommand"), n)} :: takes(fn("server.lIndexCommand"), n) <==> n == 3
axiom name_lindex: nameOf(fn("server.lIndexCommand")) == "lindex"
axiom takes_lrange: forall n int {takes(fn("server.lRangeCommand"), n)} :: takes(fn("server.lRangeCommand"), n) <==> n >= 4
axiom name_lrange: nameOf(fn("server.lRangeCommand")) == "lrange"
axiom takes_sadd: forall n int {takes(fn("server.sAddCommand"), n)} :: takes(fn("server.sAddCommand"), n) <==> n >= 3
axiom name_sadd: nameOf(fn("server.sAddCommand")) == "sadd"
axiom takes_srem: forall n int {takes(fn("server.sRemCommand"), n)} :: takes(fn("server.sRemCommand"), n) <==> n >= 3
axiom name_srem: nameOf(fn("server.sRemCommand")) == "srem"
axiom takes_spop: forall n int {takes(fn("server.sPopCommand"), n)} :: takes(fn("server.sPopCommand"), n) <==> n == 2
axiom name_spop: nameOf(fn("server.sPopCommand")) == "spop"
axiom takes_scard: forall n int {takes(fn("server.sCardCommand"), n)} :: takes(fn("server.sCardCommand"), n) <==> n == 2
axiom name_scard: nameOf(fn("server.sCardCommand")) == "scard"
axiom takes_sismember: forall n int {takes(fn("server.sIsMemberCommand"), n)} :: takes(fn("server.sIsMemberCommand"), n) <==> n == 3
axiom name_sismember: nameOf(fn("server.sIsMemberCommand")) == "sismember"
axiom takes_smembers: forall n int {takes(fn("server.sMembersCommand"), n)} :: takes(fn("server.sMembersCommand"), n) <==> n == 2
axiom name_smembers: nameOf(fn("server.sMembersCommand")) == "smembers"
axiom takes_sdiff: forall n int {takes(fn("server.sDiffCommand"), n)} :: takes(fn("server.sDiffCommand"), n) <==> n >= 3
axiom name_sdiff: nameOf(fn("server.sDiffCommand")) == "sdiff"
axiom takes_sinter: forall n int {takes(fn("server.sInterCommand"), n)} :: takes(fn("server.sInterCommand"), n) <==> n >= 3
axiom name_sinter: nameOf(fn("server.sInterCommand")) == "sinter"
axiom takes_sunion: forall n int {takes(fn("server.sUnionCommand"), n)} :: takes(fn("server.sUnionCommand"), n) <==> n >= 3
axiom name_sunion: nameOf(fn("server.sUnionCommand")) == "sunion"
axiom takes_zadd: forall n int {takes(fn("server.zAddCommand"), n)} :: takes(fn("server.zAddCommand"), n) <==> n >= 4
axiom name_zadd: nameOf(fn("server.zAddCommand")) == "zadd"
axiom takes_zrange: forall n int {takes(fn("server.zRangeCommand"), n)} :: takes(fn("server.zRangeCommand"), n) <==> n >= 4
axiom name_zrange: nameOf(fn("server.zRangeCommand")) == "zrange"
axiom takes_zrangebyscore: forall n int {takes(fn("server.zRangeByScoreCommand"), n)} :: takes(fn("server.zRangeByScoreCommand"), n) <==> n >= 4
axiom name_zrangebyscore: nameOf(fn("server.zRangeByScoreCommand")) == "zrangebyscore"
axiom takes_zrem: forall n int {takes(fn("server.zRemCommand"), n)} :: takes(fn("server.zRemCommand"), n) <==> n >= 3
axiom name_zrem: nameOf(fn("server.zRemCommand")) == "zrem"
axiom takes_zremrangebyrank: forall n int {takes(fn("server.zRemRangeByRankCommand"), n)} :: takes(fn("server.zRemRangeByRankCommand"), n) <==> n >= 4
axiom name_zremrangebyrank: nameOf(fn("server.zRemRangeByRankCommand")) == "zremrangebyrank"
axiom takes_zremrangebyscore: forall n int {takes(fn("server.zRemRangeByScoreCommand"), n)} :: takes(fn("server.zRemRangeByScoreCommand"), n) <==> n >= 4
axiom name_zremrangebyscore: nameOf(fn("server.zRemRangeByScoreCommand")) == "zremrangebyscore"
axiom takes_zcard: forall n int {takes(fn("server.zCardCommand"), n)} :: takes(fn("server.zCardCommand"), n) <==> n == 2
axiom name_zcard: nameOf(fn("server.zCardCommand")) == "zcard"
axiom takes_zcount: forall n int {takes(fn("server.zCountCommand"), n)} :: takes(fn("server.zCountCommand"), n) <==> n == 4
axiom name_zcount: nameOf(fn("server.zCountCommand")) == "zcount"
axiom takes_zscore: forall n int {takes(fn("server.zScoreCommand"), n)} :: takes(fn("server.zScoreCommand"), n) <==> n == 3
axiom name_zscore: nameOf(fn("server.zScoreCommand")) == "zscore"

def arityOK(a int, n int) bool = a > 0 ? n == a : n >= -a

globinv theTable for lookupCommand: len(commandTable) > 0 && forall i int {commandTable[i].name} :: 0 <= i < len(commandTable) ==> commandTable[i].proc != nil && nameOf(commandTable[i].proc) == commandTable[i].name &&
  commandTable[i].arity != 0 && (commandTable[i].arity > 0 ? takes(commandTable[i].proc, commandTable[i].arity) : forall n int {takes(commandTable[i].proc, n)} :: n >= -commandTable[i].arity ==> takes(commandTable[i].proc, n))

func lookupCommand(name) (c)
  loop 1 invariant forall j int {commandTable[j].name} :: 0 <= j <= rangeindex ==> commandTable[j].name != name
  gensures noneOwned()
  ensures "found": c != nil ==> c.name == name && c.proc != nil && nameOf(c.proc) == name && exists i int {commandTable[i].name} :: 0 <= i < len(commandTable) && commandTable[i].name == name && commandTable[i].arity == c.arity && commandTable[i].proc == c.proc
  ensures "arity": c != nil ==> forall n int {takes(c.proc, n)} :: arityOK(c.arity, n) ==> takes(c.proc, n)
  ensures "unknown": c == nil ==> forall i int {commandTable[i].name} :: 0 <= i < len(commandTable) ==> commandTable[i].name != name

# A command, whichever it is: it answers once, and what it changes beyond expired keys is counted in
# dirty, so that it is recorded.
def mine(r int, db *database.Databse) bool = vdb[r] == db && vkind[r] >= 3

modset anyCommand(c *Client) = modset writes(c), c.args, c.db, c.authenticated,
  comp datastruct.Dict.has(d) if mine(ref(d), c.db), comp datastruct.Dict.val(d) if mine(ref(d), c.db), comp datastruct.Dict.key(d) if mine(ref(d), c.db),
  comp datastruct.Dict.n(d) if mine(ref(d), c.db), comp datastruct.Dict.ver(d) if mine(ref(d), c.db),
  comp datastruct.Quicklist.seq(q) if mine(ref(q), c.db), comp datastruct.Quicklist.n(q) if mine(ref(q), c.db), comp datastruct.Quicklist.ver(q) if mine(ref(q), c.db)

pred keptIn(db *database.Databse) = (forall k any {db.Dict.has[k]} :: db.Dict.has[k] ==> old(db.Dict.has[k])) && (forall k any {db.Dict.val[k]} :: db.Dict.has[k] ==> db.Dict.val[k] == old(db.Dict.val[k])) &&
  (forall k any {db.Expire.has[k]} :: db.Expire.has[k] ==> old(db.Expire.has[k])) && (forall k any {db.Expire.val[k]} :: db.Expire.has[k] ==> db.Expire.val[k] == old(db.Expire.val[k])) &&
  (forall k any {db.Dict.has[k]} {db.Expire.has[k]} :: db.Dict.has[k] && old(db.Expire.has[k]) ==> db.Expire.has[k])
pred lapsedIn(db *database.Databse) = keptIn(db) && (forall k string {db.Dict.has[any(k)]} :: old(db.Dict.has[any(k)]) && !db.Dict.has[any(k)] ==> old(db.Expire.has[any(k)]) && old(deadline(db, k)) < clock)
pred valuesKept() = (forall d *datastruct.Dict :: forall k any {d.has[k]} :: d != nil && !fresh(d) && old(vkind[ref(d)]) >= 3 ==> (d.has[k] <==> old(d.has[k]))) &&
  (forall d *datastruct.Dict :: forall k any {d.val[k]} :: d != nil && !fresh(d) && old(vkind[ref(d)]) == 3 && d.has[k] ==> d.val[k] == old(d.val[k])) &&
  (forall q *datastruct.Quicklist {q.n} :: q != nil && !fresh(q) && old(vkind[ref(q)]) >= 3 ==> q.n == old(q.n)) &&
  (forall q *datastruct.Quicklist :: forall i int {q.seq[i]} :: q != nil && !fresh(q) && old(vkind[ref(q)]) >= 3 && 0 <= i < q.n ==> q.seq[i] == old(q.seq[i]))

functype server.command.proc(f, client) (err)
  requires okClient(client) && takes(f, len(client.args))
  modifies modset anyCommand(client)
  ensures done(client, err) && client.srv.dirty >= old(client.srv.dirty) && clock >= old(clock) && placesKept()
  ensures "permission": nameOf(f) != "auth" ==> client.authenticated == old(client.authenticated)
  ensures "selection": nameOf(f) != "select" ==> client.db == old(client.db)
  ensures "arguments": client.args == old(client.args) || fresh(arr(client.args))
  ensures "recordable": client.srv.dirty != old(client.srv.dirty) ==> nameOf(f) != "select" && (nameOf(f) == "expire" ==> len(client.args) >= 3 && isInt(client.args[2])) && (nameOf(f) == "setex" ==> len(client.args) >= 4 && isInt(client.args[2]))
  ensures "unrecorded": client.srv.dirty == old(client.srv.dirty) ==> lapsedIn(old(client.db)) && valuesKept()

# What a command is recorded as when it has run (recorded: with the clock at that time).
ghost Client.ran int
ghost Client.logged string
ghost Client.loggedDB int
ghost Client.changes int
ghost Client.n2 int

pred permitted(c *Client, name string) = c.srv.requirePassword == "" || c.authenticated || name == "auth"

func call(client, cmd) (err)
  requires okClient(client) && cmd != nil && cmd.proc != nil && takes(cmd.proc, len(client.args)) && nameOf(cmd.proc) == cmd.name
  requires "permitted": permitted(client, cmd.name)
  modifies modset anyCommand(client), client.ran, client.logged, client.loggedDB, client.changes, client.n2, comp "elem:string"(a, i) if a == arr(client.args)
  on call server.command.proc(f, c, e) {
    client.ran = client.ran + 1
    client.logged = client.srv.aofBuf.s
    client.loggedDB = client.srv.aofSelectDBID
    client.changes = client.srv.dirty
    client.n2 = len(client.args) >= 3 ? intOf(client.args[2]) : 0
  }
  ensures done(client, err) && placesKept() && clock >= old(clock)
  ensures "arguments": client.args == old(client.args) || fresh(arr(client.args))
  ensures "run": client.ran == old(client.ran) + 1 && client.changes >= old(client.srv.dirty) && client.srv.dirty == client.changes
  ensures "permission": cmd.name != "auth" ==> client.authenticated == old(client.authenticated)
  ensures "selection": cmd.name != "select" ==> client.db == old(client.db)
  ensures "recorded": err is nil && client.srv.aofEnable && client.changes != old(client.srv.dirty) ==>
    client.srv.aofBuf.s == client.logged + (client.loggedDB == client.db.ID ? "" : cmd2("select", itoa(client.db.ID))) + recordR(cmd.name, client.args, client.n2) && client.srv.aofSelectDBID == client.db.ID
  ensures "not recorded": err is nil && !(client.srv.aofEnable && client.changes != old(client.srv.dirty)) ==> client.srv.aofBuf.s == client.logged
  ensures "nothing to record": client.changes == old(client.srv.dirty) ==> lapsedIn(old(client.db)) && valuesKept()

def askedFor(c *Client) string = lower(c.args[0])

func processCommand(client) (err)
  requires okClient(client) && len(client.args) >= 1
  modifies modset anyCommand(client), client.ran, client.logged, client.loggedDB, client.changes, client.n2, client.cmdType, client.multiBulkLen, client.bulkLen, comp "elem:string"(a, i) if a == arr(client.args)
  ensures done(client, err) && placesKept() && clock >= old(clock)
  ensures "arguments": arr(client.args) == old(arr(client.args)) || arr(client.args) == 0 || fresh(arr(client.args))
  ensures "ready for the next": client.cmdType == 0 && client.multiBulkLen == 0 && client.bulkLen == -1 && len(client.args) == 0
  ensures "at most once": client.ran == old(client.ran) || client.ran == old(client.ran) + 1
  ensures "unknown": (forall i int {commandTable[i].name} :: 0 <= i < len(commandTable) ==> commandTable[i].name != old(askedFor(client))) ==> client.ran == old(client.ran) && refused(client, err)
  ensures "not permitted": !old(permitted(client, askedFor(client))) ==> client.ran == old(client.ran) && refused(client, err)
  ensures "arity": (forall i int {commandTable[i].name} :: 0 <= i < len(commandTable) && commandTable[i].name == old(askedFor(client)) ==> !arityOK(commandTable[i].arity, old(len(client.args)))) ==> client.ran == old(client.ran) && refused(client, err)
  ensures "no effect": client.ran == old(client.ran) ==> lapsedIn(client.db) && valuesKept() && client.db == old(client.db) && client.authenticated == old(client.authenticated) && client.srv.dirty == old(client.srv.dirty) && client.srv.aofBuf.s == old(client.srv.aofBuf.s)
  ensures "authenticated": !old(permitted(client, askedFor(client))) ==> !client.authenticated

# Periodic expiry: only keys whose time has passed go, in every database.
modset allKeyspaces() = comp datastruct.Dict.has(d) if vkind[ref(d)] == 1 || vkind[ref(d)] == 2, comp datastruct.Dict.val(d) if vkind[ref(d)] == 1 || vkind[ref(d)] == 2,
  comp datastruct.Dict.key(d) if vkind[ref(d)] == 1 || vkind[ref(d)] == 2, comp datastruct.Dict.n(d) if vkind[ref(d)] == 1 || vkind[ref(d)] == 2, comp datastruct.Dict.ver(d) if vkind[ref(d)] == 1 || vkind[ref(d)] == 2

pred lapsedEverywhere(s *Server) = forall i int {s.dbs[i]} :: 0 <= i < len(s.dbs) ==> lapsedIn(s.dbs[i])

func databasesCron(srv)
  requires kvOK(srv)
  modifies modset allKeyspaces(), modset feeds(srv)
  loop 1 invariant kvOK(srv) && lapsedEverywhere(srv) && clock >= old(clock) && noneOwned()
  loop 2 invariant kvOK(srv) && lapsedEverywhere(srv) && clock >= old(clock) && noneOwned() && ofServer(srv, db)
  gensures noneOwned()
  ensures kvOK(srv) && clock >= old(clock)
  ensures "only expired keys": lapsedEverywhere(srv)
